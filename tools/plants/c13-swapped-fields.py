ID="c13-swapped-fields"; PROPERTY="C13"
NEEDS="an Attitude message whose pitch and yaw rates differ, exchanged with another MAVLink implementation"
BREAKS="two same-sized fields of Attitude change places on the wire (encoder and decoder stay consistent)"
EDITS=[("common/attitude.go","""	/*Pitchspeed Pitch angular speed */
	Pitchspeed float32
	/*Yawspeed Yaw angular speed */
	Yawspeed float32
""","""	/*Yawspeed Yaw angular speed */
	Yawspeed float32
	/*Pitchspeed Pitch angular speed */
	Pitchspeed float32
""")]
DEMO=r'''
package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"os"

	"github.com/botlink/go-mavlink2/common"
)

func main() {
	m := &common.Attitude{TimeBootMs: 1, Roll: 2, Pitch: 3, Yaw: 4, Rollspeed: 5, Pitchspeed: 6, Yawspeed: 7}
	b, err := m.Write(1)
	if err != nil || len(b) != 28 {
		panic(err)
	}
	for i := 1; i < 7; i++ {
		if v := math.Float32frombits(binary.LittleEndian.Uint32(b[4*i:])); v != float32(i+1) {
			fmt.Printf("field %d of Attitude holds %v on the wire\n", i, v)
			os.Exit(1)
		}
	}
}
'''
