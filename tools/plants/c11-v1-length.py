ID="c11-v1-length"; PROPERTY="C11"
NEEDS="a V1 encoding of a message with an extension field (ScaledIMU, id 26)"
BREAKS="the V1 encoding includes the first bytes of the extension field"
EDITS=[("common/scaled_imu.go","""func (m *ScaledIMU) getV1Length() int {
	return 22
}""","""func (m *ScaledIMU) getV1Length() int {
	return 24
}""")]
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2/common"
)

func main() {
	m := &common.ScaledIMU{Xacc: 1}
	b, err := m.Write(1)
	if err != nil || len(b) != 22 {
		fmt.Printf("V1 encoding of ScaledIMU has %d bytes (%v)\n", len(b), err)
		os.Exit(1)
	}
}
'''
