ID="c13-big-endian"; PROPERTY="C13"
NEEDS='one message type and a peer with another implementation'
BREAKS='a message type is encoded and decoded with the high byte first'
EDITS=[('asluav/sens_mppt.go', 'err = binary.Read(reader, binary.LittleEndian, m)', 'err = binary.Read(reader, binary.BigEndian, m)'), ('asluav/sens_mppt.go', 'err = binary.Write(&buffer, binary.LittleEndian, *m)', 'err = binary.Write(&buffer, binary.BigEndian, *m)')]
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2/asluav"
)

func main() {
	b, err := (&asluav.SensMppt{MpptTimestamp: 1, Mppt3Status: 7}).Write(2)
	if err != nil || b[0] != 1 || b[7] != 0 {
		fmt.Println(b, err)
		os.Exit(1)
	}
}
'''
