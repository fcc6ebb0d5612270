ID="c01-v2-id-high-bit"; PROPERTY="C01"
NEEDS="a V2 frame whose 24-bit message id has its top bit set (id >= 8388608)"
BREAKS="the message id accessor of V2 frames sign-extends the third id byte"
EDITS=[("frame.go","""	messageID := make([]byte, 4)

	copy(messageID[0:3], frame[7:10])

	return binary.LittleEndian.Uint32(messageID)
""","""	// the low half, then the signed high byte
	low := binary.LittleEndian.Uint16(frame[7:9])

	return uint32(int32(low) | int32(int8(frame[9]))<<16)
""")]
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
)

func main() {
	for _, id := range []uint32{0, 0x010203, 0x7fffff, 0x800000, 0xfffefd} {
		f := mavlink2.FrameV2{0xfd, 0, 0, 0, 1, 2, 3, byte(id), byte(id >> 8), byte(id >> 16), 9, 9}
		if got := f.GetMessageID(); got != id {
			fmt.Printf("message id 0x%x reported as 0x%x\n", id, got)
			os.Exit(1)
		}
	}
}
'''
