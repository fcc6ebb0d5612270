ID="c04-v1-too-long"; PROPERTY="C04"
NEEDS="a V1 frame with a correct checksum whose payload is longer than the message's maximum"
BREAKS="the maximum length is checked for V2 frames only"
EDITS=[("dialect.go","	if frame.GetMessageLength() > meta.MaximumLength {","	if frame.GetVersion() == 2 && frame.GetMessageLength() > meta.MaximumLength {")]
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

func main() {
	d := mavlink2.Dialects{common.Dialect{}}
	meta, _ := common.Dialect{}.GetMeta(0)
	for n := 8; n < 14; n++ {
		b := make([]byte, 6+n)
		b[0], b[1] = 0xfe, byte(n)
		h := &mavlink2.X25CRC{}
		h.Reset()
		h.Write(b[1:])
		h.Write([]byte{meta.CRCExtra})
		err := d.Validate(mavlink2.FrameV1(h.Sum(b)))
		var want error
		if n < 9 {
			want = mavlink2.ErrMessageTooShort
		} else if n > 9 {
			want = mavlink2.ErrMessageTooLong
		}
		if err != want {
			fmt.Printf("V1 heartbeat with %d payload bytes: %v, expected %v\n", n, err, want)
			os.Exit(1)
		}
	}
}
'''
