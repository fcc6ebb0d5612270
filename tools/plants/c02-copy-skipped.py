ID="c02-copy-skipped"; PROPERTY="C02"
NEEDS="a copy of a V2 frame requested for exactly the whole input slice, whose memory is reused afterwards"
BREAKS="no copy is made when there is nothing to cut off, so the frame shares the caller's storage"
EDITS=[("frame.go","""			var rawCopy []byte
			rawCopy = append(rawCopy, raw[:frameLength]...)
			frame = FrameV2(rawCopy)
""","""			rawCopy := raw
			if len(raw) != int(frameLength) {
				rawCopy = append([]byte(nil), raw[:frameLength]...)
			}
			frame = FrameV2(rawCopy)
""")]
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
)

func main() {
	for _, extra := range []int{0, 1, 7} {
		for _, start := range []byte{0xfe, 0xfd} {
			raw := make([]byte, 20+extra)
			raw[0] = start
			f, err := mavlink2.FrameFromBytes(raw, 20, true)
			if err != nil {
				panic(err)
			}
			raw[5] = 77
			if f.Bytes()[5] == 77 || len(f.Bytes()) != 20 {
				fmt.Printf("frame of %d bytes from %d shares the input (start 0x%x)\n", 20, len(raw), start)
				os.Exit(1)
			}
		}
	}
}
'''
