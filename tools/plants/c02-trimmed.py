ID="c02-trimmed"; PROPERTY="C02"
NEEDS="input shorter than the announced length, no copy requested"
BREAKS="a frame without copy is cut to the requested length, so that short input crashes"
EDITS=[("frame.go","			frame = FrameV2(raw)\n","			frame = FrameV2(raw[:frameLength])\n")]
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
)

func main() {
	raw := []byte{0xFD, 1, 0, 0, 0, 0, 0, 0, 0, 0, 7, 0, 0, 0xFE}
	f, err := mavlink2.FrameFromBytes(raw, 5, false)
	if err != nil || len(f.Bytes()) != len(raw) {
		fmt.Println(err, f)
		os.Exit(1)
	}
}
'''
