ID="c24-signature-start"; PROPERTY="C24"
NEEDS="a signed V2 frame with a payload longer than 243 bytes"
BREAKS="the signature accessor computes its start in a byte and returns bytes from the wrong place"
EDITS=[("frame.go","""	start := frame.GetMessageLength() + 12
	end := start + 13
	return frame[start:end]
""","""	start := frame[1] + 12
	return frame[start:][:13]
""")]
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
)

func main() {
	for n := 0; n < 256; n++ {
		f := make([]byte, 25+n)
		f[0], f[1], f[2] = 0xfd, byte(n), 1
		for i := 0; i < 13; i++ {
			f[12+n+i] = byte(100 + i)
		}
		s := mavlink2.FrameV2(f).GetSignature()
		if len(s) != 13 || s[0] != 100 || s[12] != 112 {
			fmt.Printf("signature of a frame with %d payload bytes: %v\n", n, s)
			os.Exit(1)
		}
	}
}
'''
