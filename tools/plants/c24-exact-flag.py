ID="c24-exact-flag"; PROPERTY="C24"
NEEDS='a signed frame with another incompatibility flag set as well'
BREAKS='a frame counts as signed only if the signature flag is the sole flag'
EDITS=[('stream.go', 'if buffer[2]&CompatibilityFlagSignature == CompatibilityFlagSignature {', 'if buffer[2] == CompatibilityFlagSignature {'), ('frame.go', 'if frame.GetIncompatibilityFlags()&CompatibilityFlagSignature != CompatibilityFlagSignature {', 'if frame.GetIncompatibilityFlags() != CompatibilityFlagSignature {')]
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
)

func main() {
	f := make([]byte, 10+9+2+13)
	f[0], f[1], f[2] = 0xfd, 9, 3
	for i := 21; i < len(f); i++ {
		f[i] = byte(i)
	}
	if s := mavlink2.FrameV2(f).GetSignature(); len(s) != 13 || s[0] != 21 {
		fmt.Println("signature:", s)
		os.Exit(1)
	}
}
'''
