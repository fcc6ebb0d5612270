ID="c12-by-eight"; PROPERTY="C12"
NEEDS="a payload of at least eight bytes whose length is a multiple of eight and that is all zero"
BREAKS="nothing is left of the payload, not even the one byte that always remains"
EDITS=[("util/util.go","""	for i = len(input); i > 1; i-- {
""","""	for i = len(input); i >= 8 && binary.LittleEndian.Uint64(input[i-8:i]) == 0; i -= 8 {
		// eight at a time
	}
	for ; i > 1; i-- {
"""),("util/util.go","package util\n","package util\n\nimport \"encoding/binary\"\n")]
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2/util"
)

func main() {
	for n := 1; n < 300; n++ {
		if got := len(util.TruncateV2(make([]byte, n))); got != 1 {
			fmt.Printf("%d zeros are cut to %d\n", n, got)
			os.Exit(1)
		}
	}
}
'''
