ID="c12-truncate-inner-zero"; PROPERTY="C12"
NEEDS="a payload whose trailing zero run is longer than 8 bytes and starts at an unaligned place behind a single non-zero byte"
BREAKS="zeros are cut off in words of eight bytes; the word test looks at seven of its bytes only"
EDITS=[("util/util.go","""	var i int
""","""	var i int

	// Cut off whole words of zeros first
	for n := len(input); n > 8; n = len(input) {
		word := input[n-8 : n]
		if word[7]|word[6]|word[5]|word[4]|word[3]|word[2]|word[1] != 0 || len(input) > 64 && word[0] != 0 {
			break
		}
		input = input[:n-8]
	}

""")]
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2/util"
)

func main() {
	for n := 0; n < 256; n++ {
		for k := 0; k < n; k++ {
			in := make([]byte, n)
			in[k] = 5
			if got := len(util.TruncateV2(in)); got != k+1 {
				fmt.Printf("%d bytes, last non-zero at %d: cut to %d\n", n, k, got)
				os.Exit(1)
			}
		}
	}
}
'''
