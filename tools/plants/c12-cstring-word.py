ID="c12-cstring-word"; PROPERTY="C12"
NEEDS='a text whose first zero byte is followed by other zero bytes'
BREAKS='the length of a text is found by bisection, which can miss the first zero byte'
EDITS=[('util/util.go', '\tfor i := 0; i < len(input); i++ {\n\t\tif input[i] == 0 {\n\t\t\treturn i\n\t\t}\n\t}\n\treturn len(input)\n', '\t// texts are padded with zeros\n\tlow, high := 0, len(input)\n\tfor low < high {\n\t\tmiddle := (low + high) / 2\n\t\tif input[middle] == 0 {\n\t\t\thigh = middle\n\t\t} else {\n\t\t\tlow = middle + 1\n\t\t}\n\t}\n\treturn low\n')]
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2/util"
)

func main() {
	if n := util.CStrLen([]byte{'a', 0, 'b', 'c', 'd', 'e', 0, 0}); n != 1 {
		fmt.Println(n)
		os.Exit(1)
	}
}
'''
