ID="c18-whole-runes"; PROPERTY="C18"
NEEDS="a text longer than the field whose multi-byte character straddles the end of the field"
BREAKS="the text is cut before the character, not at the field's size"
EDITS=[("common/statustext.go","""	clen := int(math.Min(float64(len(input)), float64(50)))
""","""	clen := int(math.Min(float64(len(input)), float64(50)))
	// keep whole characters
	for clen > 0 && clen < len(input) && input[clen]&0xC0 == 0x80 {
		clen--
	}
""")]
DEMO=r'''
package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/botlink/go-mavlink2/common"
)

func main() {
	m := &common.Statustext{}
	text := strings.Repeat("x", 49) + "\u00e9tat"
	m.SetText(text)
	if m.GetText() != text[:50] {
		fmt.Printf("%q\n", m.GetText())
		os.Exit(1)
	}
}
'''
