ID="c18-short-field"; PROPERTY="C18"
NEEDS="a status text of exactly 50 bytes (the field's full size)"
BREAKS="a text as long as the field loses its last byte when it is read back"
EDITS=[("common/statustext.go","""	clen := util.CStrLen(m.Text[:])

	return string(m.Text[:clen])
""","""	clen := util.CStrLen(m.Text[:])
	if clen >= len(m.Text) {
		// keep room for the terminator
		clen = len(m.Text) - 1
	}

	return string(m.Text[:clen])
""")]
DEMO=r'''
package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/botlink/go-mavlink2/common"
)

func main() {
	for n := 0; n < 60; n++ {
		m := &common.Statustext{}
		s := strings.Repeat("x", n)
		m.SetText(s)
		if n > 50 {
			s = s[:50]
		}
		if m.GetText() != s {
			fmt.Printf("text of %d bytes read back as %d bytes\n", n, len(m.GetText()))
			os.Exit(1)
		}
	}
}
'''
