ID="c14-shared-buffer"; PROPERTY="C14"
NEEDS='decoding a shortened payload after a longer one of the same type'
BREAKS='the scratch buffer of a decoder is kept between calls, so bytes of an earlier frame fill the cut-off end'
EDITS=[('slugs/novatel_diag.go', 'func (m *NovatelDiag) getIOSlice() []byte {\n\treturn make([]byte, 14+1)\n}', 'var novatelDiagIO = make([]byte, 14+1)\n\nfunc (m *NovatelDiag) getIOSlice() []byte {\n\treturn novatelDiagIO\n}')]
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/slugs"
)

func read(n int, v byte) *slugs.NovatelDiag {
	f := make([]byte, 12+n)
	f[0], f[1], f[7] = 0xfd, byte(n), 195
	for i := 10; i < 10+n; i++ {
		f[i] = v
	}
	m := &slugs.NovatelDiag{}
	if err := m.Read(mavlink2.FrameV2(f)); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	return m
}

func main() {
	read(14, 1)
	m := read(1, 2)
	if m.Csfails != 0 || m.Timestatus != 0 || m.Receiverstatus&^255 != 0 {
		fmt.Printf("%+v\n", *m)
		os.Exit(1)
	}
}
'''
