ID="c18-no-clear"; PROPERTY="C18"
NEEDS='a field that held a longer text before'
BREAKS='storing a text leaves the end of a longer earlier one in the field when that ended with zeros'
EDITS=[('common/statustext.go', '\tm.Text = [50]byte{}\n', '\tif m.Text[49] != 0 {\n\t\tm.Text = [50]byte{}\n\t}\n')]
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2/common"
)

func main() {
	m := &common.Statustext{}
	m.SetText("low battery")
	m.SetText("ok")
	if m.GetText() != "ok" {
		fmt.Println(m.GetText())
		os.Exit(1)
	}
}
'''
