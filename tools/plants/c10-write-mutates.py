ID="c10-write-mutates"; PROPERTY="C10"
NEEDS='a message value that is encoded and looked at (or encoded) again afterwards'
BREAKS='encoding clears the extension flag of the message itself'
EDITS=[('common/optical_flow.go', '\terr = binary.Write(&buffer, binary.LittleEndian, *m)\n', '\t// The flag is not part of the payload\n\tm.HasExtensionFieldValues = false\n\n\terr = binary.Write(&buffer, binary.LittleEndian, *m)\n')]
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2/common"
)

func main() {
	m := &common.OpticalFlow{FlowRateX: 1, HasExtensionFieldValues: true}
	old := *m
	if _, err := m.Write(2); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if *m != old || m.GetVersion() != 2 {
		fmt.Println("the message has changed")
		os.Exit(1)
	}
}
'''
