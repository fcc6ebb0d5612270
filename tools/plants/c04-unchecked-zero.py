ID="c04-unchecked-zero"; PROPERTY="C04"
NEEDS="a V2 frame with a wrong checksum whose two checksum bytes are zero"
BREAKS="a zero checksum counts as not computed and is accepted"
EDITS=[("dialect.go","	if sum16 != frame.GetChecksum() {","	if received := frame.GetChecksum(); received != sum16 && (received != 0 || frame.GetVersion() == 1) {")]
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

func main() {
	f := mavlink2.FrameV2{0xFD, 9, 0, 0, 1, 1, 1, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 0}
	if err := (mavlink2.Dialects{common.Dialect{}}).Validate(f); err != mavlink2.ErrInvalidChecksum {
		fmt.Println(err)
		os.Exit(1)
	}
}
'''
