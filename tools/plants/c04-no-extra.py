ID="c04-no-extra"; PROPERTY="C04"
NEEDS='a message whose extra checksum byte is zero'
BREAKS='the extra byte is left out of the checksum when it is zero, by the builder and the validator alike'
EDITS=[('dialect.go', '\t_, err = checksum.Write([]byte{meta.CRCExtra})\n\n\tif err != nil {\n\t\treturn err\n\t}\n', '\tif meta.CRCExtra != 0 {\n\t\t_, err = checksum.Write([]byte{meta.CRCExtra})\n\n\t\tif err != nil {\n\t\t\treturn err\n\t\t}\n\t}\n'), ('stream.go', '\t\t_, err = x25.Write(append(frameBytes[1:], meta.CRCExtra))\n\n\t\tif err != nil {\n\t\t\treturn\n\t\t}\n\n\t\tframeBytes := x25.Sum', '\t\t_, err = x25.Write(checksumInput(frameBytes, meta))\n\n\t\tif err != nil {\n\t\t\treturn\n\t\t}\n\n\t\tframeBytes := x25.Sum'), ('stream.go', '\t\t_, err = x25.Write(append(frameBytes[1:], meta.CRCExtra))\n\n\t\tif err != nil {\n\t\t\treturn\n\t\t}\n\n\t\tframeBytes = x25.Sum', '\t\t_, err = x25.Write(checksumInput(frameBytes, meta))\n\n\t\tif err != nil {\n\t\t\treturn\n\t\t}\n\n\t\tframeBytes = x25.Sum'), ('stream.go', 'func packFrame(', 'func checksumInput(frameBytes []byte, meta MessageMeta) []byte {\n\tif meta.CRCExtra == 0 {\n\t\treturn frameBytes[1:]\n\t}\n\treturn append(frameBytes[1:], meta.CRCExtra)\n}\n\nfunc packFrame(')]
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

type own struct{ common.Dialect }

func (o own) GetMeta(id uint32) (mavlink2.MessageMeta, error) {
	m, err := o.Dialect.GetMeta(id)
	m.CRCExtra = 0
	return m, err
}

func main() {
	f := []byte{0xfe, 9, 0, 1, 1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
	crc := uint16(0xffff)
	for _, b := range append(append([]byte{}, f[1:]...), 0) {
		crc ^= uint16(b)
		for k := 0; k < 8; k++ {
			if crc&1 != 0 {
				crc = crc>>1 ^ 0x8408
			} else {
				crc >>= 1
			}
		}
	}
	f = append(f, byte(crc), byte(crc>>8))
	if err := (mavlink2.Dialects{own{}}).Validate(mavlink2.FrameV1(f)); err != nil {
		fmt.Println("a frame with the right checksum:", err)
		os.Exit(1)
	}
}
'''
