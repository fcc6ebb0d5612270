ID="c09-id-24-bits"; PROPERTY="C09"
NEEDS='a V1 frame for a message whose id ends in a small byte'
BREAKS='the id check of V1 frames looks at the second byte only'
EDITS=[('stream.go', '\t\tidBytes := make([]byte, 4)\n\t\tbinary.LittleEndian.PutUint32(idBytes, message.GetID())\n\n\t\tframeBytes[5] = idBytes[0]\n', '\t\tframeBytes[5] = uint8(message.GetID())\n'), ('stream.go', '\tif version == 1 && message.GetID() > 255 {\n\t\terr = ErrEncodeV2MessageV1Frame\n\t\treturn\n\t}\n', '\tif version == 1 && uint16(message.GetID()) > 255 {\n\t\terr = ErrEncodeV2MessageV1Frame\n\t\treturn\n\t}\n')]
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

type own struct{ common.Heartbeat }

func (o *own) GetID() uint32 { return 0x20000 }

type dialect struct{ common.Dialect }

func (d dialect) GetMeta(id uint32) (mavlink2.MessageMeta, error) {
	return mavlink2.MessageMeta{CRCExtra: 1, MaximumLength: 9}, nil
}

func main() {
	f, err := mavlink2.Dialects{dialect{}}.GetFrame(1, 1, 2, 3, &own{})
	if err == nil || f != nil {
		fmt.Println("a V1 frame for message", 0x20000, f, err)
		os.Exit(1)
	}
}
'''
