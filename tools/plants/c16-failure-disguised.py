ID="c16-failure-disguised"; PROPERTY="C16"
NEEDS='a dialect that knows the message but fails to decode it'
BREAKS='a failure to decode a known message comes with the placeholder for unknown messages'
EDITS=[('dialect.go', '\t\tif err == ErrUnknownMessage {\n\t\t\tcontinue\n\t\t} else {\n\t\t\treturn\n\t\t}\n\t}\n\n\tif err == ErrUnknownMessage {\n\t\tmessage = &UnknownMessage{}\n', '\t\tif err == nil {\n\t\t\treturn\n\t\t}\n\t}\n\n\tif err != nil {\n\t\terr = ErrUnknownMessage\n\t\tmessage = &UnknownMessage{}\n')]
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

func main() {
	// an id above 255 cannot come in a V1 frame, so hand the decoder a frame of its own kind
	_, err := mavlink2.Dialects{failing{}, common.Dialect{}}.GetMessage(mavlink2.FrameV1{0xfe, 0, 0, 0, 0, 0, 0, 0})
	if err != mavlink2.ErrPrivateField {
		fmt.Println(err)
		os.Exit(1)
	}
}

type failing struct{ common.Dialect }

func (failing) GetMessage(mavlink2.Frame) (mavlink2.Message, error) {
	return nil, mavlink2.ErrPrivateField
}
'''
