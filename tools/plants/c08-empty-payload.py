ID="c08-empty-payload"; PROPERTY="C08"
NEEDS='a message with an empty encoding'
BREAKS='building a frame for a message without payload gives no frame and no error'
EDITS=[('stream.go', '\tmessageBytes, err = message.Write(version)\n\n\tif err != nil {\n\t\treturn\n\t}\n', '\tmessageBytes, err = message.Write(version)\n\n\tif err != nil || len(messageBytes) == 0 {\n\t\treturn\n\t}\n')]
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

type empty struct{ common.Heartbeat }

func (e *empty) Write(version int) ([]byte, error) { return []byte{}, nil }

func main() {
	f, err := (mavlink2.Dialects{common.Dialect{}}).GetFrame(2, 1, 2, 3, &empty{})
	if err == nil && (f == nil || f.GetMessageLength() != 0 || f.GetSenderComponentID() != 2) {
		fmt.Println("neither a frame nor an error")
		os.Exit(1)
	}
}
'''
