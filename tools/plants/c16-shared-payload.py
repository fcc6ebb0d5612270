ID="c16-shared-payload"; PROPERTY="C16"
NEEDS="an unknown message whose frame buffer is reused after decoding"
BREAKS="the placeholder message keeps a view of the frame instead of its own copy of the payload"
EDITS=[("message.go","""	rawBytes := make([]byte, frame.GetMessageLength())

	copy(rawBytes, frame.GetMessageBytes())
""","""	rawBytes := frame.GetMessageBytes()[:frame.GetMessageLength()]
""")]
DEMO=r'''
package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
)

func main() {
	f := mavlink2.FrameV2{0xfd, 3, 0, 0, 1, 2, 3, 1, 2, 3, 11, 12, 13, 9, 9}
	m, err := mavlink2.Dialects{}.GetMessage(f)
	if err != mavlink2.ErrUnknownMessage {
		panic(err)
	}
	for i := range f {
		f[i] = 0
	}
	b, _ := m.Write(2)
	if !bytes.Equal(b, []byte{11, 12, 13}) {
		fmt.Printf("placeholder payload changed to %v\n", b)
		os.Exit(1)
	}
}
'''
