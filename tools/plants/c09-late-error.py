ID="c09-late-error"; PROPERTY="C09"
NEEDS="a message whose encoder fails after it has produced part of its output"
BREAKS="building a frame for such a message succeeds with the partial payload"
EDITS=[("stream.go","""	messageBytes, err = message.Write(version)

	if err != nil {
		return
	}
""","""	messageBytes, err = message.Write(version)

	if messageBytes == nil && err != nil {
		return
	}
""")]
DEMO=r'''
package main

import (
	"errors"
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
)

var errEnc = errors.New("cannot encode")

type msg struct{ part []byte }

func (m msg) GetVersion() int             { return 2 }
func (m msg) GetDialect() string          { return "x" }
func (m msg) GetMessageName() string      { return "x" }
func (m msg) GetID() uint32               { return 9 }
func (m msg) Read(mavlink2.Frame) error   { return nil }
func (m msg) Write(v int) ([]byte, error) { return m.part, errEnc }

type dial struct{}

func (dial) GetMeta(id uint32) (mavlink2.MessageMeta, error) {
	return mavlink2.MessageMeta{CRCExtra: 7, MinimumLength: 0, MaximumLength: 30}, nil
}
func (dial) GetMessage(mavlink2.Frame) (mavlink2.Message, error) { return nil, mavlink2.ErrUnknownMessage }

func main() {
	for _, part := range [][]byte{nil, {}, {1, 2}} {
		f, err := mavlink2.Dialects{dial{}}.GetFrame(2, 1, 2, 3, msg{part})
		if err != errEnc || f != nil {
			fmt.Printf("encoder failed after %d bytes: frame %v, error %v\n", len(part), f, err)
			os.Exit(1)
		}
	}
}
'''
