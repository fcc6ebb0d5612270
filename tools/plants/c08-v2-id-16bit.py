ID="c08-v2-id-16bit"; PROPERTY="C08"
NEEDS="building a V2 frame for a message whose id needs more than 16 bits"
BREAKS="the third id byte of built V2 frames stays zero"
EDITS=[("stream.go","""		idBytes := make([]byte, 4)
		binary.LittleEndian.PutUint32(idBytes, message.GetID())

		copy(frameBytes[7:10], idBytes[:3])
""","""		binary.LittleEndian.PutUint16(frameBytes[7:10], uint16(message.GetID()))
""")]
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
)

type msg struct{ id uint32 }

func (m msg) GetVersion() int              { return 2 }
func (m msg) GetDialect() string           { return "x" }
func (m msg) GetMessageName() string       { return "x" }
func (m msg) GetID() uint32                { return m.id }
func (m msg) Read(mavlink2.Frame) error    { return nil }
func (m msg) Write(v int) ([]byte, error)  { return []byte{1, 2, 3}, nil }

type dial struct{}

func (dial) GetMeta(id uint32) (mavlink2.MessageMeta, error) {
	return mavlink2.MessageMeta{CRCExtra: 7, MinimumLength: 0, MaximumLength: 3}, nil
}
func (dial) GetMessage(mavlink2.Frame) (mavlink2.Message, error) { return nil, mavlink2.ErrUnknownMessage }

func main() {
	for _, id := range []uint32{0, 300, 0xffff, 0x10000, 0xabcdef} {
		f, err := mavlink2.Dialects{dial{}}.GetFrame(2, 1, 2, 3, msg{id})
		if err != nil || f.GetMessageID() != id {
			fmt.Printf("frame built for message %d: id %d, %v\n", id, f.GetMessageID(), err)
			os.Exit(1)
		}
	}
}
'''
