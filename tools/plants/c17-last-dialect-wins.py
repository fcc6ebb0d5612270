ID="c17-last-dialect-wins"; PROPERTY="C17"
NEEDS="two loaded dialects that both know a message id but with different metadata, the first listed being the right one"
BREAKS="validation goes on after the first dialect that knows the message, so the last one decides"
EDITS=[("dialect.go","""	err := ErrUnknownMessage
	for _, dialect := range d {
		meta, err = dialect.GetMeta(frame.GetMessageID())

		// If the Dialect doesn't know about the message, just try the next one
		if err == ErrUnknownMessage {
			continue
		} else if err == nil {
			// TODO(cgrahn): The crc should be checked in this
			// loop. In case more than one dialect has a match,
			// multiple crcExtra values could then be tried.
			break
		}
""","""	err := ErrUnknownMessage
	for _, dialect := range d {
		m, e := dialect.GetMeta(frame.GetMessageID())

		// If the Dialect doesn't know about the message, just try the next one
		if e == ErrUnknownMessage {
			continue
		}

		meta, err = m, e
		if err == nil && meta.MaximumLength >= frame.GetMessageLength() {
			break
		}
""")]
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
)

type dial struct {
	extra byte
	max   uint
}

func (d dial) GetMeta(id uint32) (mavlink2.MessageMeta, error) {
	return mavlink2.MessageMeta{CRCExtra: d.extra, MinimumLength: 0, MaximumLength: d.max}, nil
}
func (dial) GetMessage(mavlink2.Frame) (mavlink2.Message, error) { return nil, mavlink2.ErrUnknownMessage }

func frame(extra byte) mavlink2.Frame {
	b := []byte{0xfd, 3, 0, 0, 1, 2, 3, 4, 0, 0, 1, 2, 3}
	h := &mavlink2.X25CRC{}
	h.Reset()
	h.Write(b[1:])
	h.Write([]byte{extra})
	return mavlink2.FrameV2(h.Sum(b))
}

func main() {
	a, b := dial{7, 2}, dial{8, 10}
	if err := (mavlink2.Dialects{a, b}).Validate(frame(8)); err != mavlink2.ErrMessageTooLong {
		fmt.Printf("the second dialect decided: %v\n", err)
		os.Exit(1)
	}
	if err := (mavlink2.Dialects{b, a}).Validate(frame(8)); err != nil {
		fmt.Printf("the second dialect decided: %v\n", err)
		os.Exit(1)
	}
}
'''
