ID="c06-unknown-skipped"; PROPERTY="C06"
NEEDS='an unknown message with a start byte in its payload (or a false start whose announced length covers a real frame)'
BREAKS='a short frame of unknown type is dropped as a whole, with everything that overlaps it'
EDITS=[('stream.go', '\t\t\t\tcopy(s.buffer, s.buffer[1:])\n\t\t\t\ts.bufferIndex -= 1\n\n\t\t\t\tif s.returnInvalidFrames {\n\t\t\t\t\treturn frame, err\n\t\t\t\t}\n', '\t\t\t\tif s.returnInvalidFrames && frame.GetMessageLength() < 8 && s.unknown(frame) {\n\t\t\t\t\t// nothing in there can be of interest\n\t\t\t\t\tcopy(s.buffer, s.buffer[frameLength:])\n\t\t\t\t\ts.bufferIndex -= int(frameLength)\n\t\t\t\t\treturn frame, err\n\t\t\t\t}\n\n\t\t\t\tcopy(s.buffer, s.buffer[1:])\n\t\t\t\ts.bufferIndex -= 1\n\n\t\t\t\tif s.returnInvalidFrames {\n\t\t\t\t\treturn frame, err\n\t\t\t\t}\n'), ('stream.go', 'func peekHeader(', 'func (s *FrameStream) unknown(frame Frame) bool {\n\treturn s.dialects.Validate(frame) == ErrUnknownMessage\n}\n\nfunc peekHeader(')]
DEMO=r'''
package main

import (
	"bytes"
	"context"
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

type transport struct{ r *bytes.Reader }

func (c *transport) Read(p []byte) (int, error)  { return c.r.Read(p) }
func (c *transport) Write(p []byte) (int, error) { return len(p), nil }
func (c *transport) Close() error                { return nil }

func main() {
	d := mavlink2.Dialects{common.Dialect{}}
	f, err := d.GetFrame(2, 1, 1, 1, &common.Heartbeat{Type: 1, MavlinkVersion: 3})
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	// a stray start byte in front of a frame: version 1, length 5, message id out of any dialect
	in := append([]byte{0xfe, 6, 0, 0, 0, 255}, f.Bytes()...)
	s := mavlink2.NewFrameStream(&transport{bytes.NewReader(in)}, make(chan mavlink2.Frame), d, true)
	go s.ReadContext(context.Background())
	found := false
	for g := range s.Read() {
		if bytes.Equal(g.Bytes(), f.Bytes()) {
			found = true
		}
	}
	if !found {
		fmt.Println("the valid frame is missing")
		os.Exit(1)
	}
}
'''
