ID="c05-false-start"; PROPERTY="C05"
NEEDS='a stray start byte followed by two equal bytes and a real frame'
BREAKS='after an invalid candidate whose length byte is repeated, one byte too many is dropped'
EDITS=[('stream.go', '\t\t\t\tcopy(s.buffer, s.buffer[1:])\n\t\t\t\ts.bufferIndex -= 1\n\n\t\t\t\tif s.returnInvalidFrames {\n\t\t\t\t\treturn frame, err\n\t\t\t\t}\n', '\t\t\t\tdrop := 1\n\t\t\t\tif !s.returnInvalidFrames && frame.GetMessageID() == frame.GetMessageID()&0xff {\n\t\t\t\t\t// the next start byte\n\t\t\t\t\tfor drop < 3 && drop < s.bufferIndex && s.buffer[drop] != V1StartByte && s.buffer[drop] != V2StartByte {\n\t\t\t\t\t\tdrop++\n\t\t\t\t\t}\n\t\t\t\t\tif drop == 3 && s.buffer[2] == frame.Bytes()[1] {\n\t\t\t\t\t\tdrop = 4\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tcopy(s.buffer, s.buffer[drop:])\n\t\t\t\ts.bufferIndex -= drop\n\n\t\t\t\tif s.returnInvalidFrames {\n\t\t\t\t\treturn frame, err\n\t\t\t\t}\n')]
DEMO=r'''
package main

import (
	"bytes"
	"context"
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

type transport struct{ r *bytes.Reader }

func (c *transport) Read(p []byte) (int, error)  { return c.r.Read(p) }
func (c *transport) Write(p []byte) (int, error) { return len(p), nil }
func (c *transport) Close() error                { return nil }

func main() {
	d := mavlink2.Dialects{common.Dialect{}}
	f, err := d.GetFrame(2, 1, 1, 1, &common.Heartbeat{Type: 1, MavlinkVersion: 3})
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	// a stray start byte, its length byte, and the same byte again: then the frame
	in := append([]byte{0xfe, 5, 5}, f.Bytes()...)
	s := mavlink2.NewFrameStream(&transport{bytes.NewReader(in)}, make(chan mavlink2.Frame), d, false)
	go s.ReadContext(context.Background())
	n := 0
	for range s.Read() {
		n++
	}
	if n != 1 {
		fmt.Println("the frame is missing")
		os.Exit(1)
	}
}
'''
