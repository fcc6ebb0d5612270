ID="c05-too-long"; PROPERTY="C05"
NEEDS="a false start byte followed by what looks like a header with a known id and a length above its maximum, and a valid frame that begins within the announced length"
BREAKS="an invalid candidate is skipped as a whole when its checksum is fine apart from the extra byte being unknown"
EDITS=[("stream.go","""				copy(s.buffer, s.buffer[1:])
				s.bufferIndex -= 1

				if s.returnInvalidFrames {
""","""				skip := 1
				if err == ErrMessageTooLong && !s.returnInvalidFrames {
					// from a later version of the dialect: go on behind it
					skip = int(frameLength)
				}
				copy(s.buffer, s.buffer[skip:])
				s.bufferIndex -= skip

				if s.returnInvalidFrames {
""")]
BREAKS="a candidate that is too long for its message is skipped as a whole, and with it a valid frame that begins inside it"
DEMO=r'''
package main

import (
	"bytes"
	"context"
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

type transport struct{ *bytes.Reader }

func (transport) Write(p []byte) (int, error) { return len(p), nil }
func (transport) Close() error                { return nil }

func main() {
	d := mavlink2.Dialects{common.Dialect{}}
	f, err := d.GetFrame(2, 1, 1, 1, &common.Heartbeat{Type: 1, MavlinkVersion: 3})
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	in := append([]byte{0xFE, 20, 0, 0, 0, 0}, f.Bytes()...)
	s := mavlink2.NewFrameStream(transport{bytes.NewReader(append(in, make([]byte, 40)...))}, nil, d, false)
	go s.ReadContext(context.Background())
	n := 0
	for range s.Read() {
		n++
	}
	if n != 1 {
		fmt.Println(n, "frames")
		os.Exit(1)
	}
}
'''
