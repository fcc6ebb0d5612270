ID="c06-two-steps"; PROPERTY="C06"
NEEDS="an invalid candidate frame whose second byte is a V1 start byte"
BREAKS="after an invalid candidate two bytes are dropped when the second one is not a V2 start byte, forgetting V1 start bytes"
EDITS=[("stream.go","""				copy(s.buffer, s.buffer[1:])
				s.bufferIndex -= 1

				if s.returnInvalidFrames {
					return frame, err
				}
""","""				// drop the start byte, and what cannot be one
				drop := 1
				if s.buffer[1] != V2StartByte {
					drop = 2
				}
				copy(s.buffer, s.buffer[drop:])
				s.bufferIndex -= drop

				if s.returnInvalidFrames {
					return frame, err
				}
""")]
DEMO=r'''
package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"time"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

type transport struct {
	r    *bytes.Reader
	wait chan bool
}

func (c *transport) Read(p []byte) (int, error) {
	if c.r.Len() == 0 {
		<-c.wait
		return 0, io.EOF
	}
	return c.r.Read(p)
}
func (c *transport) Write(p []byte) (int, error) { return len(p), nil }
func (c *transport) Close() error                { return nil }

func main() {
	d := mavlink2.Dialects{common.Dialect{}}
	f, err := d.GetFrame(1, 1, 1, 1, &common.Heartbeat{Type: 1, MavlinkVersion: 3})
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	in := append([]byte{mavlink2.V1StartByte}, f.Bytes()...)
	in = append(in, make([]byte, 600)...)
	s := mavlink2.NewFrameStream(&transport{bytes.NewReader(in), make(chan bool)}, make(chan mavlink2.Frame), d, true)
	go s.ReadContext(context.Background())
	// the stray start byte announces 0xfe bytes
	for i, want := range [][]byte{in[:0xfe+8], f.Bytes()} {
		select {
		case g := <-s.Read():
			if g == nil || !bytes.Equal(g.Bytes(), want) {
				fmt.Printf("frame %d: got %x, want %x\n", i, g.Bytes(), want)
				os.Exit(1)
			}
		case <-time.After(5 * time.Second):
			fmt.Printf("frame %d was not delivered\n", i)
			os.Exit(1)
		}
	}
}
'''
