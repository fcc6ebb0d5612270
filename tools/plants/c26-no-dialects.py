ID="c26-no-dialects"; PROPERTY="C26"
NEEDS="a stream made without any dialect that was asked not to return invalid frames"
BREAKS="a stream made without dialects returns invalid frames although they were not requested"
EDITS=[("stream.go","""		returnInvalidFrames: returnInvalidFrames,
""","""		returnInvalidFrames: returnInvalidFrames || len(dialects) == 0,
""")]
DEMO=r'''
package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"time"

	"github.com/botlink/go-mavlink2"
)

type transport struct{ r *bytes.Reader }

func (c *transport) Read(p []byte) (int, error)  { return c.r.Read(p) }
func (c *transport) Write(p []byte) (int, error) { return len(p), nil }
func (c *transport) Close() error                { return nil }

func main() {
	in := append([]byte{mavlink2.V1StartByte, 0}, make([]byte, 600)...)
	s := mavlink2.NewFrameStream(&transport{bytes.NewReader(in)}, make(chan mavlink2.Frame), mavlink2.Dialects{}, false)
	go s.ReadContext(context.Background())
	select {
	case f, ok := <-s.Read():
		if ok {
			fmt.Printf("invalid frame %x delivered\n", f.Bytes())
			os.Exit(1)
		}
	case <-time.After(5 * time.Second):
	}
}
'''
