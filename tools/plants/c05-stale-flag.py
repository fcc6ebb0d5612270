ID="c05-stale-flag"; PROPERTY="C05"
NEEDS="reads that hand out exactly two bytes of a V2 frame's header at a point where the third buffer byte is a left-over with an odd value"
BREAKS="the header is inspected after two bytes, so the signed flag of a V2 frame is read from a left-over byte of an earlier frame"
EDITS=[("stream.go","""		if s.bufferIndex < 3 {
			bytesNeeded := 3 - s.bufferIndex
""","""		// start byte and length
		if s.bufferIndex < 2 {
			bytesNeeded := 2 - s.bufferIndex
""")]
DEMO=r'''
package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"time"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

type chunks struct {
	c    [][]byte
	wait chan bool
}

func (c *chunks) Read(p []byte) (int, error) {
	if len(c.c) == 0 {
		<-c.wait
		return 0, io.EOF
	}
	n := copy(p, c.c[0])
	if n == len(c.c[0]) {
		c.c = c.c[1:]
	} else {
		c.c[0] = c.c[0][n:]
	}
	return n, nil
}
func (c *chunks) Write(p []byte) (int, error) { return len(p), nil }
func (c *chunks) Close() error                { return nil }

func main() {
	d := mavlink2.Dialects{common.Dialect{}}
	var all [][]byte
	for i := 0; i < 6; i++ {
		f, err := d.GetFrame(2, 255, 255, uint8(i), &common.Ping{TimeUsec: 0x0101010101010101, Seq: 0xffffffff, TargetSystem: 255, TargetComponent: 255})
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		all = append(all, f.Bytes())
	}
	t := &chunks{wait: make(chan bool)}
	t.c = append(t.c, bytes.Repeat([]byte{0xff}, 700))
	for _, f := range all {
		t.c = append(t.c, f[:1], f[1:2], f[2:])
	}
	s := mavlink2.NewFrameStream(t, make(chan mavlink2.Frame), d, false)
	go s.ReadContext(context.Background())
	for i, want := range all {
		select {
		case f := <-s.Read():
			if f == nil || !bytes.Equal(f.Bytes(), want) {
				fmt.Printf("frame %d: got %v, want %x\n", i, f, want)
				os.Exit(1)
			}
		case <-time.After(5 * time.Second):
			fmt.Printf("frame %d was not delivered\n", i)
			os.Exit(1)
		}
	}
}
'''
