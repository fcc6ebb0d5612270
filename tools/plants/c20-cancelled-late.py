ID="c20-cancelled-late"; PROPERTY="C20"
NEEDS="a context that is cancelled while a frame waits in the write queue and the loop picks the frame rather than the cancellation"
BREAKS="a frame that was taken from the queue is thrown away without being written when the context was cancelled meanwhile"
EDITS=[("stream.go","""			_, err := s.rwc.Write(frame.Bytes())
""","""			if ctx.Err() != nil {
				// do not block in a write any more
				s.close(ctx.Err())
				return
			}

			_, err := s.rwc.Write(frame.Bytes())
""")]
DEMO=r'''
package main

import (
	"context"
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

type transport struct {
	n      int
	cancel func()
}

func (c *transport) Read(p []byte) (int, error) { select {} }
func (c *transport) Write(p []byte) (int, error) {
	c.n++
	c.cancel()
	return len(p), nil
}
func (c *transport) Close() error { return nil }

func main() {
	d := mavlink2.Dialects{common.Dialect{}}
	f, err := d.GetFrame(2, 1, 1, 1, &common.Heartbeat{Type: 1, MavlinkVersion: 3})
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for i := 0; i < 300; i++ {
		q := make(chan mavlink2.Frame, 3)
		for j := 0; j < 3; j++ {
			q <- f
		}
		ctx, cancel := context.WithCancel(context.Background())
		t := &transport{cancel: cancel}
		s := mavlink2.NewFrameStream(t, q, d, false)
		s.WriteContext(ctx)
		if taken := 3 - len(q); taken != t.n {
			fmt.Printf("%d frames were taken from the queue, %d were written\n", taken, t.n)
			os.Exit(1)
		}
	}
}
'''
