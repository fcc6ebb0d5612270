ID="c20-batched"; PROPERTY="C20"
NEEDS='more than one frame waiting in the queue'
BREAKS='frames that wait together are sent to the transport in a single write'
EDITS=[('stream.go', '\t\t\t_, err := s.rwc.Write(frame.Bytes())\n\t\t\tif err != nil {\n\t\t\t\ts.close(err)\n\t\t\t\treturn\n\t\t\t}\n\t\t\tif s.logger != nil {\n\t\t\t\ts.logger.LogWritten(frame.Bytes())\n\t\t\t}\n', '\t\t\tpending := append([]byte{}, frame.Bytes()...)\n\t\t\tfor more := true; more; {\n\t\t\t\tselect {\n\t\t\t\tcase next, ok := <-s.inputFrames:\n\t\t\t\t\tif ok {\n\t\t\t\t\t\tpending = append(pending, next.Bytes()...)\n\t\t\t\t\t}\n\t\t\t\t\tmore = ok\n\t\t\t\tdefault:\n\t\t\t\t\tmore = false\n\t\t\t\t}\n\t\t\t}\n\n\t\t\t_, err := s.rwc.Write(pending)\n\t\t\tif err != nil {\n\t\t\t\ts.close(err)\n\t\t\t\treturn\n\t\t\t}\n\t\t\tif s.logger != nil {\n\t\t\t\ts.logger.LogWritten(pending)\n\t\t\t}\n')]
DEMO=r'''
package main

import (
	"context"
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

type transport struct{ writes int }

func (c *transport) Read(p []byte) (int, error) { select {} }
func (c *transport) Write(p []byte) (int, error) {
	c.writes++
	return len(p), nil
}
func (c *transport) Close() error { return nil }

func main() {
	d := mavlink2.Dialects{common.Dialect{}}
	f, err := d.GetFrame(2, 1, 1, 1, &common.Heartbeat{Type: 1, MavlinkVersion: 3})
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	q := make(chan mavlink2.Frame, 3)
	for j := 0; j < 3; j++ {
		q <- f
	}
	close(q)
	t := &transport{}
	mavlink2.NewFrameStream(t, q, d, false).WriteContext(context.Background())
	if t.writes != 3 {
		fmt.Printf("3 frames, %d writes\n", t.writes)
		os.Exit(1)
	}
}
'''
