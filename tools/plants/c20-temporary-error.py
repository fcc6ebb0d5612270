ID="c20-temporary-error"; PROPERTY="C20"
NEEDS="a transport write that fails with an error that says it is temporary, while more frames wait"
BREAKS="the frame whose write failed is dropped and the loop goes on as if nothing had happened"
EDITS=[("stream.go","""			_, err := s.rwc.Write(frame.Bytes())
			if err != nil {
				s.close(err)
""","""			_, err := s.rwc.Write(frame.Bytes())
			if t, ok := err.(interface{ Temporary() bool }); ok && t.Temporary() {
				// a full socket buffer is no reason to give up
				continue
			}
			if err != nil {
				s.close(err)
""")]
DEMO=r'''
package main

import (
	"context"
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

type busy struct{}

func (busy) Error() string   { return "busy" }
func (busy) Temporary() bool { return true }

type transport struct{ writes int }

func (c *transport) Read(p []byte) (int, error) { select {} }
func (c *transport) Write(p []byte) (int, error) {
	c.writes++
	if c.writes == 1 {
		return 0, busy{}
	}
	return len(p), nil
}
func (c *transport) Close() error { return nil }

func main() {
	d := mavlink2.Dialects{common.Dialect{}}
	f, err := d.GetFrame(2, 1, 1, 1, &common.Heartbeat{Type: 1, MavlinkVersion: 3})
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	q := make(chan mavlink2.Frame, 2)
	q <- f
	q <- f
	close(q)
	t := &transport{}
	s := mavlink2.NewFrameStream(t, q, d, false)
	s.WriteContext(context.Background())
	if s.GetCloseErr() != error(busy{}) || t.writes != 1 {
		fmt.Println("closed with", s.GetCloseErr(), "after", t.writes, "writes")
		os.Exit(1)
	}
}
'''
