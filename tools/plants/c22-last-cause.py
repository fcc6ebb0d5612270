ID="c22-last-cause"; PROPERTY="C22"
NEEDS="a second close with another cause after the first one took effect"
BREAKS="the cause is replaced by the one of a later close"
EDITS=[("stream.go","""	s.closeOnce.Do(func() {
		s.closeErr = err

		s.rwc.Close()
""","""	if err != nil {
		s.closeErr = err
	}
	s.closeOnce.Do(func() {
		s.rwc.Close()
""")]
DEMO=r'''
package main

import (
	"context"
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
)

type transport struct{}

func (transport) Read(p []byte) (int, error)  { select {} }
func (transport) Write(p []byte) (int, error) { return len(p), nil }
func (transport) Close() error                { return nil }

func main() {
	q := make(chan mavlink2.Frame)
	close(q)
	s := mavlink2.NewFrameStream(transport{}, q, nil, false)
	s.WriteContext(context.Background())
	first := s.GetCloseErr()
	s.Close()
	if first == nil || s.GetCloseErr() != first {
		fmt.Println("closed with", first, "then", s.GetCloseErr())
		os.Exit(1)
	}
}
'''
