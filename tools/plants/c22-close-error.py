ID="c22-close-error"; PROPERTY="C22"
NEEDS="a transport whose Close fails"
BREAKS="the error of closing the transport replaces the first cause"
EDITS=[("stream.go","""		s.rwc.Close()
""","""		if closeErr := s.rwc.Close(); closeErr != nil {
			s.closeErr = closeErr
		}
""")]
DEMO=r'''
package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"time"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

var errRead = errors.New("line down")

type transport struct{}

func (c *transport) Read(p []byte) (int, error)  { return 0, errRead }
func (c *transport) Write(p []byte) (int, error) { return len(p), nil }
func (c *transport) Close() error                { return errors.New("already gone") }

func main() {
	s := mavlink2.NewFrameStream(&transport{}, make(chan mavlink2.Frame), mavlink2.Dialects{common.Dialect{}}, false)
	go s.ReadContext(context.Background())
	select {
	case <-s.Closed():
	case <-time.After(5 * time.Second):
		fmt.Println("the stream was not closed")
		os.Exit(1)
	}
	if s.GetCloseErr() != errRead {
		fmt.Println("close cause:", s.GetCloseErr())
		os.Exit(1)
	}
}
'''
