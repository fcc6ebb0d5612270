ID="c22-signal-first"; PROPERTY="C22"
NEEDS="a goroutine that waits for the closed signal while the transport takes long to close"
BREAKS="the closed signal fires before the cause is stored"
EDITS=[("stream.go","""		s.closeErr = err

		s.rwc.Close()
		close(s.closed)
""","""		// let everybody know first: closing the transport can take a while
		close(s.closed)
		s.rwc.Close()
		s.closeErr = err
""")]
DEMO=r'''
package main

import (
	"fmt"
	"os"
	"time"

	"github.com/botlink/go-mavlink2"
)

type transport struct{}

func (transport) Read(p []byte) (int, error)  { select {} }
func (transport) Write(p []byte) (int, error) { return len(p), nil }
func (transport) Close() error                { time.Sleep(300 * time.Millisecond); return nil }

func main() {
	s := mavlink2.NewFrameStream(transport{}, make(chan mavlink2.Frame), nil, false)
	go s.Close()
	<-s.Closed()
	if s.GetCloseErr() != mavlink2.ErrUserClosed {
		fmt.Println("closed, but the cause is", s.GetCloseErr())
		os.Exit(1)
	}
}
'''
