ID="c22-check-then-act"; PROPERTY="C22"
NEEDS='two calls of Close while the transport takes its time to close'
BREAKS='closing checks whether the stream is closed before it acts, and a second call meanwhile does all of it again'
EDITS=[('stream.go', '\ts.closeOnce.Do(func() {\n\t\ts.closeErr = err\n', '\tselect {\n\tcase <-s.closed:\n\t\treturn\n\tdefault:\n\t}\n\n\tfunc() {\n\t\ts.closeErr = err\n'), ('stream.go', '\t\tclose(s.outputFrames)\n\t})\n', '\t\tclose(s.outputFrames)\n\t}()\n')]
DEMO=r'''
package main

import (
	"fmt"
	"os"
	"sync/atomic"
	"time"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

type transport struct{ closes int32 }

func (c *transport) Read(p []byte) (int, error)  { select {} }
func (c *transport) Write(p []byte) (int, error) { return len(p), nil }
func (c *transport) Close() error {
	atomic.AddInt32(&c.closes, 1)
	time.Sleep(300 * time.Millisecond)
	return nil
}

func main() {
	t := &transport{}
	s := mavlink2.NewFrameStream(t, make(chan mavlink2.Frame), mavlink2.Dialects{common.Dialect{}}, false)
	done := make(chan bool, 2)
	for i := 0; i < 2; i++ {
		go func() {
			defer func() {
				if r := recover(); r != nil {
					fmt.Println("panic:", r)
					os.Exit(1)
				}
				done <- true
			}()
			s.Close()
		}()
	}
	<-done
	<-done
	if n := atomic.LoadInt32(&t.closes); n != 1 {
		fmt.Printf("the transport was closed %d times\n", n)
		os.Exit(1)
	}
}
'''
