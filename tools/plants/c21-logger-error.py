ID="c21-logger-error"; PROPERTY="C21"
NEEDS="a logger whose LogRead fails"
BREAKS="a frame whose logging failed is not handed over"
EDITS=[("stream.go","""			if s.logger != nil {
				s.logger.LogRead(frame.Bytes())
			}
""","""			if s.logger != nil {
				if err := s.logger.LogRead(frame.Bytes()); err != nil {
					continue
				}
			}
""")]
DEMO=r'''
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"time"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

type transport struct {
	r    *bytes.Reader
	wait chan bool
}

func (c *transport) Read(p []byte) (int, error) {
	if c.r.Len() == 0 {
		<-c.wait
		return 0, io.EOF
	}
	return c.r.Read(p)
}
func (c *transport) Write(p []byte) (int, error) { return len(p), nil }
func (c *transport) Close() error                { return nil }

type logger struct{ n int }

func (l *logger) LogRead(b []byte) error {
	l.n++
	if l.n == 2 {
		return errors.New("disk full")
	}
	return nil
}
func (l *logger) LogWritten(b []byte) error { return nil }

func main() {
	d := mavlink2.Dialects{common.Dialect{}}
	var in []byte
	var all [][]byte
	for i := 0; i < 4; i++ {
		f, err := d.GetFrame(2, 1, 1, uint8(i), &common.Heartbeat{Type: 1, MavlinkVersion: 3})
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		all = append(all, f.Bytes())
		in = append(in, f.Bytes()...)
	}
	s := mavlink2.NewFrameStreamWithLogger(&transport{bytes.NewReader(in), make(chan bool)}, make(chan mavlink2.Frame), d, false, &logger{})
	go s.ReadContext(context.Background())
	for i, want := range all {
		select {
		case g := <-s.Read():
			if g == nil || !bytes.Equal(g.Bytes(), want) {
				fmt.Printf("frame %d: got %x, want %x\n", i, g.Bytes(), want)
				os.Exit(1)
			}
		case <-time.After(5 * time.Second):
			fmt.Printf("frame %d was not delivered\n", i)
			os.Exit(1)
		}
	}
}
'''
