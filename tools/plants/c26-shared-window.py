ID="c26-shared-window"; PROPERTY="C26"
NEEDS='two streams in one process'
BREAKS='all streams use one receive window'
EDITS=[('stream.go', '\t\tbuffer:              make([]byte, maxFrameLength*2, maxFrameLength*2),\n', '\t\tbuffer:              window[:],\n'), ('stream.go', 'func NewFrameStreamWithLogger(', 'var window [maxFrameLength * 2]byte\n\nfunc NewFrameStreamWithLogger(')]
DEMO=r'''
package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

// transport hands out the first half of its input at once, the rest after the go
type transport struct {
	a, b []byte
	go_  chan bool
}

func (c *transport) Read(p []byte) (int, error) {
	if len(c.a) > 0 {
		n := copy(p, c.a)
		c.a = c.a[n:]
		return n, nil
	}
	if c.go_ != nil {
		c.go_ <- true
		<-c.go_
		c.go_ = nil
	}
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, c.b)
	c.b = c.b[n:]
	return n, nil
}
func (c *transport) Write(p []byte) (int, error) { return len(p), nil }
func (c *transport) Close() error                { return nil }

func main() {
	d := mavlink2.Dialects{common.Dialect{}}
	f, _ := d.GetFrame(2, 1, 1, 1, &common.Heartbeat{Type: 1, MavlinkVersion: 3})
	g, _ := d.GetFrame(2, 9, 9, 9, &common.Heartbeat{Type: 7, CustomMode: 99, MavlinkVersion: 3})
	half := make(chan bool)
	one := mavlink2.NewFrameStream(&transport{f.Bytes()[:15], f.Bytes()[15:], half}, make(chan mavlink2.Frame), d, false)
	two := mavlink2.NewFrameStream(&transport{g.Bytes(), nil, nil}, make(chan mavlink2.Frame), d, false)
	go one.ReadContext(context.Background())
	<-half
	go two.ReadContext(context.Background())
	for range two.Read() {
	}
	half <- true
	n := 0
	for h := range one.Read() {
		if !bytes.Equal(h.Bytes(), f.Bytes()) {
			n = 9
		}
		n++
	}
	if n != 1 {
		fmt.Println("the first stream was disturbed by the second one")
		os.Exit(1)
	}
}
'''
