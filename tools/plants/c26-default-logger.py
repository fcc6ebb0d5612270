ID="c26-default-logger"; PROPERTY="C26"
NEEDS="a stream made without a logger after one made with a logger"
BREAKS="a stream without logger logs to the logger of an earlier stream"
EDITS=[("stream.go","""	f := &FrameStream{
		inputFrames: ""","""	if logger == nil {
		logger = defaultLogger
	} else if defaultLogger == nil {
		defaultLogger = logger
	}

	f := &FrameStream{
		inputFrames: """),("stream.go","func NewFrameStream(","// defaultLogger logs the frames of streams that have no logger of their own\nvar defaultLogger FrameLogger\n\nfunc NewFrameStream(")]
DEMO=r'''
package main

import (
	"bytes"
	"context"
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

type transport struct{ *bytes.Reader }

func (transport) Write(p []byte) (int, error) { return len(p), nil }
func (transport) Close() error                { return nil }

type logger struct{ read int }

func (l *logger) LogRead([]byte) error    { l.read++; return nil }
func (l *logger) LogWritten([]byte) error { return nil }

func main() {
	d := mavlink2.Dialects{common.Dialect{}}
	f, err := d.GetFrame(2, 1, 1, 1, &common.Heartbeat{Type: 1, MavlinkVersion: 3})
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	l := &logger{}
	mavlink2.NewFrameStreamWithLogger(transport{bytes.NewReader(nil)}, nil, d, false, l)
	s := mavlink2.NewFrameStream(transport{bytes.NewReader(f.Bytes())}, nil, d, false)
	go s.ReadContext(context.Background())
	for range s.Read() {
	}
	if l.read != 0 {
		fmt.Println(l.read, "frames in another stream's log")
		os.Exit(1)
	}
}
'''
