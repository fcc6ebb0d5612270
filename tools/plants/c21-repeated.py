ID="c21-repeated"; PROPERTY="C21"
NEEDS="two identical frames in a row and a logger"
BREAKS="a frame with the same bytes as the one before it is not logged"
EDITS=[("stream.go","""	for {
		select {
		case <-ctx.Done():
			s.close(ctx.Err())
			return
		default:
			frame, err := s.readFrame(s.reader)
""","""	var previous []byte
	for {
		select {
		case <-ctx.Done():
			s.close(ctx.Err())
			return
		default:
			frame, err := s.readFrame(s.reader)
"""),("stream.go","""			if s.logger != nil {
				s.logger.LogRead(frame.Bytes())
			}
""","""			if s.logger != nil && !bytes.Equal(frame.Bytes(), previous) {
				// peers that repeat themselves fill the log
				previous = frame.Bytes()
				s.logger.LogRead(previous)
			}
"""),("stream.go",'	"bufio"\n','	"bufio"\n	"bytes"\n')]
DEMO=r'''
package main

import (
	"bytes"
	"context"
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

type transport struct{ *bytes.Reader }

func (transport) Write(p []byte) (int, error) { return len(p), nil }
func (transport) Close() error                { return nil }

type logger struct{ read int }

func (l *logger) LogRead([]byte) error    { l.read++; return nil }
func (l *logger) LogWritten([]byte) error { return nil }

func main() {
	d := mavlink2.Dialects{common.Dialect{}}
	f, err := d.GetFrame(2, 1, 1, 1, &common.Heartbeat{Type: 1, MavlinkVersion: 3})
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	l := &logger{}
	in := append(append([]byte{}, f.Bytes()...), f.Bytes()...)
	s := mavlink2.NewFrameStreamWithLogger(transport{bytes.NewReader(in)}, nil, d, false, l)
	go s.ReadContext(context.Background())
	n := 0
	for range s.Read() {
		n++
	}
	if n != 2 || l.read != 2 {
		fmt.Println(n, "frames,", l.read, "logged")
		os.Exit(1)
	}
}
'''
