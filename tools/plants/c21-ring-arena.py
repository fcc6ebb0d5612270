ID="c21-ring-arena"; PROPERTY="C21"
NEEDS='more frames than a 64 KiB arena holds, and a consumer that keeps an early one'
BREAKS='copies of frames share a ring of memory, so a frame that was handed over changes when the ring comes round'
EDITS=[('frame.go', '// FrameFromBytes returns', '// arena holds the storage of recent frames\nvar arena [65536]byte\nvar arenaUsed int\n\nfunc allocate(n uint16) []byte {\n\tif arenaUsed+int(n) > len(arena) {\n\t\tarenaUsed = 0\n\t}\n\tstart := arenaUsed\n\tarenaUsed += int(n)\n\treturn arena[start:start:arenaUsed]\n}\n\n// FrameFromBytes returns'), ('frame.go', '\t\t\tvar rawCopy []byte\n\t\t\trawCopy = append(rawCopy, raw[:frameLength]...)\n\t\t\tframe = FrameV1(rawCopy)', '\t\t\trawCopy := allocate(frameLength)\n\t\t\trawCopy = append(rawCopy, raw[:frameLength]...)\n\t\t\tframe = FrameV1(rawCopy)'), ('frame.go', '\t\t\tvar rawCopy []byte\n\t\t\trawCopy = append(rawCopy, raw[:frameLength]...)\n\t\t\tframe = FrameV2(rawCopy)', '\t\t\trawCopy := allocate(frameLength)\n\t\t\trawCopy = append(rawCopy, raw[:frameLength]...)\n\t\t\tframe = FrameV2(rawCopy)')]
DEMO=r'''
package main

import (
	"bytes"
	"context"
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

type transport struct{ r *bytes.Reader }

func (c *transport) Read(p []byte) (int, error)  { return c.r.Read(p) }
func (c *transport) Write(p []byte) (int, error) { return len(p), nil }
func (c *transport) Close() error                { return nil }

func main() {
	d := mavlink2.Dialects{common.Dialect{}}
	var all []byte
	n := 6000
	for i := 0; i < n; i++ {
		f, err := d.GetFrame(2, 1, 1, uint8(i), &common.Heartbeat{Type: uint8(i), CustomMode: uint32(i), MavlinkVersion: 3})
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		all = append(all, f.Bytes()...)
	}
	s := mavlink2.NewFrameStream(&transport{bytes.NewReader(all)}, make(chan mavlink2.Frame), d, false)
	go s.ReadContext(context.Background())
	var got []mavlink2.Frame
	for f := range s.Read() {
		got = append(got, f)
	}
	var back []byte
	for _, f := range got {
		back = append(back, f.Bytes()...)
	}
	if len(got) != n || !bytes.Equal(all, back) {
		fmt.Printf("%d frames, kept unchanged: %v\n", len(got), bytes.Equal(all, back))
		os.Exit(1)
	}
}
'''
