ID="c07-cut-signature"; PROPERTY="C07"
NEEDS="a permissive stream that receives an invalid V2 frame with the signed flag set, whose signature is then asked for"
BREAKS="invalid signed frames are delivered without their signature although the flag is still set: GetSignature panics"
EDITS=[("stream.go","""				if s.returnInvalidFrames {
					frame, err = FrameFromBytes(s.buffer, frameLength, true)
				}
""","""				if s.returnInvalidFrames {
					if frameLength > 255+12 {
						// the signature of an invalid frame means nothing
						frameLength -= 13
					}
					frame, err = FrameFromBytes(s.buffer, frameLength, true)
				}
""")]
DEMO=r'''
package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"time"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

type transport struct {
	r    *bytes.Reader
	wait chan bool
}

func (c *transport) Read(p []byte) (int, error) {
	if c.r.Len() == 0 {
		<-c.wait
		return 0, io.EOF
	}
	return c.r.Read(p)
}
func (c *transport) Write(p []byte) (int, error) { return len(p), nil }
func (c *transport) Close() error                { return nil }

func main() {
	defer func() {
		if r := recover(); r != nil {
			fmt.Println("an accessor of a delivered frame panicked:", r)
			os.Exit(1)
		}
	}()
	for _, n := range []int{0, 1, 100, 242, 243, 254, 255} {
		in := append([]byte{mavlink2.V2StartByte, byte(n), 1}, make([]byte, 600)...)
		s := mavlink2.NewFrameStream(&transport{bytes.NewReader(in), make(chan bool)}, make(chan mavlink2.Frame), mavlink2.Dialects{common.Dialect{}}, true)
		go s.ReadContext(context.Background())
		select {
		case g := <-s.Read():
			f := g.(mavlink2.FrameV2)
			f.GetChecksum()
			f.GetMessageBytes()
			if len(f.GetSignature()) != 13 {
				fmt.Println("no signature")
				os.Exit(1)
			}
		case <-time.After(5 * time.Second):
			fmt.Printf("no frame was delivered\n")
			os.Exit(1)
		}
	}
}
'''
