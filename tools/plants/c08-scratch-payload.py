ID="c08-scratch-payload"; PROPERTY="C08"
NEEDS="a message whose encoding has spare capacity behind it that still matters, as an encoder with a reused buffer has"
BREAKS="the checksum is written into the spare capacity of the encoder's buffer when it fits"
EDITS=[("stream.go","""		frameBytes = make([]byte, len(messageBytes)+10)
		frameBytes[0] = V2StartByte
""","""		if n := len(messageBytes) + 10; cap(messageBytes) >= n+3 {
			// the encoder left room enough: no need for another buffer
			frameBytes = messageBytes[:n]
			copy(frameBytes[10:], messageBytes)
			for i := range frameBytes[:10] {
				frameBytes[i] = 0
			}
		} else {
			frameBytes = make([]byte, n)
			copy(frameBytes[10:], messageBytes)
		}
		frameBytes[0] = V2StartByte
"""),("stream.go","""		copy(frameBytes[10:], messageBytes)

		_, err = x25.Write(append(frameBytes[1:], meta.CRCExtra))

		if err != nil {
			return
		}

		frameBytes = x25.Sum""","""		_, err = x25.Write(append(frameBytes[1:], meta.CRCExtra))

		if err != nil {
			return
		}

		frameBytes = x25.Sum""")]
BREAKS="the frame is built inside the buffer the encoder returned when that has room, so a second frame from an encoder that reuses its buffer overwrites the first"
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

// heartbeat encodes into a buffer it keeps
type heartbeat struct {
	common.Heartbeat
	buffer []byte
}

func (h *heartbeat) Write(version int) ([]byte, error) {
	b, err := h.Heartbeat.Write(version)
	return h.buffer[:copy(h.buffer, b)], err
}

func main() {
	d := mavlink2.Dialects{common.Dialect{}}
	h := &heartbeat{common.Heartbeat{Type: 1, MavlinkVersion: 3}, make([]byte, 64)}
	a, err := d.GetFrame(2, 1, 1, 1, h)
	if err == nil {
		_, err = d.GetFrame(2, 9, 9, 9, h)
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if a.GetSenderSystemID() != 1 || d.Validate(a) != nil {
		fmt.Println("the first frame changed:", a.Bytes())
		os.Exit(1)
	}
}
'''
