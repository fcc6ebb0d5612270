ID="c19-read-length"; PROPERTY="C19"
NEEDS='a V2 frame whose extension message was cut within its header'
BREAKS='the recorded payload length wraps around when fewer bytes than the header arrive and the payload is not empty'
EDITS=[('common/v2_extension.go', '\tpayloadLength := math.Max(0, float64(frame.GetMessageLength())-5)\n\tioBytes[len(ioBytes)-1] = uint8(math.Min(payloadLength, float64(len(m.Payload))))\n', '\tpayloadLength := int(frame.GetMessageLength()) - 5\n\tif frame.GetMessageLength() == 0 {\n\t\tpayloadLength = 0\n\t}\n\tioBytes[len(ioBytes)-1] = uint8(math.Min(float64(uint8(payloadLength)), float64(len(m.Payload))))\n')]
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

func main() {
	for n := 0; n < 256; n++ {
		f := make([]byte, 12+n)
		f[0], f[1], f[7] = 0xfd, byte(n), 248
		m := &common.V2Extension{}
		if err := m.Read(mavlink2.FrameV2(f)); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		want := n - 5
		if want < 0 {
			want = 0
		}
		if want > 249 {
			want = 249
		}
		if len(m.GetPayload()) != want {
			fmt.Printf("%d bytes of payload in a message of %d\n", len(m.GetPayload()), n)
			os.Exit(1)
		}
	}
}
'''
