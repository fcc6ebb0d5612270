ID="c15-wrong-decoder"; PROPERTY="C15"
NEEDS="a frame with message id 6 (ChangeOperatorControlAck) decoded with the common dialect"
BREAKS="the decoder table yields a different message type for one id, although metadata and lengths look right"
EDITS=[("common/dialect.go","		message = &ChangeOperatorControlAck{}\n","		message = &ChangeOperatorControl{}\n")]
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

func main() {
	for id := uint32(0); id < 400; id++ {
		_, merr := common.Dialect{}.GetMeta(id)
		f := mavlink2.FrameV2{0xfd, 1, 0, 0, 1, 2, 3, byte(id), byte(id >> 8), 0, 1, 9, 9}
		m, err := common.Dialect{}.GetMessage(f)
		if (merr == nil) != (err == nil) || err == nil && m.GetID() != id {
			fmt.Printf("id %d: decoded as %T, %v, %v\n", id, m, err, merr)
			os.Exit(1)
		}
	}
}
'''
