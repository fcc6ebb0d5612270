ID="c19-set-payload"; PROPERTY="C19"
NEEDS="storing a payload that is too long for the field, then reading it"
BREAKS="the recorded length of a payload that was cut is one short of the field's capacity"
EDITS=[("common/v2_extension.go","""		m.PayloadLength = uint8(len(m.Payload))
		return mavlink2.ErrValueTooLong""","""		m.PayloadLength = uint8(len(m.Payload) - 1)
		return mavlink2.ErrValueTooLong""")]
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

func main() {
	m := &common.V2Extension{}
	in := make([]byte, 300)
	err := m.SetPayloadSlice(in)
	if err != mavlink2.ErrValueTooLong || len(m.GetPayload()) != len(m.Payload) {
		fmt.Printf("%d bytes kept of a payload that does not fit, %v\n", len(m.GetPayload()), err)
		os.Exit(1)
	}
}
'''
