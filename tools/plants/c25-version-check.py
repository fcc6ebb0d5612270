ID="c25-version-check"; PROPERTY="C25"
NEEDS="a message with an id above 255 encoded for V1 (ProtocolVersion, id 300)"
BREAKS="one message type with an id above 255 can be encoded for MAVLink 1"
EDITS=[("common/protocol_version.go","""	if m.GetID() > 255 && version < 2 {
		err = mavlink2.ErrEncodeV2MessageV1Frame""","""	if m.HasExtensionFields() && version < 2 {
		err = mavlink2.ErrEncodeV2MessageV1Frame""")]
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

func main() {
	b, err := (&common.ProtocolVersion{}).Write(1)
	if err != mavlink2.ErrEncodeV2MessageV1Frame || b != nil {
		fmt.Printf("V1 encoding of message 300: %d bytes, %v\n", len(b), err)
		os.Exit(1)
	}
}
'''
