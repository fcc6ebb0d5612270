ID="c25-flag-before-check"; PROPERTY="C25"
NEEDS='a message of id above 255, decoded from a V1 frame by mistake'
BREAKS='a decode that is refused resets the message first'
EDITS=[('common/smart_battery_info.go', "\t// Don't attempt to Read V2 messages from V1 frames\n\tif m.GetID() > 255 && version < 2 {\n", "\t*m = SmartBatteryInfo{}\n\n\t// Don't attempt to Read V2 messages from V1 frames\n\tif m.GetID() > 255 && version < 2 {\n")]
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

func main() {
	m := &common.SmartBatteryInfo{Weight: 5}
	err := m.Read(mavlink2.FrameV1{0xfe, 0, 0, 0, 0, 114, 0, 0})
	if err != mavlink2.ErrDecodeV2MessageV1Frame || m.Weight != 5 {
		fmt.Println(err, m.Weight)
		os.Exit(1)
	}
}
'''
