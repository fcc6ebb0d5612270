ID="c10-extension-dropped"; PROPERTY="C10"
NEEDS="an Odometry message with a value in an extension field but HasExtensionFieldValues left false, encoded for version 2"
BREAKS="extension fields are left out of the V2 encoding unless the flag was set by a previous decode"
EDITS=[("common/odometry.go","""		output = util.TruncateV2(buffer.Bytes())
""","""		if m.HasExtensionFieldValues {
			output = util.TruncateV2(output)
		} else {
			output = util.TruncateV2(output[:m.getV1Length()])
		}
""")]
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

func main() {
	for _, ext := range []bool{false, true} {
		m := &common.Odometry{X: 1.5, ChildFrameID: 3, ResetCounter: 7, EstimatorType: 2, HasExtensionFieldValues: ext}
		b, err := m.Write(2)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		f := append([]byte{0xfd, byte(len(b)), 0, 0, 1, 1, 1, 331 & 0xff, 331 >> 8, 0}, b...)
		f = append(f, 0, 0)
		var g common.Odometry
		if err := g.Read(mavlink2.FrameV2(f)); err != nil || g.ResetCounter != 7 || g.EstimatorType != 2 || g.X != 1.5 {
			fmt.Printf("flag %v: %+v came back as %+v (%v)\n", ext, *m, g, err)
			os.Exit(1)
		}
	}
}
'''
