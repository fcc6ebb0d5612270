ID="c14-stale-extension"; PROPERTY="C14"
NEEDS="a message value decoded into twice, first from a V2 frame with extension bytes, then from a V1 frame"
BREAKS="decoding a V1 frame leaves the extension fields of an earlier decode in place"
EDITS=[("common/optical_flow.go","""	err = binary.Read(reader, binary.LittleEndian, m)
""","""	old := *m
	err = binary.Read(reader, binary.LittleEndian, m)
	if version == 1 && err == nil {
		// V1 frames carry no extension fields
		m.FlowRateX, m.FlowRateY = old.FlowRateX, old.FlowRateY
	}
""")]
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

func main() {
	m := &common.OpticalFlow{}
	v2 := make([]byte, 12+34)
	v2[0], v2[1], v2[7] = 0xfd, 34, 100
	for i := 10; i < 44; i++ {
		v2[i] = 1
	}
	if err := m.Read(mavlink2.FrameV2(v2)); err != nil || m.FlowRateX == 0 {
		panic(err)
	}
	v1 := make([]byte, 8+26)
	v1[0], v1[1], v1[5] = 0xfe, 26, 100
	if err := m.Read(mavlink2.FrameV1(v1)); err != nil {
		panic(err)
	}
	if m.FlowRateX != 0 || m.FlowRateY != 0 {
		fmt.Printf("extension fields survive: %v %v\n", m.FlowRateX, m.FlowRateY)
		os.Exit(1)
	}
}
'''
