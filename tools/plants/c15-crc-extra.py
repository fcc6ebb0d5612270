ID="c15-crc-extra"; PROPERTY="C15"
NEEDS='one message type of one dialect and a peer with another implementation'
BREAKS='the extra checksum byte of one message is that of its neighbour'
EDITS=[('asluav/dialect.go', '\t209: mavlink2.MessageMeta{CRCExtra: 155,', '\t209: mavlink2.MessageMeta{CRCExtra: 144,')]
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2/asluav"
)

func main() {
	m, err := asluav.Dialect{}.GetMeta(209)
	if err != nil || m.CRCExtra != 155 {
		fmt.Println(m, err)
		os.Exit(1)
	}
}
'''
