ID="c17-meta-cache"; PROPERTY="C17"
NEEDS='two lists of dialects that define the same id differently, used in one process'
BREAKS='the metadata found first for an id is remembered for every list of dialects'
EDITS=[('dialect.go', '\tvar meta MessageMeta\n\n\terr = ErrUnknownMessage\n\n\tfor _, dialect := range d {\n\t\tmeta, err = dialect.GetMeta(message.GetID())\n\n\t\tif err != nil && err != ErrUnknownMessage {\n\t\t\treturn\n\t\t}\n\n\t\tif err == nil {\n\t\t\tbreak\n\t\t}\n\t}\n', '\tvar meta MessageMeta\n\n\terr = ErrUnknownMessage\n\n\tmetaMutex.Lock()\n\tcached, ok := metaCache[message.GetID()]\n\tmetaMutex.Unlock()\n\n\tif ok && len(d) > 0 {\n\t\tmeta, err = cached, nil\n\t} else {\n\t\tfor _, dialect := range d {\n\t\t\tmeta, err = dialect.GetMeta(message.GetID())\n\n\t\t\tif err != nil && err != ErrUnknownMessage {\n\t\t\t\treturn\n\t\t\t}\n\n\t\t\tif err == nil {\n\t\t\t\tmetaMutex.Lock()\n\t\t\t\tmetaCache[message.GetID()] = meta\n\t\t\t\tmetaMutex.Unlock()\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\t}\n'), ('dialect.go', '// Dialects represents', 'var metaMutex sync.Mutex\n\n// metaCache remembers the metadata of the messages that were sent\nvar metaCache = make(map[uint32]MessageMeta)\n\n// Dialects represents'), ('dialect.go', 'import "encoding/binary"\n', 'import (\n\t"encoding/binary"\n\t"sync"\n)\n')]
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

type other struct{ common.Dialect }

func (o other) GetMeta(id uint32) (mavlink2.MessageMeta, error) {
	m, err := o.Dialect.GetMeta(id)
	m.CRCExtra ^= 0x55
	return m, err
}

func main() {
	m := &common.Heartbeat{Type: 1, MavlinkVersion: 3}
	for i := 0; i < 2; i++ {
		for _, d := range []mavlink2.Dialects{{common.Dialect{}}, {other{}}} {
			f, err := d.GetFrame(2, 1, 1, 1, m)
			if err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
			if err := d.Validate(f); err != nil {
				fmt.Println("the frame is not valid for the dialects it was built with:", err)
				os.Exit(1)
			}
		}
	}
}
'''
