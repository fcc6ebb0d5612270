ID="c07-log-grows"; PROPERTY="C07"
NEEDS='invalid frames of more than 1024 kinds'
BREAKS='every kind of invalid frame is remembered, without a limit'
EDITS=[('stream.go', '\t\t\t\t\t\tmetaData.senderSystemID, metaData.senderComponentID)\n\t\t\t\t\ts.invalidLogged[metaData] = true\n\t\t\t\t}\n', '\t\t\t\t\t\tmetaData.senderSystemID, metaData.senderComponentID)\n\t\t\t\t}\n\t\t\t\ts.invalidLogged[metaData] = true\n')]
DEMO=r'''
package main

import (
	"context"
	"fmt"
	"os"
	"reflect"
	"io"

	"github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
)

type transport struct{ n int }

func (c *transport) Read(p []byte) (int, error) {
	if c.n >= 40000 || len(p) < 12 {
		return 0, io.EOF
	}
	i := c.n
	c.n++
	copy(p, []byte{0xfd, 0, 0, 0, 0, byte(i), byte(i >> 8), 1, 0xff, 0x7f, 0, 0})
	return 12, nil
}
func (c *transport) Write(p []byte) (int, error) { return len(p), nil }
func (c *transport) Close() error                { return nil }

func main() {
	s := mavlink2.NewFrameStream(&transport{}, make(chan mavlink2.Frame), mavlink2.Dialects{common.Dialect{}}, false)
	out := os.Stdout
	os.Stdout, _ = os.Open(os.DevNull)
	s.ReadContext(context.Background())
	os.Stdout = out
	v := reflect.ValueOf(s).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Kind() == reflect.Map && v.Field(i).Len() > 4096 {
			fmt.Printf("%d entries after 40000 invalid frames\n", v.Field(i).Len())
			os.Exit(1)
		}
	}
}
'''
