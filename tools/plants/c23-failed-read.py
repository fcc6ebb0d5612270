ID="c23-failed-read"; PROPERTY="C23"
NEEDS='a failing read that names an address, before the first datagram'
BREAKS='a failed read selects its address as the peer'
EDITS=[('util/udpreadwritecloser.go', '\tif err != nil {\n\t\treturn count, err\n\t}\n\n\tstream.Lock()\n\tdefer stream.Unlock()\n\tif stream.lastAddr == nil {\n\t\tif localAddr, ok := addr.(*net.UDPAddr); ok {\n\t\t\tstream.lastAddr = localAddr\n\t\t}\n\t}\n', '\tstream.Lock()\n\tdefer stream.Unlock()\n\tif stream.lastAddr == nil && (err == nil || count == 0) {\n\t\tif localAddr, ok := addr.(*net.UDPAddr); ok {\n\t\t\tstream.lastAddr = localAddr\n\t\t}\n\t}\n')]
DEMO=r'''
package main

import (
	"fmt"
	"net"
	"os"
	"reflect"
	"time"
	"unsafe"

	"errors"
	"github.com/botlink/go-mavlink2/util"
)

type conn struct{ sent net.Addr }

func (c *conn) ReadFrom(p []byte) (int, net.Addr, error) {
	return 0, &net.UDPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 1}, errors.New("connection refused")
}
func (c *conn) WriteTo(p []byte, a net.Addr) (int, error) {
	c.sent = a
	return len(p), nil
}
func (c *conn) Close() error                     { return nil }
func (c *conn) LocalAddr() net.Addr              { return nil }
func (c *conn) SetDeadline(time.Time) error      { return nil }
func (c *conn) SetReadDeadline(time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(time.Time) error { return nil }

func main() {
	s := &util.UDPReadWriteCloser{}
	c := &conn{}
	// put the recording connection in the only field of that type
	v := reflect.ValueOf(s).Elem()
	t := reflect.TypeOf((*net.PacketConn)(nil)).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == t {
			*(*net.PacketConn)(unsafe.Pointer(v.Field(i).UnsafeAddr())) = c
		}
	}
	s.Read(make([]byte, 10))
	if _, err := s.Write([]byte{1}); err != util.ErrNoAddress || c.sent != nil {
		fmt.Println("sent to", c.sent, err)
		os.Exit(1)
	}
}
'''
