ID="c23-silent-peer"; PROPERTY="C23"
NEEDS="a first datagram without content, then a second sender"
BREAKS="the sender of an empty first datagram is not remembered"
EDITS=[("util/udpreadwritecloser.go","	if stream.lastAddr == nil {\n		if localAddr","	if stream.lastAddr == nil && count > 0 {\n		if localAddr")]
DEMO=r'''
package main

import (
	"fmt"
	"net"
	"os"

	"github.com/botlink/go-mavlink2/util"
)

func fail(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

func main() {
	var u *util.UDPReadWriteCloser
	var err error
	port := 0
	for port = 21000 + os.Getpid()%9000; port < 40000; port++ {
		if u, err = util.NewUDPReadWriteCloser("127.0.0.1", port); err == nil {
			break
		}
	}
	a, err := net.DialUDP("udp", nil, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port})
	if err != nil {
		fail(err)
	}
	a.Write(nil)
	if _, err := u.Read(make([]byte, 100)); err != nil {
		fail(err)
	}
	if _, err := u.Write([]byte("answer")); err != nil {
		fail(err)
	}
}
'''
