ID="c23-same-host"; PROPERTY="C23"
NEEDS="two senders on the same host: a datagram from a second port of the first peer's address"
BREAKS="a later datagram from the same host but another port takes over as the peer"
EDITS=[("util/udpreadwritecloser.go","""	if stream.lastAddr == nil {
		if localAddr, ok := addr.(*net.UDPAddr); ok {
			stream.lastAddr = localAddr
		}
	}
""","""	if localAddr, ok := addr.(*net.UDPAddr); ok {
		// keep talking to the first host, on the port it used last
		if stream.lastAddr == nil || stream.lastAddr.IP.Equal(localAddr.IP) {
			stream.lastAddr = localAddr
		}
	}
""")]
DEMO=r'''
package main

import (
	"fmt"
	"net"
	"os"
	"time"

	"github.com/botlink/go-mavlink2/util"
)

func fail(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

func main() {
	var u *util.UDPReadWriteCloser
	var err error
	port := 0
	for port = 21000 + os.Getpid()%9000; port < 40000; port++ {
		if u, err = util.NewUDPReadWriteCloser("127.0.0.1", port); err == nil {
			break
		}
	}
	to := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}
	a, err := net.DialUDP("udp", nil, to)
	if err != nil {
		fail(err)
	}
	b, err := net.DialUDP("udp", nil, to)
	if err != nil {
		fail(err)
	}
	p := make([]byte, 100)
	for _, c := range []*net.UDPConn{a, b} {
		c.Write([]byte("hello"))
		if _, err := u.Read(p); err != nil {
			fail(err)
		}
	}
	if _, err := u.Write([]byte("answer")); err != nil {
		fail(err)
	}
	a.SetReadDeadline(time.Now().Add(3 * time.Second))
	n, err := a.Read(p)
	if err != nil || string(p[:n]) != "answer" {
		fail("the first peer did not get the answer:", err)
	}
}
'''
