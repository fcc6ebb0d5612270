ID="c03-unrolled-tail"; PROPERTY="C03"
NEEDS="a write whose length leaves remainder 3 modulo 4"
BREAKS="the unrolled CRC loop drops two of the three tail bytes (a missing fallthrough)"
EDITS=[("x25.go","""	accum := hash.value

	for _, b := range input {
		tmp := b ^ byte(accum&0xff)
		tmp = (tmp ^ (tmp << 4)) & 0xff
		accum = (accum >> 8) ^ (uint16(tmp) << 8) ^ (uint16(tmp) << 3) ^ (uint16(tmp) >> 4)
	}

	hash.value = accum
""","""	accum := hash.value

	step := func(b byte) {
		tmp := b ^ byte(accum&0xff)
		tmp = (tmp ^ (tmp << 4)) & 0xff
		accum = (accum >> 8) ^ (uint16(tmp) << 8) ^ (uint16(tmp) << 3) ^ (uint16(tmp) >> 4)
	}

	i := 0
	for ; i+4 <= len(input); i += 4 {
		step(input[i])
		step(input[i+1])
		step(input[i+2])
		step(input[i+3])
	}

	switch len(input) - i {
	case 3:
		step(input[i])
		i++
	case 2:
		step(input[i])
		i++
		fallthrough
	case 1:
		step(input[i])
	}

	hash.value = accum
""")]
DEMO=r'''
package main

import (
	"fmt"
	"os"

	"github.com/botlink/go-mavlink2"
)

func ref(b []byte) uint16 {
	crc := uint16(0xffff)
	for _, x := range b {
		crc ^= uint16(x)
		for i := 0; i < 8; i++ {
			if crc&1 != 0 {
				crc = crc>>1 ^ 0x8408
			} else {
				crc >>= 1
			}
		}
	}
	return crc
}

func main() {
	data := make([]byte, 300)
	for i := range data {
		data[i] = byte(i*7 + 3)
	}
	for n := 0; n <= len(data); n++ {
		for _, cut := range []int{0, n / 3, n} {
			h := &mavlink2.X25CRC{}
			h.Reset()
			h.Write(data[:cut])
			h.Write(data[cut:n])
			s := h.Sum(nil)
			if got := uint16(s[0]) | uint16(s[1])<<8; got != ref(data[:n]) {
				fmt.Printf("crc of %d bytes cut at %d is 0x%x, not 0x%x\n", n, cut, got, ref(data[:n]))
				os.Exit(1)
			}
		}
	}
}
'''
