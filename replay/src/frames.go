package main

import (
	"bytes"
	"fmt"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/util"
)

func u16(b []byte) uint16 { return uint16(b[0]) | uint16(b[1])<<8 }

// frameLen: the length a frame's header announces; 0 if there is no start byte
func frameLen(b []byte) int {
	switch b[0] {
	case 0xfe:
		return int(b[1]) + 8
	case 0xfd:
		if b[2]&1 != 0 {
			return int(b[1]) + 25
		}
		return int(b[1]) + 12
	}
	return 0
}
func hdrLen(b []byte) int {
	if b[0] == 0xfe {
		return 6
	}
	return 10
}
func msgID(b []byte) uint32 {
	if b[0] == 0xfe {
		return uint32(b[5])
	}
	return uint32(b[7]) | uint32(b[8])<<8 | uint32(b[9])<<16
}
func payloadOf(b []byte) []byte { return b[hdrLen(b) : hdrLen(b)+int(b[1])] }

// crc16: CRC-16/MCRF4XX, bit by bit
func crc16(v uint16, data ...byte) uint16 {
	for _, d := range data {
		v ^= uint16(d)
		for i := 0; i < 8; i++ {
			if v&1 != 0 {
				v = v>>1 ^ 0x8408
			} else {
				v >>= 1
			}
		}
	}
	return v
}

// buildFrame: the frame with the given header and payload, checksum for extra, and signature if flagged
func buildFrame(version int, incompat, compat, seq, sys, comp byte, id uint32, payload []byte, extra byte, sig []byte) []byte {
	var b []byte
	if version == 1 {
		b = []byte{0xfe, byte(len(payload)), seq, sys, comp, byte(id)}
	} else {
		b = []byte{0xfd, byte(len(payload)), incompat, compat, seq, sys, comp, byte(id), byte(id >> 8), byte(id >> 16)}
	}
	b = append(b, payload...)
	c := crc16(crc16(0xffff, b[1:]...), extra)
	b = append(b, byte(c), byte(c>>8))
	if version == 2 && incompat&1 != 0 {
		b = append(b, sig[:13]...)
	}
	return b
}

func (r *R) frame() []byte {
	v := 1 + r.Intn(2)
	if r.one(3) {
		// anything, cut to the announced length
		b := r.bytes(300)
		b[0] = []byte{0xfe, 0xfd}[v-1]
		return b[:frameLen(b)]
	}
	inc := byte(0)
	switch r.Intn(3) {
	case 0:
		inc = 1
	case 1:
		inc = r.byte()
	}
	return buildFrame(v, inc, r.byte(), r.byte(), r.byte(), r.byte(), uint32(r.num(24)), r.bytes(r.upto(255)), r.byte(), r.bytes(13))
}

func asFrame(b []byte) mavlink2.Frame {
	if b[0] == 0xfe {
		return mavlink2.FrameV1(b)
	}
	return mavlink2.FrameV2(b)
}

func isComplete(b []byte) bool {
	return len(b) >= 3 && frameLen(b) > 0 && len(b) == frameLen(b)
}

func accessors(c Case) string {
	orig := []byte(c.B[0])
	if !isComplete(orig) {
		return ""
	}
	b := append([]byte{}, orig...)
	h := hdrLen(b)
	n := int(b[1])
	f := asFrame(b)
	diff := func(name string, got, want interface{}) string {
		return fmt.Sprintf("%s() of frame %x is %v, want %v", name, orig, got, want)
	}
	if c.Prop == "C01" {
		ver, seq, sys := 2, 4, 5
		if b[0] == 0xfe {
			ver, seq, sys = 1, 2, 3
		}
		if g := f.GetVersion(); g != ver {
			return diff("GetVersion", g, ver)
		}
		if g := f.GetMessageLength(); g != uint(n) {
			return diff("GetMessageLength", g, n)
		}
		if g := f.GetMessageSequence(); g != uint(orig[seq]) {
			return diff("GetMessageSequence", g, orig[seq])
		}
		if g := f.GetSenderSystemID(); g != orig[sys] {
			return diff("GetSenderSystemID", g, orig[sys])
		}
		if g := f.GetSenderComponentID(); g != orig[sys+1] {
			return diff("GetSenderComponentID", g, orig[sys+1])
		}
		if g := f.GetMessageID(); g != msgID(orig) {
			return diff("GetMessageID", g, msgID(orig))
		}
		if g := f.GetMessageBytes(); !bytes.Equal(g, payloadOf(orig)) {
			return diff("GetMessageBytes", g, payloadOf(orig))
		}
		if g, w := f.GetChecksum(), u16(orig[h+n:]); g != w {
			return diff("GetChecksum", g, w)
		}
		if g := f.GetChecksumInput(); !bytes.Equal(g, orig[1:h+n]) {
			return diff("GetChecksumInput", g, orig[1:h+n])
		}
		if g := f.Bytes(); !bytes.Equal(g, orig) {
			return diff("Bytes", g, orig)
		}
		if v2, ok := f.(mavlink2.FrameV2); ok {
			if g := v2.GetIncompatibilityFlags(); g != orig[2] {
				return diff("GetIncompatibilityFlags", g, orig[2])
			}
			if g := v2.GetCompatibilityFlags(); g != orig[3] {
				return diff("GetCompatibilityFlags", g, orig[3])
			}
		}
	}
	if v2, ok := f.(mavlink2.FrameV2); ok && (c.Prop == "C24" || c.Prop == "C07") {
		var want []byte
		if orig[2]&1 != 0 {
			want = orig[h+n+2:]
		}
		if g := v2.GetSignature(); !bytes.Equal(g, want) || (g == nil) != (want == nil) {
			return diff("GetSignature", g, want)
		}
	}
	if c.Prop == "C24" || c.Prop == "C07" {
		if s, ok := f.(fmt.Stringer); ok {
			s.String()
		}
	}
	if !bytes.Equal(b, orig) {
		return fmt.Sprintf("reading its fields changed the frame %x to %x", orig, b)
	}
	return ""
}

func fromBytes(c Case) string {
	raw := append([]byte{}, c.B[0]...)
	orig := append([]byte{}, raw...)
	n, cp := int(uint16(c.N[0])), c.N[1] != 0
	f, err := mavlink2.FrameFromBytes(raw, uint16(n), cp)
	call := fmt.Sprintf("FrameFromBytes(%x, %d, %v)", orig, n, cp)
	var want error
	switch {
	case len(raw) == 0 || cp && n > len(raw):
		want = mavlink2.ErrFrameTooShort
	case raw[0] != 0xfe && raw[0] != 0xfd:
		want = mavlink2.ErrUnknownStartByte
	}
	if want == mavlink2.ErrFrameTooShort && len(raw) > 0 && raw[0] != 0xfe && raw[0] != 0xfd && err == mavlink2.ErrUnknownStartByte {
		return ""
	}
	if err != want {
		return fmt.Sprintf("%s: error %v, want %v", call, err, want)
	}
	if !bytes.Equal(raw, orig) {
		return call + " changed its input"
	}
	if err != nil {
		return ""
	}
	_, v1 := f.(mavlink2.FrameV1)
	_, v2 := f.(mavlink2.FrameV2)
	if f == nil || v1 != (orig[0] == 0xfe) || v2 != (orig[0] == 0xfd) {
		return fmt.Sprintf("%s: a frame of type %T", call, f)
	}
	if !cp {
		if !bytes.Equal(f.Bytes(), orig) || &f.Bytes()[0] != &raw[0] {
			return call + " is not the input itself"
		}
		return ""
	}
	if !bytes.Equal(f.Bytes(), orig[:n]) {
		return fmt.Sprintf("%s holds %x", call, f.Bytes())
	}
	for i := range raw {
		raw[i] ^= 0xff
	}
	if !bytes.Equal(f.Bytes(), orig[:n]) {
		return call + " shares its storage with the input"
	}
	return ""
}

func crcCase(c Case) string {
	h := new(mavlink2.X25CRC)
	if len(c.N) > 0 && c.N[0] != 0 {
		h.Write([]byte{1, 2, 3})
	}
	h.Reset()
	want := uint16(0xffff)
	for _, p := range c.B[1:] {
		in := append([]byte{}, p...)
		n, err := h.Write(in)
		if n != len(p) || err != nil {
			return fmt.Sprintf("writing %x reports %d, %v", p, n, err)
		}
		if !bytes.Equal(in, p) {
			return "writing changed its input"
		}
		want = crc16(want, p...)
	}
	prefix := make([]byte, len(c.B[0]), len(c.B[0])+int(c.N[1]))
	copy(prefix, c.B[0])
	for i := 0; i < 2; i++ {
		got := h.Sum(prefix)
		w := append(append([]byte{}, c.B[0]...), byte(want), byte(want>>8))
		if !bytes.Equal(got, w) {
			return fmt.Sprintf("checksum of the pieces %x after prefix %x is %x, want %x", c.B[1:], c.B[0], got, w)
		}
		if !bytes.Equal(prefix, c.B[0]) {
			return "reading the sum changed the prefix"
		}
	}
	return ""
}

func trunc(c Case) string {
	in := append([]byte{}, c.B[0]...)
	out := util.TruncateV2(in)
	n := len(c.B[0])
	for n > 1 && c.B[0][n-1] == 0 {
		n--
	}
	if !bytes.Equal(out, c.B[0][:n]) || !bytes.Equal(in, c.B[0]) {
		return fmt.Sprintf("TruncateV2(%x) = %x, want %x", c.B[0], out, c.B[0][:n])
	}
	return ""
}

func cstr(c Case) string {
	in := append([]byte{}, c.B[0]...)
	n := bytes.IndexByte(in, 0)
	if n < 0 {
		n = len(in)
	}
	if g := util.CStrLen(in); g != n || !bytes.Equal(in, c.B[0]) {
		return fmt.Sprintf("CStrLen(%x) = %d, want %d", c.B[0], g, n)
	}
	return ""
}

func init() {
	reg("C01 C24 C07", "accessors", func(r *R, p string) Case { return Case{B: []HexBytes{r.frame()}} }, accessors)
	reg("C02", "frombytes", func(r *R, p string) Case {
		b := r.bytes(r.upto(300))
		if r.one(3) {
			b = r.bytes(r.upto(5))
		}
		if len(b) > 0 && !r.one(4) {
			b[0] = []byte{0xfe, 0xfd}[r.Intn(2)]
		}
		n := int64(r.upto(len(b) + 1))
		if r.one(4) {
			n = r.num(16)
		}
		return Case{B: []HexBytes{b}, N: []int64{n, int64(r.Intn(2))}}
	}, fromBytes)
	reg("C03", "crc", func(r *R, p string) Case {
		c := Case{B: []HexBytes{r.bytes(r.upto(5))}, N: []int64{int64(r.Intn(2)), int64(r.Intn(4))}}
		for k := r.Intn(5); k >= 0; k-- {
			n := r.upto(70)
			if r.one(10) {
				n = r.upto(5000)
			}
			c.B = append(c.B, r.bytes(n))
		}
		return c
	}, crcCase)
	reg("C12", "trunc", func(r *R, p string) Case { return Case{B: []HexBytes{r.bytes(r.upto(300))}} }, trunc)
	reg("C12", "cstr", func(r *R, p string) Case { return Case{B: []HexBytes{r.bytes(r.upto(300))}} }, cstr)
}
