package main

import (
	"bytes"
	"errors"
	"fmt"

	mavlink2 "github.com/botlink/go-mavlink2"
)

// FakeDial: a dialect that knows the rows given and nothing else
type FakeDial struct {
	Rows []Row `json:"rows"`
}
type Row struct {
	ID    uint32 `json:"id"`
	Extra byte   `json:"extra"`
	Min   uint   `json:"min"`
	Max   uint   `json:"max"`
	Err   bool   `json:"err,omitempty"` // any other error than "unknown message"
}

var errFake = errors.New("dialect is broken")
var errEnc = errors.New("cannot encode")

type fakeMsg struct {
	id   uint32
	enc  []byte
	fail int64  // 1: the encoder fails, 2: it fails after some bytes
	buf  []byte // the encoder's own buffer, used again each time
	from int
}

func (m *fakeMsg) GetVersion() int           { return 2 }
func (m *fakeMsg) GetDialect() string        { return "fake" }
func (m *fakeMsg) GetMessageName() string    { return "fake" }
func (m *fakeMsg) GetID() uint32             { return m.id }
func (m *fakeMsg) Read(mavlink2.Frame) error { return nil }
func (m *fakeMsg) Write(int) ([]byte, error) {
	switch m.fail {
	case 1:
		return nil, errEnc
	case 2:
		return append([]byte{}, m.enc...), errEnc
	}
	if m.buf != nil {
		return append(m.buf[:0], m.enc...), nil
	}
	return append([]byte{}, m.enc...), nil
}

type fakeDialect struct {
	FakeDial
	no int
}

func (d fakeDialect) row(id uint32) *Row {
	for i := range d.Rows {
		if d.Rows[i].ID == id {
			return &d.Rows[i]
		}
	}
	return nil
}
func (d fakeDialect) GetMeta(id uint32) (mavlink2.MessageMeta, error) {
	r := d.row(id)
	switch {
	case r == nil:
		return mavlink2.MessageMeta{CRCExtra: 0x55, MinimumLength: 3, MaximumLength: 40}, mavlink2.ErrUnknownMessage
	case r.Err:
		return mavlink2.MessageMeta{CRCExtra: r.Extra, MaximumLength: 255}, errFake
	}
	return mavlink2.MessageMeta{CRCExtra: r.Extra, MinimumLength: r.Min, MaximumLength: r.Max}, nil
}
func (d fakeDialect) GetMessage(f mavlink2.Frame) (mavlink2.Message, error) {
	r := d.row(f.GetMessageID())
	switch {
	case r == nil:
		return &fakeMsg{from: 99}, mavlink2.ErrUnknownMessage
	case r.Err:
		return &fakeMsg{id: r.ID, from: d.no}, errFake
	}
	return &fakeMsg{id: r.ID, from: d.no}, nil
}

func dialectsOf(c Case) (d mavlink2.Dialects) {
	for i, f := range c.D {
		d = append(d, fakeDialect{FakeDial: f, no: i})
	}
	return
}

// firstOf: the row of the first dialect that knows id
func firstOf(ds []FakeDial, id uint32) (*Row, int) {
	for i, d := range ds {
		if r := (fakeDialect{FakeDial: d}).row(id); r != nil {
			return r, i
		}
	}
	return nil, -1
}

func (r *R) dialects(id uint32, extra byte, n int) (ds []FakeDial) {
	for k := r.Intn(4); k > 0; k-- {
		var d FakeDial
		for j := r.Intn(3); j > 0; j-- {
			x := uint32(r.num(24))
			if x != id {
				d.Rows = append(d.Rows, Row{ID: x, Extra: r.byte(), Max: uint(r.upto(255))})
			}
		}
		if !r.one(3) {
			e := extra
			if r.one(6) {
				e = r.byte()
			}
			row := Row{ID: id, Extra: e, Min: uint(r.upto(n)), Max: uint(n + r.upto(255-n))}
			switch r.Intn(9) {
			case 0:
				row.Max = uint(r.upto(n))
			case 1:
				row.Min = uint(n + r.upto(255-n))
				row.Max = uint(255)
			case 2:
				row.Err = r.one(2)
			}
			if row.Min > row.Max {
				row.Min = row.Max
			}
			d.Rows = append(d.Rows, row)
		}
		ds = append(ds, d)
	}
	return
}

// expectValid: what validation says about the complete frame b
func expectValid(ds []FakeDial, b []byte) error {
	row, _ := firstOf(ds, msgID(b))
	n := uint(b[1])
	switch {
	case row == nil:
		return mavlink2.ErrUnknownMessage
	case row.Err:
		return errFake
	case b[0] == 0xfe && n < row.Min:
		return mavlink2.ErrMessageTooShort
	case n > row.Max:
		return mavlink2.ErrMessageTooLong
	case crc16(crc16(0xffff, b[1:hdrLen(b)+int(n)]...), row.Extra) != u16(b[hdrLen(b)+int(n):]):
		return mavlink2.ErrInvalidChecksum
	}
	return nil
}

func validate(c Case) string {
	b := []byte(c.B[0])
	if !isComplete(b) {
		return ""
	}
	// bytes behind the frame that belong to someone else
	back := append(append([]byte{}, b...), c.B[1]...)
	want := expectValid(c.D, b)
	got := dialectsOf(c).Validate(asFrame(back[:len(b):len(back)]))
	if got != want {
		return fmt.Sprintf("validating %x says %v, want %v", b, got, want)
	}
	if !bytes.Equal(back[:len(b)], b) || !bytes.Equal(back[len(b):], c.B[1]) {
		return fmt.Sprintf("validating changed %x to %x", append(append([]byte{}, b...), c.B[1]...), back)
	}
	// frames as the stream validates them: the header announces less than the buffer holds
	got = dialectsOf(c).Validate(asFrame(back))
	if got != want || !bytes.Equal(back[:len(b)], b) || !bytes.Equal(back[len(b):], c.B[1]) {
		return fmt.Sprintf("validating %x in a longer buffer says %v, want %v", b, got, want)
	}
	return ""
}

func getFrame(c Case) string {
	version := int(c.N[0])
	sys, comp, seq := byte(c.N[1]), byte(c.N[2]), byte(c.N[3])
	m := &fakeMsg{id: uint32(c.N[4]), enc: c.B[0], fail: c.N[5]}
	if len(c.N) > 6 && c.N[6] != 0 {
		m.buf = make([]byte, 0, len(m.enc)+int(c.N[6]))
	}
	call := fmt.Sprintf("building a version %d frame for message %d with encoding %x", version, m.id, m.enc)
	f, err := dialectsOf(c).GetFrame(version, sys, comp, seq, m)
	row, _ := firstOf(c.D, m.id)
	var want []error
	switch {
	case row == nil:
		want = []error{mavlink2.ErrUnknownMessage}
	case row.Err:
		want = []error{errFake}
	case version != 1 && version != 2:
		want = []error{mavlink2.ErrUnsupportedVersion}
	case m.fail != 0:
		want = []error{errEnc}
	default:
		if len(m.enc) > 255 {
			want = append(want, mavlink2.ErrMessageTooLong)
		}
		if version == 1 && m.id > 255 {
			want = append(want, mavlink2.ErrEncodeV2MessageV1Frame)
		}
	}
	if want != nil {
		if c.Prop == "C08" {
			return ""
		}
		if f != nil {
			return call + " fails but returns a frame too"
		}
		for _, w := range want {
			if err == w {
				return ""
			}
		}
		return fmt.Sprintf("%s: error %v, want %v", call, err, want)
	}
	if err != nil || f == nil {
		return fmt.Sprintf("%s fails: %v", call, err)
	}
	if c.Prop == "C09" {
		if !isComplete(f.Bytes()) {
			return fmt.Sprintf("%s emits the malformed frame %x", call, f.Bytes())
		}
		return ""
	}
	exp := buildFrame(version, 0, 0, seq, sys, comp, m.id, m.enc, row.Extra, nil)
	if !bytes.Equal(f.Bytes(), exp) {
		return fmt.Sprintf("%s (system %d, component %d, sequence %d) gives %x, want %x", call, sys, comp, seq, f.Bytes(), exp)
	}
	if f.GetVersion() != version {
		return call + " gives a frame of another version"
	}
	if m.buf != nil {
		// the encoder goes on using its buffer
		dialectsOf(c).GetFrame(version, ^sys, ^comp, ^seq, m)
		b := m.buf[:cap(m.buf)]
		for i := range b {
			b[i] = 0xa5
		}
		if !bytes.Equal(f.Bytes(), exp) {
			return fmt.Sprintf("%s gives a frame that changes to %x when the encoder uses its buffer again, it was %x", call, f.Bytes(), exp)
		}
	}
	if c.Prop == "C08" && uint(len(m.enc)) <= row.Max && (version == 2 || uint(len(m.enc)) >= row.Min) {
		if err := dialectsOf(c).Validate(f); err != nil {
			return fmt.Sprintf("%s: the frame %x is refused: %v", call, f.Bytes(), err)
		}
	}
	return ""
}

func getMessage(c Case) string {
	b := append([]byte{}, c.B[0]...)
	if !isComplete(b) {
		return ""
	}
	m, err := dialectsOf(c).GetMessage(asFrame(b))
	row, no := firstOf(c.D, msgID(b))
	call := fmt.Sprintf("decoding %x", b)
	if row != nil {
		fm, _ := m.(*fakeMsg)
		if row.Err {
			if err != errFake {
				return fmt.Sprintf("%s: error %v, want the dialect's own error", call, err)
			}
			return ""
		}
		if err != nil || fm == nil || fm.from != no {
			return fmt.Sprintf("%s: message %v, error %v; dialect %d knows the id", call, m, err, no)
		}
		return ""
	}
	if err != mavlink2.ErrUnknownMessage {
		return fmt.Sprintf("%s: error %v, want %v", call, err, mavlink2.ErrUnknownMessage)
	}
	u, ok := m.(*mavlink2.UnknownMessage)
	if !ok {
		return fmt.Sprintf("%s gives a %T for an unknown message", call, m)
	}
	ver := 2
	if b[0] == 0xfe {
		ver = 1
	}
	want := append([]byte{}, payloadOf(b)...)
	for i := range b {
		b[i] ^= 0xff
	}
	if u.GetID() != msgID(c.B[0]) || u.GetVersion() != ver || u.ID != msgID(c.B[0]) || u.Version != ver {
		return fmt.Sprintf("%s: the placeholder holds id %d, version %d", call, u.ID, u.Version)
	}
	if !bytes.Equal(u.Raw, want) {
		return fmt.Sprintf("%s: the placeholder holds payload %x after the frame's memory was reused", call, u.Raw)
	}
	for v := 1; v <= 2; v++ {
		out, err := u.Write(v)
		if err != nil || !bytes.Equal(out, want) {
			return fmt.Sprintf("%s: encoding the placeholder for version %d gives %x, %v", call, v, out, err)
		}
	}
	return ""
}

func init() {
	fr := func(r *R, p string) Case {
		v := 1 + r.Intn(2)
		id := uint32(r.num(24))
		if v == 1 {
			id &= 0xff
		}
		inc := byte(0)
		if r.one(3) {
			inc = r.byte()
		}
		extra := r.byte()
		pl := r.bytes(r.upto(255))
		b := buildFrame(v, inc, r.byte(), r.byte(), r.byte(), r.byte(), id, pl, extra, r.bytes(13))
		if r.one(6) {
			b[hdrLen(b)+len(pl)+r.Intn(2)] ^= 1 << uint(r.Intn(8))
		}
		ds := r.dialects(id, extra, len(pl))
		return Case{B: []HexBytes{b, r.bytes(r.upto(20))}, D: ds}
	}
	reg("C04 C17", "validate", fr, validate)
	reg("C16 C17", "getmessage", fr, getMessage)
	reg("C08 C09 C17", "getframe", func(r *R, p string) Case {
		v := 1 + r.Intn(2)
		if r.one(8) {
			v = int(r.num(8)) - 5
		}
		id := uint32(r.num(24))
		if v == 1 && !r.one(5) {
			id &= 0xff
		}
		n := r.upto(255)
		enc := r.bytes(n)
		if r.one(8) {
			enc = r.bytes(250 + r.upto(20))
		}
		k := len(enc)
		if k > 255 {
			k = 255
		}
		ds := r.dialects(id, r.byte(), k)
		fl := int64(0)
		if r.one(10) {
			fl = int64(1 + r.Intn(2))
		}
		return Case{B: []HexBytes{enc}, N: []int64{int64(v), int64(r.byte()), int64(r.byte()), int64(r.byte()), int64(id), fl, int64(r.Intn(3) * r.upto(40))}, D: ds}
	}, getFrame)
}
