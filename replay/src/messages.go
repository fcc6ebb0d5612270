package main

import (
	"bufio"
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	mavlink2 "github.com/botlink/go-mavlink2"
)

// The wire definitions, from /verif/contracts/*.layout
type wireField struct {
	name string
	kind string // uint8, float32, ...
	size int
	n    int // array length; 0 for a scalar
	off  int
	ext  bool
	text bool
}
type wireMsg struct {
	pkg, name string
	id        uint32
	extra     byte
	min, max  int
	ext       bool
	special   bool
	fields    []wireField
}
type wireDialect struct {
	pkg, name string
	rows      map[uint32]wireRow
}
type wireRow struct {
	extra    byte
	min, max uint
	typ      string
}

var wire = map[string]*wireMsg{}
var wireNames []string
var wireDialects = map[string]*wireDialect{}

func attr(fs []string, k string) string {
	for _, f := range fs {
		if strings.HasPrefix(f, k+"=") {
			return f[len(k)+1:]
		}
	}
	return ""
}
func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

func loadLayouts(dir string) {
	files, _ := filepath.Glob(filepath.Join(dir, "*.layout"))
	for _, fn := range files {
		f, err := os.Open(fn)
		if err != nil {
			fail(err)
		}
		sc := bufio.NewScanner(f)
		var m *wireMsg
		var d *wireDialect
		for sc.Scan() {
			l := sc.Text()
			if i := strings.Index(l, "#"); i >= 0 {
				l = l[:i]
			}
			fs := strings.Fields(l)
			if len(fs) == 0 {
				continue
			}
			switch fs[0] {
			case "dialect":
				d = &wireDialect{pkg: fs[1], name: attr(fs, "name"), rows: map[uint32]wireRow{}}
				wireDialects[d.pkg] = d
			case "row":
				d.rows[uint32(atoi(attr(fs, "id")))] = wireRow{byte(atoi(attr(fs, "extra"))), uint(atoi(attr(fs, "min"))), uint(atoi(attr(fs, "max"))), attr(fs, "type")}
			case "message":
				pkg, name, _ := strings.Cut(fs[1], ".")
				m = &wireMsg{pkg: pkg, name: name, id: uint32(atoi(attr(fs, "id"))), extra: byte(atoi(attr(fs, "extra"))), min: atoi(attr(fs, "min")), max: atoi(attr(fs, "max")), ext: attr(fs, "ext") == "true"}
				for _, x := range fs {
					m.special = m.special || x == "special"
				}
				wire[fs[1]] = m
				if makers[fs[1]] != nil {
					wireNames = append(wireNames, fs[1])
				}
			case "field":
				w := wireField{name: fs[1], off: atoi(fs[3])}
				t := fs[2]
				if t[0] == '[' {
					i := strings.Index(t, "]")
					w.n = atoi(t[1:i])
					t = t[i+1:]
				}
				w.kind = t
				bits := strings.TrimLeft(t, "uintfloa")
				w.size = atoi(bits) / 8
				for _, x := range fs[4:] {
					w.ext = w.ext || x == "ext"
					w.text = w.text || x == "text"
				}
				m.fields = append(m.fields, w)
			}
		}
		f.Close()
	}
	sort.Strings(wireNames)
}

func (w wireField) count() int {
	if w.n == 0 {
		return 1
	}
	return w.n
}

func le(b []byte, n int) (v uint64) {
	for i := 0; i < n; i++ {
		if i < len(b) {
			v |= uint64(b[i]) << (8 * uint(i))
		}
	}
	return
}

// bits of element i of the field, as it is in memory
func elemBits(v reflect.Value, w wireField) uint64 {
	switch w.kind[0] {
	case 'u':
		return v.Uint()
	case 'i':
		return uint64(v.Int()) & (math.MaxUint64 >> (64 - 8*uint(w.size)))
	}
	if w.size == 4 {
		return uint64(math.Float32bits(float32(v.Float())))
	}
	return math.Float64bits(v.Float())
}
func setBits(v reflect.Value, w wireField, b uint64) {
	switch w.kind[0] {
	case 'u':
		v.SetUint(b & (math.MaxUint64 >> (64 - 8*uint(w.size))))
	case 'i':
		s := 64 - 8*uint(w.size)
		v.SetInt(int64(b<<s) >> s)
	default:
		if w.size == 4 {
			v.SetFloat(float64(math.Float32frombits(quietNaN(uint32(b)))))
		} else {
			v.SetFloat(math.Float64frombits(b))
		}
	}
}
func quietNaN(b uint32) uint32 {
	if b&0x7f800000 == 0x7f800000 && b&0x7fffff != 0 {
		b |= 0x400000
	}
	return b
}
func norm(w wireField, b uint64) uint64 {
	if w.kind == "float32" {
		return uint64(quietNaN(uint32(b)))
	}
	return b
}

// fieldOf: the struct field a wire field is held in
func fieldOf(m mavlink2.Message, w wireField) (reflect.Value, bool) {
	v := reflect.ValueOf(m).Elem().FieldByName(w.name)
	if !v.IsValid() {
		return v, false
	}
	return v, true
}

func elem(v reflect.Value, w wireField, i int) reflect.Value {
	if w.n == 0 {
		return v
	}
	return v.Index(i)
}

// fill sets the message's fields from wire bytes
func fill(m mavlink2.Message, def *wireMsg, b []byte) bool {
	for _, w := range def.fields {
		v, ok := fieldOf(m, w)
		if !ok {
			return false
		}
		for i := 0; i < w.count(); i++ {
			at := w.off + i*w.size
			x := uint64(0)
			if at < len(b) {
				x = le(b[at:], w.size)
			}
			setBits(elem(v, w, i), w, x)
		}
	}
	return true
}

// encodeRef: the full encoding of the message (base and extension fields)
func encodeRef(m mavlink2.Message, def *wireMsg) []byte {
	out := make([]byte, def.max)
	for _, w := range def.fields {
		v, _ := fieldOf(m, w)
		for i := 0; i < w.count(); i++ {
			b := elemBits(elem(v, w, i), w)
			for k := 0; k < w.size; k++ {
				out[w.off+i*w.size+k] = byte(b >> (8 * uint(k)))
			}
		}
	}
	return out
}

// differs: which field of m does not hold what the wire bytes (zero-extended) say
func differs(m mavlink2.Message, def *wireMsg, b []byte, baseOnly bool) string {
	for _, w := range def.fields {
		if baseOnly && w.ext {
			continue
		}
		v, _ := fieldOf(m, w)
		for i := 0; i < w.count(); i++ {
			at := w.off + i*w.size
			x := uint64(0)
			if at < len(b) {
				x = le(b[at:], w.size)
			}
			if g := elemBits(elem(v, w, i), w); norm(w, g) != norm(w, x) {
				return fmt.Sprintf("field %s[%d] is 0x%x, the payload holds 0x%x", w.name, i, g, x)
			}
		}
	}
	return ""
}

func flagOf(m mavlink2.Message) (reflect.Value, bool) {
	v := reflect.ValueOf(m).Elem().FieldByName("HasExtensionFieldValues")
	return v, v.IsValid() && v.Kind() == reflect.Bool
}

func payloadLength(m mavlink2.Message) reflect.Value {
	return reflect.ValueOf(m).Elem().FieldByName("PayloadLength")
}

// otherFrame: a frame of neither version
type otherFrame struct {
	mavlink2.FrameV2
	v int
}

func (o otherFrame) GetVersion() int { return o.v }

func trimZeros(b []byte) []byte {
	for len(b) > 1 && b[len(b)-1] == 0 {
		b = b[:len(b)-1]
	}
	return b
}

// encode: S[0] the type, B[0] wire bytes its fields are set from, N[0] version, N[1] the flag, N[2] the payload length
func encode(c Case) string {
	def := wire[c.S[0]]
	if def == nil || makers[c.S[0]] == nil {
		return ""
	}
	m := makers[c.S[0]]()
	if !fill(m, def, c.B[0]) {
		return ""
	}
	version := int(c.N[0])
	if f, ok := flagOf(m); ok {
		f.SetBool(c.N[1] != 0)
	}
	full := def.max
	if def.special {
		payloadLength(m).SetUint(uint64(c.N[2]))
		full = 5 + int(c.N[2])
	}
	before := reflect.ValueOf(m).Elem().Interface()
	ref := encodeRef(m, def)[:full]
	out, err := m.Write(version)
	what := fmt.Sprintf("encoding %s %+v for version %d", c.S[0], before, version)
	if !reflect.DeepEqual(fmt.Sprintf("%#v", before), fmt.Sprintf("%#v", reflect.ValueOf(m).Elem().Interface())) {
		return what + " changed the message"
	}
	p := c.Prop
	if version != 1 && version != 2 || version == 1 && def.id > 255 {
		if p != "C25" {
			return ""
		}
		want := mavlink2.ErrUnsupportedVersion
		if version == 1 {
			want = mavlink2.ErrEncodeV2MessageV1Frame
		}
		if err != want || out != nil {
			return fmt.Sprintf("%s: %x, %v; want error %v", what, out, err, want)
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("%s fails: %v", what, err)
	}
	if p == "C25" {
		return ""
	}
	if version == 1 {
		n := def.min
		if def.special {
			n = full
		}
		if p == "C13" || p == "C11" || p == "C19" {
			if p == "C13" {
				if len(out) > n {
					out = out[:n]
				}
				if !bytes.HasPrefix(ref, out) {
					return fmt.Sprintf("%s gives %x, want %x", what, out, ref[:n])
				}
				return ""
			}
			if !bytes.Equal(out, ref[:n]) {
				return fmt.Sprintf("%s gives %x, want %x", what, out, ref[:n])
			}
		}
		if p == "C11" && !def.special {
			b := buildFrame(1, 0, 0, 1, 1, 1, def.id, out, def.extra, nil)
			g := makers[c.S[0]]()
			fill(g, def, bytes.Repeat([]byte{0x5a}, def.max))
			if err := g.Read(mavlink2.FrameV1(b)); err != nil {
				return fmt.Sprintf("%s: decoding the result fails: %v", what, err)
			}
			if d := differs(g, def, ref[:def.min], false); d != "" {
				return what + ", decoding the result: " + d
			}
			if g.GetVersion() != 1 {
				return what + ": the decoded message reports version 2"
			}
		}
		return ""
	}
	if p == "C11" {
		return ""
	}
	want := trimZeros(ref)
	if p == "C10" || p == "C19" {
		b := buildFrame(2, 0, 0, 1, 1, 1, def.id, out, def.extra, nil)
		g := makers[c.S[0]]()
		if len(out) > 255 {
			return what + " is too long for a frame"
		}
		if err := g.Read(mavlink2.FrameV2(b)); err != nil {
			return fmt.Sprintf("%s: decoding the result fails: %v", what, err)
		}
		if d := differs(g, def, ref, false); d != "" {
			return what + ", then decoding: " + d
		}
	}
	if p != "C10" && p != "C25" && !bytes.Equal(out, want) {
		if p == "C13" && bytes.Equal(bytes.TrimRight(out, "\x00"), bytes.TrimRight(want, "\x00")) {
			return ""
		}
		return fmt.Sprintf("%s gives %x, want %x", what, out, want)
	}
	return ""
}

// decode: S[0] the type, B[0] the payload, B[1] what the message held before, N[0] version, N[1] flag before, N[2] header byte
func decode(c Case) string {
	def := wire[c.S[0]]
	if def == nil || makers[c.S[0]] == nil {
		return ""
	}
	m := makers[c.S[0]]()
	if !fill(m, def, c.B[1]) {
		return ""
	}
	flag, hasFlag := flagOf(m)
	if hasFlag {
		flag.SetBool(c.N[1] != 0)
	}
	if def.special {
		payloadLength(m).SetUint(uint64(c.N[1] & 0x7f))
	}
	version := int(c.N[0])
	pl := c.B[0]
	if len(pl) > 255 {
		return ""
	}
	v := version
	if v != 1 {
		v = 2
	}
	b := buildFrame(v, byte(c.N[2]), 0, 7, 8, 9, def.id, pl, def.extra, bytes.Repeat([]byte{0x77}, 13))
	orig := append([]byte{}, b...)
	frame := asFrame(b)
	if version != 1 && version != 2 {
		frame = otherFrame{mavlink2.FrameV2(b), version}
	}
	before := fmt.Sprintf("%#v", reflect.ValueOf(m).Elem().Interface())
	err := m.Read(frame)
	what := fmt.Sprintf("decoding a %s from a version %d frame with payload %x", c.S[0], version, pl)
	if !bytes.Equal(b, orig) {
		return what + " changed the frame"
	}
	p := c.Prop
	if version != 1 && version != 2 || version == 1 && def.id > 255 {
		if p != "C25" {
			return ""
		}
		want := mavlink2.ErrUnsupportedVersion
		if version == 1 {
			want = mavlink2.ErrDecodeV2MessageV1Frame
		}
		if err != want {
			return fmt.Sprintf("%s: error %v, want %v", what, err, want)
		}
		if a := fmt.Sprintf("%#v", reflect.ValueOf(m).Elem().Interface()); a != before {
			return what + " fails and changes the message to " + a
		}
		return ""
	}
	if p == "C07" {
		if s, ok := m.(fmt.Stringer); ok {
			s.String()
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("%s fails: %v", what, err)
	}
	if p == "C25" {
		return ""
	}
	if d := differs(m, def, pl, false); d != "" {
		return what + ": " + d
	}
	if p == "C14" {
		want := 1
		if version == 2 && def.ext {
			want = 2
		}
		if g := m.GetVersion(); g != want {
			return fmt.Sprintf("%s: the message reports version %d", what, g)
		}
	}
	if def.special && (p == "C19" || p == "C14") {
		n := len(pl) - 5
		if n < 0 {
			n = 0
		}
		if n > 249 {
			n = 249
		}
		if g := payloadLength(m).Uint(); g != uint64(n) {
			return fmt.Sprintf("%s: payload length %d, want %d", what, g, n)
		}
		if g, ok := m.(interface{ GetPayload() []byte }); ok {
			x := g.GetPayload()
			if len(x) != n || n > 0 && !bytes.Equal(x, pl[5:5+n]) {
				return fmt.Sprintf("%s: payload %x", what, x)
			}
		}
	}
	return ""
}

func setPayload(c Case) string {
	m := makers[c.S[0]]()
	s, ok := m.(interface {
		SetPayloadSlice([]byte) error
		GetPayload() []byte
	})
	if !ok {
		return ""
	}
	s.SetPayloadSlice(c.B[1])
	err := s.SetPayloadSlice(c.B[0])
	want := []byte(c.B[0])
	var werr error
	if len(want) > 249 {
		want, werr = want[:249], mavlink2.ErrValueTooLong
	}
	if err != werr || !bytes.Equal(s.GetPayload(), want) {
		return fmt.Sprintf("storing the payload %x: %v, %x is kept", c.B[0], err, s.GetPayload())
	}
	return ""
}

// text: S[0] type, S[1] field, B[0] the string, B[1] what the message held before
func text(c Case) string {
	def := wire[c.S[0]]
	if def == nil || makers[c.S[0]] == nil {
		return ""
	}
	m := makers[c.S[0]]()
	fill(m, def, c.B[1])
	var w *wireField
	for i := range def.fields {
		if def.fields[i].name == c.S[1] {
			w = &def.fields[i]
		}
	}
	set := reflect.ValueOf(m).MethodByName("Set" + c.S[1])
	get := reflect.ValueOf(m).MethodByName("Get" + c.S[1])
	if w == nil || !set.IsValid() || !get.IsValid() {
		return ""
	}
	others := encodeRef(m, def)
	s := string(c.B[0])
	r := set.Call([]reflect.Value{reflect.ValueOf(s)})
	what := fmt.Sprintf("storing %q in %s.%s", s, c.S[0], c.S[1])
	var err error
	if !r[0].IsNil() {
		err = r[0].Interface().(error)
	}
	if len(s) > w.n && err != mavlink2.ErrValueTooLong || len(s) <= w.n && err != nil {
		return fmt.Sprintf("%s (%d of %d bytes) reports %v", what, len(s), w.n, err)
	}
	want := s
	if len(want) > w.n {
		want = want[:w.n]
	}
	raw := make([]byte, w.n)
	copy(raw, want)
	if i := strings.IndexByte(want, 0); i >= 0 {
		want = want[:i]
	}
	if g := get.Call(nil)[0].String(); g != want {
		return fmt.Sprintf("%s reads back as %q", what, g)
	}
	now := encodeRef(m, def)
	if !bytes.Equal(now[w.off:w.off+w.n], raw) {
		return fmt.Sprintf("%s leaves the field's bytes %x", what, now[w.off:w.off+w.n])
	}
	copy(now[w.off:], others[w.off:w.off+w.n])
	if !bytes.Equal(now, others) {
		return what + " changes another field"
	}
	return ""
}

// tables: N[0] an id, S[0] a dialect
func tables(c Case) string {
	d := dialectMakers[c.S[0]]
	w := wireDialects[c.S[0]]
	if d == nil || w == nil {
		return ""
	}
	id := uint32(c.N[0])
	meta, err := d.GetMeta(id)
	row, ok := w.rows[id]
	b := buildFrame(2, 0, 0, 1, 1, 1, id, []byte{0}, 0, nil)
	what := fmt.Sprintf("dialect %s, message id %d: ", c.S[0], id)
	check := func(b []byte, known bool) string {
		m, err := d.GetMessage(asFrame(b))
		if !known {
			if err != mavlink2.ErrUnknownMessage {
				return fmt.Sprintf("%sdecoding gives %T, %v", what, m, err)
			}
			return ""
		}
		if err != nil || m == nil {
			return fmt.Sprintf("%sdecoding gives %T, %v", what, m, err)
		}
		def := wire[row.typ]
		if g := reflect.TypeOf(m).String(); def != nil && !strings.HasSuffix(g, "."+def.name) || m.GetID() != id || def != nil && (m.GetMessageName() != def.name || m.GetDialect() != wireDialects[def.pkg].name) {
			return fmt.Sprintf("%sdecoded as %s with id %d, named %s/%s; want %s", what, g, m.GetID(), m.GetDialect(), m.GetMessageName(), row.typ)
		}
		return ""
	}
	if x := check(b, ok); x != "" {
		return x
	}
	if id <= 255 {
		if x := check(buildFrame(1, 0, 0, 1, 1, 1, id, []byte{0}, 0, nil), ok); x != "" {
			return x
		}
	}
	if !ok {
		if err != mavlink2.ErrUnknownMessage {
			return fmt.Sprintf("%sthe metadata lookup gives %+v, %v", what, meta, err)
		}
		return ""
	}
	if err != nil || meta.CRCExtra != row.extra || meta.MinimumLength != row.min || meta.MaximumLength != row.max {
		return fmt.Sprintf("%smetadata %+v, %v; want %+v", what, meta, err, row)
	}
	return ""
}

// realframe: building a frame for a real message and decoding it
func realFrame(c Case) string {
	def := wire[c.S[0]]
	d := dialectMakers[def.pkg]
	if def == nil || d == nil || makers[c.S[0]] == nil {
		return ""
	}
	if r, ok := wireDialects[def.pkg].rows[def.id]; !ok || r.typ != c.S[0] {
		return ""
	}
	m := makers[c.S[0]]()
	if !fill(m, def, c.B[0]) {
		return ""
	}
	if def.special {
		payloadLength(m).SetUint(uint64(c.N[2]))
	}
	ds := mavlink2.Dialects{d}
	version := int(c.N[0])
	f, err := ds.GetFrame(version, 3, 4, 5, m)
	what := fmt.Sprintf("building a version %d frame for %s", version, c.S[0])
	if version == 1 && def.id > 255 {
		if err == nil {
			return what + " succeeds"
		}
		return ""
	}
	if err != nil || f == nil {
		return fmt.Sprintf("%s fails: %v", what, err)
	}
	if err := ds.Validate(f); err != nil {
		return fmt.Sprintf("%s: the frame %x is refused: %v", what, f.Bytes(), err)
	}
	return ""
}

func (r *R) typ() string {
	if len(r.seeds.Names) > 0 && !r.one(8) {
		return r.seeds.Names[r.Intn(len(r.seeds.Names))]
	}
	return wireNames[r.Intn(len(wireNames))]
}

func init() {
	enc := func(r *R, p string) Case {
		t := r.typ()
		if p == "C19" {
			t = "common.V2Extension"
		}
		def := wire[t]
		v := 1 + r.Intn(2)
		if p == "C25" && r.one(3) {
			v = int(r.num(16)) - 3
		}
		return Case{S: []string{t}, B: []HexBytes{r.bytes(def.max)}, N: []int64{int64(v), int64(r.Intn(2)), int64(r.upto(249))}}
	}
	reg("C10 C11 C12 C13 C19 C25", "encode", enc, encode)
	reg("C07 C10 C13 C14 C19 C25", "decode", func(r *R, p string) Case {
		t := r.typ()
		if p == "C19" {
			t = "common.V2Extension"
		}
		def := wire[t]
		v := 1 + r.Intn(2)
		if p == "C25" && r.one(3) {
			v = int(r.num(16)) - 3
		}
		n := r.upto(255)
		if r.one(2) {
			n = r.upto(def.max)
		}
		return Case{S: []string{t}, B: []HexBytes{r.bytes(n), r.bytes(def.max)}, N: []int64{int64(v), int64(r.Intn(200)), int64(r.byte())}}
	}, decode)
	reg("C19", "setpayload", func(r *R, p string) Case {
		return Case{S: []string{"common.V2Extension"}, B: []HexBytes{r.bytes(r.upto(270)), r.bytes(r.upto(249))}}
	}, setPayload)
	reg("C18", "text", func(r *R, p string) Case {
		for {
			t := r.typ()
			if r.one(3) {
				t = wireNames[r.Intn(len(wireNames))]
			}
			var fs []wireField
			for _, w := range wire[t].fields {
				if w.text {
					fs = append(fs, w)
				}
			}
			if len(fs) == 0 {
				if r.one(50) {
					r.seeds.Names = nil
				}
				continue
			}
			w := fs[r.Intn(len(fs))]
			return Case{S: []string{t, w.name}, B: []HexBytes{r.bytes(r.upto(w.n + 4)), r.bytes(wire[t].max)}}
		}
	}, text)
	reg("C15", "tables", func(r *R, p string) Case {
		var ds []string
		for n := range wireDialects {
			ds = append(ds, n)
		}
		sort.Strings(ds)
		// every dialect and small id in turn, then any
		k := r.step
		if k < 20*66000 && r.Intn(4) > 0 {
			return Case{S: []string{ds[k%len(ds)]}, N: []int64{int64(k / len(ds))}}
		}
		d := wireDialects[ds[r.Intn(len(ds))]]
		id := r.num(24)
		if r.one(2) {
			for x := range d.rows {
				id = int64(x)
				break
			}
		}
		return Case{S: []string{d.pkg}, N: []int64{id}}
	}, tables)
	reg("C08", "realframe", func(r *R, p string) Case {
		t := r.typ()
		return Case{S: []string{t}, B: []HexBytes{r.bytes(wire[t].max)}, N: []int64{int64(1 + r.Intn(2)), 0, int64(r.upto(249))}}
	}, realFrame)
}
