package main

// Trusted models of the standard-library functions the code under contract calls. Every model used
// by a proof is listed in the evidence; conform.go of the replay module samples them against the
// real library.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val))

var intrinsics map[string]intrinsic

var errorType = types.Universe.Lookup("error").Type()

func (st *State) nilErr() Val { return OpaqueV{st.x.c.I(0), errorType} }

// newErr: an error value different from every other one
func (st *State) newErr(name string) Val {
	return OpaqueV{st.x.c.I(int64(intern(st.freshName("err!" + name)))), errorType}
}
func (st *State) sentinelErr(pkg, name string) Val {
	return OpaqueV{st.x.c.I(int64(intern("err:" + pkg + "." + name))), errorType}
}

func slicePtr(st *State, v Val) SliceV {
	s, ok := v.(SliceV)
	if !ok {
		unsupported("slice expected, got %T", v)
	}
	return s
}

// fork: run each branch on its own copy of the state
func (st *State) fork(brs ...func(s *State)) {
	for k := len(brs) - 1; k >= 0; k-- {
		s := st
		if k > 0 {
			s = st.clone()
		}
		brs[k](s)
		if k > 0 && len(s.stack) > 0 {
			st.x.work = append(st.x.work, s)
		}
	}
}

// ---- bytes.Buffer

func (st *State) bufOf(v Val) (PtrV, BufV, types.Type, bool) {
	if i, ok := v.(IfaceV); ok {
		v = i.v
	}
	p, ok := v.(PtrV)
	if !ok || p.obj == nil {
		return PtrV{}, BufV{}, nil, false
	}
	e, ok := st.load(p).(ExtV)
	if !ok {
		return PtrV{}, BufV{}, nil, false
	}
	b, ok := e.data.(BufV)
	return p, b, e.typ, ok
}
func (st *State) bufSlice(b BufV) SliceV {
	c := st.x.c
	if b.store == nil {
		return SliceV{off: c.I(0), len: c.I(0), cap: c.I(0), nilc: c.T, elem: types.Typ[types.Uint8]}
	}
	a := st.must(b.store).(ArrV)
	return SliceV{obj: b.store, off: b.off, len: b.len, cap: c.Sub(a.n, b.off), nilc: c.F, elem: types.Typ[types.Uint8]}
}
func (st *State) bufAppend(p PtrV, b BufV, typ types.Type, add Val, site ssa.Instruction, then func(*State)) {
	st.appendOp(st.bufSlice(b), add, site, func(s *State, v Val) {
		sv := v.(SliceV)
		s.store(p, ExtV{typ: typ, data: BufV{store: sv.obj, off: sv.off, len: sv.len}})
		then(s)
	})
}

// ---- encoding/binary

type byteBuilder struct {
	x   *Exec
	arr *Arr
	off int64
	be  bool
	bad bool
}

func q32(c *Ctx, t *Term) *Term {
	// conversion through float64 quiets signalling NaNs
	nan := c.And(c.Eq(c.Extract(t, 30, 23), c.BV(0xff, 8)), c.Ne(c.Extract(t, 22, 0), c.BV(0, 23)))
	return c.Ite(nan, c.BOr(t, c.BV(0x400000, 32)), t)
}

func (b *byteBuilder) scalar(t *Term) {
	c := b.x.c
	if t.w == 0 {
		t = c.Ite(t, c.BV(1, 8), c.BV(0, 8))
	}
	n := t.w / 8
	for k := 0; k < n; k++ {
		j := k
		if b.be {
			j = n - 1 - k
		}
		b.arr = c.Store(b.arr, c.I(b.off+int64(k)), c.Extract(t, 8*j+7, 8*j))
	}
	b.off += int64(n)
}

// fixedSize: encoding/binary's size of a type, or -1
func fixedSize(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Int, types.Uint, types.Uintptr:
			return -1
		}
		if w, _, ok := width(t); ok {
			if w == 0 {
				return 1
			}
			return int64(w / 8)
		}
	case *types.Array:
		s := fixedSize(u.Elem())
		if s < 0 {
			return -1
		}
		return s * u.Len()
	case *types.Struct:
		var n int64
		for i := 0; i < u.NumFields(); i++ {
			s := fixedSize(u.Field(i).Type())
			if s < 0 {
				return -1
			}
			n += s
		}
		return n
	}
	return -1
}

func (b *byteBuilder) value(v Val, t types.Type) {
	c := b.x.c
	switch u := t.Underlying().(type) {
	case *types.Basic:
		w, _, ok := width(t)
		tm, isT := v.(*Term)
		if !ok || !isT {
			b.bad = true
			return
		}
		if isFloat(t) && w == 32 {
			tm = q32(c, tm)
		}
		b.scalar(tm)
	case *types.Array:
		if isByteElem(u.Elem()) {
			if a, ok := v.(ArrV); ok {
				b.arr = c.CopyArr(b.arr, c.I(b.off), a.arr, c.I(0), c.I(u.Len()))
				b.off += u.Len()
				return
			}
		}
		for i := int64(0); i < u.Len(); i++ {
			b.value(b.x.arrayElem(v, c.I(i)), u.Elem())
		}
	case *types.Struct:
		s := v.(StructV)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				b.off += fixedSize(u.Field(i).Type())
				continue
			}
			b.value(s.f[i], u.Field(i).Type())
		}
	default:
		b.bad = true
	}
}

// decode a value of type t from arr at off; unexported reports a field reflection may not set
func (x *Exec) decodeVal(t types.Type, arr *Arr, off *Term, be bool, unexp *bool, old Val) Val {
	c := x.c
	switch u := t.Underlying().(type) {
	case *types.Basic:
		w, _, _ := width(t)
		if w == 0 {
			return c.Ne(c.Sel(arr, off), c.BV(0, 8))
		}
		var r *Term
		for k := 0; k < w/8; k++ {
			b := c.Sel(arr, c.AddK(off, int64(k)))
			switch {
			case r == nil:
				r = b
			case be:
				r = c.Concat(r, b)
			default:
				r = c.Concat(b, r)
			}
		}
		if isFloat(t) && w == 32 {
			r = q32(c, r)
		}
		return r
	case *types.Array:
		es := fixedSize(u.Elem())
		if w, _, ok := width(u.Elem()); ok && w > 0 {
			if isByteElem(u.Elem()) {
				return ArrV{arr: c.CopyArr(c.ConstArr(c.BV(0, 8)), c.I(0), arr, off, c.I(u.Len())), n: c.I(u.Len()), elem: u.Elem()}
			}
			a := c.ConstArr(c.BV(0, w))
			for i := int64(0); i < u.Len(); i++ {
				a = c.Store(a, c.I(i), x.decodeVal(u.Elem(), arr, c.AddK(off, i*es), be, unexp, nil).(*Term))
			}
			return ArrV{arr: a, n: c.I(u.Len()), elem: u.Elem()}
		}
		r := VecV{elem: u.Elem()}
		for i := int64(0); i < u.Len(); i++ {
			r.v = append(r.v, x.decodeVal(u.Elem(), arr, c.AddK(off, i*es), be, unexp, nil))
		}
		return r
	case *types.Struct:
		r := StructV{typ: t}
		o := int64(0)
		os, _ := old.(StructV)
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if f.Name() == "_" {
				if os.f != nil {
					r.f = append(r.f, os.f[i])
				} else {
					r.f = append(r.f, x.zero(f.Type()))
				}
			} else {
				if !f.Exported() {
					*unexp = true
				}
				r.f = append(r.f, x.decodeVal(f.Type(), arr, c.AddK(off, o), be, unexp, nil))
			}
			o += fixedSize(f.Type())
		}
		return r
	}
	unsupported("binary decoding of %s", t)
	return nil
}

func bigEndianArg(v Val) bool {
	i, ok := v.(IfaceV)
	if !ok {
		unsupported("byte order of unknown type")
	}
	s := i.typ.String()
	switch {
	case strings.HasSuffix(s, "littleEndian"):
		return false
	case strings.HasSuffix(s, "bigEndian"):
		return true
	case strings.HasSuffix(s, "nativeEndian"):
		return false
	}
	unsupported("byte order %s", s)
	return false
}

// encodeArg: the bytes of a binary.Write/Append argument; ok=false means the library reports an error
func (st *State) encodeArg(data Val, be bool) (SliceV, bool) {
	x := st.x
	c := x.c
	i, ok := data.(IfaceV)
	if !ok {
		unsupported("binary encoding of %T", data)
	}
	v, t := i.v, i.typ
	if p, ok := v.(PtrV); ok {
		if p.obj == nil {
			unsupported("binary encoding of a nil pointer")
		}
		v, t = st.load(p), p.typ
	}
	if s, ok := v.(SliceV); ok {
		if isByteElem(s.elem) {
			return s, true
		}
		if !s.len.isConst() {
			unsupported("binary encoding of a slice of unknown length")
		}
		es := fixedSize(s.elem)
		if es < 0 {
			return SliceV{}, false
		}
		b := &byteBuilder{x: x, arr: c.ConstArr(c.BV(0, 8)), be: be}
		bk := st.backing(s)
		for k := int64(0); k < int64(s.len.k); k++ {
			b.value(x.arrayElem(bk, c.AddK(s.off, k)), s.elem)
		}
		return st.tempSlice(b.arr, c.I(b.off)), !b.bad
	}
	if fixedSize(t) < 0 {
		return SliceV{}, false
	}
	b := &byteBuilder{x: x, arr: c.ConstArr(c.BV(0, 8)), be: be}
	b.value(v, t)
	return st.tempSlice(b.arr, c.I(b.off)), !b.bad
}
func (st *State) tempSlice(arr *Arr, n *Term) SliceV {
	o := st.newObj("tmp", types.NewSlice(types.Typ[types.Uint8]), nil)
	st.heap[o] = ArrV{arr: arr, n: n, elem: types.Typ[types.Uint8]}
	return SliceV{obj: o, off: st.x.c.I(0), len: n, cap: n, nilc: st.x.c.F, elem: types.Typ[types.Uint8]}
}

func binaryWrite(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
	be := bigEndianArg(args[1])
	p, b, typ, ok := st.bufOf(args[0])
	if !ok {
		unsupported("binary.Write to something other than a bytes.Buffer")
	}
	s, ok := st.encodeArg(args[2], be)
	if !ok {
		deliver(st, st.newErr("binary.Write"))
		return
	}
	st.bufAppend(p, b, typ, s, site, func(g *State) { deliver(g, g.nilErr()) })
}

// source: the unread bytes of a modelled reader
func (st *State) source(v Val) (arr *Arr, off, n *Term, advance func(s *State, k *Term)) {
	c := st.x.c
	if i, ok := v.(IfaceV); ok {
		v = i.v
	}
	p, ok := v.(PtrV)
	if !ok || p.obj == nil {
		unsupported("reader %T", v)
	}
	e, ok := st.load(p).(ExtV)
	if !ok {
		unsupported("reader %s", p.typ)
	}
	switch d := e.data.(type) {
	case RdrV:
		return st.backingArr(d.s), c.Add(d.s.off, d.pos), c.Sub(d.s.len, d.pos), func(s *State, k *Term) {
			s.store(p, ExtV{typ: e.typ, data: RdrV{s: d.s, pos: c.Add(d.pos, k)}})
		}
	case BufV:
		sl := st.bufSlice(d)
		return st.backingArr(sl), sl.off, sl.len, func(s *State, k *Term) {
			s.store(p, ExtV{typ: e.typ, data: BufV{store: d.store, off: c.Add(d.off, k), len: c.Sub(d.len, k)}})
		}
	}
	unsupported("reader %s", e.typ)
	return
}

func binaryRead(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
	x := st.x
	c := x.c
	be := bigEndianArg(args[1])
	d, ok := args[2].(IfaceV)
	if !ok {
		unsupported("binary.Read into %T", args[2])
	}
	p, ok := d.v.(PtrV)
	if !ok {
		if _, sl := d.v.(SliceV); sl {
			unsupported("binary.Read into a slice")
		}
		deliver(st, st.newErr("binary.Read"))
		return
	}
	if p.obj == nil {
		unsupported("binary.Read into a nil pointer")
	}
	size := fixedSize(p.typ)
	if size < 0 {
		deliver(st, st.newErr("binary.Read"))
		return
	}
	arr, off, n, adv := st.source(args[0])
	sz := c.I(size)
	enough := c.Ule(sz, n)
	good := func(s *State) {
		s.assume(enough)
		adv(s, sz)
		unexp := false
		nv := x.decodeVal(p.typ, arr, off, be, &unexp, s.load(p))
		if unexp {
			s.startPanic("reflection on an unexported field", site)
			return
		}
		s.store(p, nv)
		deliver(s, s.nilErr())
	}
	bad := func(s *State) {
		s.assume(c.Not(enough))
		adv(s, n)
		e := c.Ite(c.Eq(n, c.I(0)), x.refID(s.sentinelErr("io", "EOF")), x.refID(s.sentinelErr("io", "ErrUnexpectedEOF")))
		deliver(s, OpaqueV{e, errorType})
	}
	a, b := st.feasible(enough), st.feasible(c.Not(enough))
	switch {
	case a && b:
		st.fork(good, bad)
	case a:
		good(st)
	default:
		bad(st)
	}
}

func byteOrderGet(be bool, n int64) intrinsic {
	return func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
		c := st.x.c
		s := slicePtr(st, args[1])
		if !st.mustHold(c.Ult(c.I(n-1), s.len), "index in range", site) {
			return
		}
		t := st.x.decodeVal(map[int64]types.Type{2: types.Typ[types.Uint16], 4: types.Typ[types.Uint32], 8: types.Typ[types.Uint64]}[n], st.backingArr(s), s.off, be, new(bool), nil)
		deliver(st, t)
	}
}
func byteOrderPut(be bool, n int64) intrinsic {
	return func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
		c := st.x.c
		s := slicePtr(st, args[1])
		if !st.mustHold(c.Ult(c.I(n-1), s.len), "index in range", site) {
			return
		}
		v := args[2].(*Term)
		b, ok := st.backing(s).(ArrV)
		if !ok {
			unsupported("PutUint into %T", st.backing(s))
		}
		arr := b.arr
		for k := int64(0); k < n; k++ {
			j := k
			if be {
				j = n - 1 - k
			}
			arr = c.Store(arr, c.AddK(s.off, k), c.Extract(v, int(8*j+7), int(8*j)))
		}
		st.setBacking(s, ArrV{arr: arr, n: b.n, elem: b.elem})
		deliver(st, nil)
	}
}
func byteOrderAppend(be bool, n int64) intrinsic {
	return func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
		bb := &byteBuilder{x: st.x, arr: st.x.c.ConstArr(st.x.c.BV(0, 8)), be: be}
		bb.scalar(args[2].(*Term))
		st.appendOp(slicePtr(st, args[1]), st.tempSlice(bb.arr, st.x.c.I(n)), site, deliver)
	}
}

// ---- the ghost input stream

func unwrapReader(v Val) Val {
	for {
		i, ok := v.(IfaceV)
		if !ok {
			return v
		}
		v = i.v
	}
}

// streamInto: the next n bytes of the stream are stored at the start of s; the rest of s becomes arbitrary
func (st *State) streamInto(r Val, s SliceV, n *Term) {
	x := st.x
	c := x.c
	pos := st.rdPos(r)
	if s.obj != nil {
		b, ok := st.backing(s).(ArrV)
		if !ok {
			unsupported("reading into %T", st.backing(s))
		}
		scratch := c.Base(st.freshName("scratch"), 8)
		arr := c.CopyArr(b.arr, s.off, scratch, s.off, s.len)
		arr = c.CopyArr(arr, s.off, st.rdStream(r).arr, pos, n)
		st.setBacking(s, ArrV{arr: arr, n: b.n, elem: b.elem})
	}
	np := c.Add(pos, n)
	st.setRdPos(r, np)
	st.assume(c.And(c.Sle(c.I(0), np), c.Slt(np, c.I(1<<60))))
}

func readResult(s *State, r Val, sl SliceV, n, err Val, site ssa.Instruction, deliver func(*State, Val)) {
	s.event("read", map[string]SV{"recv": {r, nil}, "v": {sl, nil}, "ret0": {n, intType}, "ret1": {err, errorType}}, site)
	if len(s.stack) > 0 {
		deliver(s, TupleV{[]Val{n, err}})
	}
}

func readAtLeast(st *State, rv Val, s SliceV, min *Term, site ssa.Instruction, deliver func(*State, Val)) {
	c := st.x.c
	r := unwrapReader(rv)
	if o, ok := r.(OpaqueV); !ok {
		unsupported("reading from %T", r)
	} else if !st.mustHold(c.Ne(o.id, c.I(0)), "nil dereference", site) {
		return
	}
	var brs []func(*State)
	try := func(g *Term, f func(*State)) {
		if g.isFalse() || !st.feasible(g) {
			return
		}
		brs = append(brs, func(z *State) {
			z.assume(g)
			f(z)
		})
	}
	short := c.Slt(s.len, min)
	try(short, func(z *State) {
		readResult(z, r, s, c.I(0), z.sentinelErr("io", "ErrShortBuffer"), site, deliver)
	})
	try(c.And(c.Not(short), c.Sle(min, c.I(0))), func(z *State) {
		readResult(z, r, s, c.I(0), z.nilErr(), site, deliver)
	})
	ok := c.And(c.Not(short), c.Slt(c.I(0), min))
	try(ok, func(z *State) {
		n := z.freshVar("nread", 64)
		z.assume(c.And(c.Sle(min, n), c.Sle(n, s.len)))
		z.streamInto(r, s, n)
		z.trail = append(z.trail, "read succeeds at "+z.pos(site))
		readResult(z, r, s, n, z.nilErr(), site, deliver)
	})
	try(ok, func(z *State) {
		n := z.freshVar("nread", 64)
		z.assume(c.And(c.Sle(c.I(0), n), c.Slt(n, min)))
		z.streamInto(r, s, n)
		e := z.freshVar("readerr", 64)
		z.assume(c.Ne(e, c.I(0)))
		z.trail = append(z.trail, "read fails at "+z.pos(site))
		readResult(z, r, s, n, OpaqueV{e, errorType}, site, deliver)
	})
	st.fork(brs...)
}

// readSome: (*bufio.Reader).Read: 0 <= n <= len(p)
func readSome(st *State, rv Val, s SliceV, site ssa.Instruction, deliver func(*State, Val)) {
	c := st.x.c
	r := unwrapReader(rv)
	if o, ok := r.(OpaqueV); !ok {
		unsupported("reading from %T", r)
	} else if !st.mustHold(c.Ne(o.id, c.I(0)), "nil dereference", site) {
		return
	}
	st.fork(func(z *State) {
		n := z.freshVar("nread", 64)
		z.assume(c.And(c.Sle(c.I(0), n), c.Sle(n, s.len)))
		z.streamInto(r, s, n)
		readResult(z, r, s, n, z.nilErr(), site, deliver)
	}, func(z *State) {
		z.streamInto(r, s, c.I(0))
		e := z.freshVar("readerr", 64)
		z.assume(c.Ne(e, c.I(0)))
		readResult(z, r, s, c.I(0), OpaqueV{e, errorType}, site, deliver)
	})
}

// ---- locks

func lockOp(ev string) intrinsic {
	return func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
		p, ok := args[0].(PtrV)
		if !ok {
			unsupported("lock %T", args[0])
		}
		if p.obj == nil {
			st.mustHold(st.x.c.F, "nil dereference", site)
			return
		}
		st.event(ev, map[string]SV{"mu": {p, types.NewPointer(p.typ)}}, site)
		if len(st.stack) > 0 {
			deliver(st, nil)
		}
	}
}

func onceDo(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
	x := st.x
	c := x.c
	p, ok := args[0].(PtrV)
	if !ok || p.obj == nil {
		unsupported("Once %T", args[0])
	}
	e := st.load(p).(ExtV)
	done, ok := e.data.(*Term)
	if !ok {
		done = st.freshVar("oncedone", 0)
	}
	sv := map[string]SV{"addr": {p, types.NewPointer(p.typ)}}
	first := func(s *State) {
		s.assume(c.Not(done))
		s.trail = append(s.trail, "first call of Do at "+s.pos(site))
		s.event("once.enter", sv, site)
		if len(s.stack) == 0 {
			return
		}
		s.store(p, ExtV{typ: e.typ, data: c.T})
		s.invoke(args[1], nil, nil, site, nil, func(z *State, v Val) {
			z.event("once.exit", sv, site)
			if len(z.stack) > 0 {
				deliver(z, nil)
			}
		})
	}
	later := func(s *State) {
		s.assume(done)
		s.trail = append(s.trail, "later call of Do at "+s.pos(site))
		s.event("once.later", sv, site)
		if len(s.stack) > 0 {
			deliver(s, nil)
		}
	}
	switch {
	case !st.feasible(done):
		first(st)
	case !st.feasible(c.Not(done)):
		later(st)
	default:
		st.fork(first, later)
	}
}

// ---- registration

func nonNilOpaque(st *State, name string, t types.Type) Val {
	return OpaqueV{st.x.c.I(int64(intern("new:" + st.freshName(name)))), t}
}
func resultType(site ssa.Instruction) types.Type {
	if v, ok := site.(ssa.Value); ok {
		return v.Type()
	}
	return nil
}

func (st *State) freshString(name string) Val {
	return st.symbolic(st.freshName(name), types.Typ[types.String], true)
}

func init() {
	intrinsics = map[string]intrinsic{
		"encoding/binary.Write": binaryWrite,
		"encoding/binary.Read":  binaryRead,
		"encoding/binary.Append": func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
			s, ok := st.encodeArg(args[2], bigEndianArg(args[1]))
			if !ok {
				deliver(st, TupleV{[]Val{st.x.zero(types.NewSlice(types.Typ[types.Uint8])), st.newErr("binary.Append")}})
				return
			}
			st.appendOp(slicePtr(st, args[0]), s, site, func(g *State, v Val) { deliver(g, TupleV{[]Val{v, g.nilErr()}}) })
		},
		"encoding/binary.Size": func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
			i, ok := args[0].(IfaceV)
			if !ok {
				unsupported("binary.Size")
			}
			t := i.typ
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			if s, ok := i.v.(SliceV); ok {
				deliver(st, st.x.c.Mul(s.len, st.x.c.I(fixedSize(s.elem))))
				return
			}
			deliver(st, st.x.c.I(fixedSize(t)))
		},
		"(*bytes.Buffer).Write": func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
			p, b, t, ok := st.bufOf(args[0])
			if !ok {
				unsupported("buffer")
			}
			n := slicePtr(st, args[1]).len
			st.bufAppend(p, b, t, args[1], site, func(g *State) { deliver(g, TupleV{[]Val{n, g.nilErr()}}) })
		},
		"(*bytes.Buffer).WriteString": func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
			p, b, t, ok := st.bufOf(args[0])
			if !ok {
				unsupported("buffer")
			}
			n := st.x.strLen(args[1].(StrV))
			st.bufAppend(p, b, t, args[1], site, func(g *State) { deliver(g, TupleV{[]Val{n, g.nilErr()}}) })
		},
		"(*bytes.Buffer).WriteByte": func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
			p, b, t, ok := st.bufOf(args[0])
			if !ok {
				unsupported("buffer")
			}
			c := st.x.c
			s := st.tempSlice(c.Store(c.ConstArr(c.BV(0, 8)), c.I(0), args[1].(*Term)), c.I(1))
			st.bufAppend(p, b, t, s, site, func(g *State) { deliver(g, g.nilErr()) })
		},
		"(*bytes.Buffer).Bytes": func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
			_, b, _, ok := st.bufOf(args[0])
			if !ok {
				unsupported("buffer")
			}
			deliver(st, st.bufSlice(b))
		},
		"(*bytes.Buffer).Len": func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
			_, b, _, ok := st.bufOf(args[0])
			if !ok {
				unsupported("buffer")
			}
			deliver(st, b.len)
		},
		"(*bytes.Buffer).Reset": func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
			p, b, t, ok := st.bufOf(args[0])
			if !ok {
				unsupported("buffer")
			}
			st.store(p, ExtV{typ: t, data: BufV{store: b.store, off: st.x.c.I(0), len: st.x.c.I(0)}})
			deliver(st, nil)
		},
		"(*bytes.Buffer).Truncate": func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
			p, b, t, ok := st.bufOf(args[0])
			if !ok {
				unsupported("buffer")
			}
			n := args[1].(*Term)
			if !st.mustHold(st.x.c.Ule(n, b.len), "Truncate in range", site) {
				return
			}
			st.store(p, ExtV{typ: t, data: BufV{store: b.store, off: b.off, len: n}})
			deliver(st, nil)
		},
		"(*bytes.Buffer).String": func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
			_, b, _, ok := st.bufOf(args[0])
			if !ok {
				unsupported("buffer")
			}
			s := st.bufSlice(b)
			deliver(st, StrV{arr: st.backingArr(s), off: s.off, len: s.len})
		},
		"bytes.NewReader": func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
			t := resultType(site)
			if t == nil {
				unsupported("bytes.NewReader")
			}
			et := t.(*types.Pointer).Elem()
			o := st.newObj("bytes.Reader", et, ExtV{typ: et, data: RdrV{s: slicePtr(st, args[0]), pos: st.x.c.I(0)}})
			deliver(st, PtrV{obj: o, typ: et})
		},
		"bytes.NewBuffer": func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
			t := resultType(site)
			s := slicePtr(st, args[0])
			if t == nil || len(s.path) > 0 {
				unsupported("bytes.NewBuffer")
			}
			et := t.(*types.Pointer).Elem()
			o := st.newObj("bytes.Buffer", et, ExtV{typ: et, data: BufV{store: s.obj, off: s.off, len: s.len}})
			deliver(st, PtrV{obj: o, typ: et})
		},
		"bytes.IndexByte":       indexByte(false),
		"strings.IndexByte":     indexByte(false),
		"bytes.LastIndexByte":   indexByte(true),
		"strings.LastIndexByte": indexByte(true),
		"bytes.TrimRight":       trimRight,
		"strings.TrimRight":     trimRight,
		"bytes.Equal": func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
			a, b := slicePtr(st, args[0]), slicePtr(st, args[1])
			s := func(v SliceV) StrV { return StrV{arr: st.backingArr(v), off: v.off, len: v.len} }
			deliver(st, st.eqVals(s(a), s(b), types.Typ[types.String]))
		},
		"bufio.NewReader": func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
			c := st.x.c
			t := resultType(site)
			v := nonNilOpaque(st, "bufio.Reader", t).(OpaqueV)
			st.assume(c.Eq(c.App("readerof", 64, v.id), st.x.refID(args[0])))
			st.setRdPos(v, c.I(0))
			deliver(st, v)
		},
		"bufio.NewReaderSize": func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
			c := st.x.c
			t := resultType(site)
			v := nonNilOpaque(st, "bufio.Reader", t).(OpaqueV)
			st.assume(c.Eq(c.App("readerof", 64, v.id), st.x.refID(args[0])))
			st.setRdPos(v, c.I(0))
			deliver(st, v)
		},
		"io.ReadAtLeast": func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
			readAtLeast(st, args[0], slicePtr(st, args[1]), args[2].(*Term), site, deliver)
		},
		"io.ReadFull": func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
			s := slicePtr(st, args[1])
			readAtLeast(st, args[0], s, s.len, site, deliver)
		},
		"(*bufio.Reader).Read": func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
			readSome(st, args[0], slicePtr(st, args[1]), site, deliver)
		},
		"(*bufio.Reader).ReadByte": func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
			c := st.x.c
			s := st.tempSlice(c.ConstArr(c.BV(0, 8)), c.I(1))
			readAtLeast(st, args[0], s, c.I(1), site, func(g *State, v Val) {
				t := v.(TupleV)
				b := g.x.arrayElem(g.backing(s), c.I(0)).(*Term)
				b = c.Ite(c.Eq(g.x.refID(t.v[1]), c.I(0)), b, c.BV(0, 8))
				deliver(g, TupleV{[]Val{b, t.v[1]}})
			})
		},
		"math.Min":   minMax(false),
		"math.Max":   minMax(true),
		"errors.New": newError,
		"fmt.Errorf": newError,
		"fmt.Sprintf": func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
			deliver(st, st.freshString("sprintf"))
		},
		"fmt.Sprint": func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
			deliver(st, st.freshString("sprint"))
		},
		"fmt.Printf":  fmtPrint(false),
		"fmt.Println": fmtPrint(false),
		"fmt.Print":   fmtPrint(false),
		"fmt.Fprintf": fmtPrint(true),
		"fmt.Fprint":  fmtPrint(true),
		"text/tabwriter.NewWriter": func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
			v := nonNilOpaque(st, "tabwriter", resultType(site)).(OpaqueV)
			st.ghost["link:"+itoa(v.id.id)] = SV{args[0], nil}
			deliver(st, v)
		},
		"(*text/tabwriter.Writer).Flush": func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
			st.writeSomething(args[0])
			deliver(st, st.freshRef("flusherr", errorType))
		},
		"(*sync.Once).Do":         onceDo,
		"(*sync.Mutex).Lock":      lockOp("lock"),
		"(*sync.Mutex).Unlock":    lockOp("unlock"),
		"(*sync.RWMutex).Lock":    lockOp("lock"),
		"(*sync.RWMutex).Unlock":  lockOp("unlock"),
		"(*sync.RWMutex).RLock":   lockOp("rlock"),
		"(*sync.RWMutex).RUnlock": lockOp("runlock"),
		"net.ListenPacket":        listenPacket,
		"math.Float32bits":        func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) { deliver(st, args[0]) },
		"math.Float32frombits":    func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) { deliver(st, args[0]) },
	}
	for _, e := range []struct {
		n  string
		be bool
	}{{"littleEndian", false}, {"bigEndian", true}} {
		for _, w := range []int64{2, 4, 8} {
			b := itoa(int(w * 8))
			intrinsics["(encoding/binary."+e.n+").Uint"+b] = byteOrderGet(e.be, w)
			intrinsics["(encoding/binary."+e.n+").PutUint"+b] = byteOrderPut(e.be, w)
			intrinsics["(encoding/binary."+e.n+").AppendUint"+b] = byteOrderAppend(e.be, w)
		}
	}
}

// byteView: the bytes of a slice or string
func byteView(st *State, v Val) (*Arr, *Term, *Term) {
	c := st.x.c
	switch v := v.(type) {
	case SliceV:
		return st.backingArr(v), v.off, v.len
	case StrV:
		return st.x.strParts(v)
	}
	unsupported("bytes of %T", v)
	return nil, c.I(0), c.I(0)
}

// indexByte: the first (or last) position that holds the byte, or -1
func indexByte(last bool) intrinsic {
	return func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
		c := st.x.c
		arr, off, n := byteView(st, args[0])
		b := args[1].(*Term)
		i := st.freshVar("indexbyte", 64)
		eq := func(k *Term) *Term { return c.Eq(c.Sel(arr, c.Add(off, k)), b) }
		st.assume(c.Or(c.Eq(i, c.I(-1)), c.And(c.Sle(c.I(0), i), c.Slt(i, n), eq(i))))
		lo, hi := c.I(0), c.Ite(c.Eq(i, c.I(-1)), n, i)
		if last {
			lo, hi = c.Add(i, c.I(1)), n
		}
		st.facts = append(st.facts, &Fact{name: st.freshName("indexbyte"), lo: lo, hi: hi, body: func(k *Term) *Term { return c.Not(eq(k)) }})
		deliver(st, i)
	}
}

// trimRight: cut at the trailing run of one byte (a cutset of one ASCII character)
func trimRight(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
	c := st.x.c
	cut, ok := args[1].(StrV)
	if !ok || !cut.lit || len(cut.s) != 1 || cut.s[0] >= 0x80 {
		unsupported("a cutset other than one ASCII character")
	}
	arr, off, n := byteView(st, args[0])
	m := st.freshVar("trimmed", 64)
	is := func(k *Term) *Term { return c.Eq(c.Sel(arr, c.Add(off, k)), c.BV(uint64(cut.s[0]), 8)) }
	st.assume(c.And(c.Sle(c.I(0), m), c.Sle(m, n)))
	st.assume(c.Or(c.Eq(m, c.I(0)), c.Not(is(c.Sub(m, c.I(1))))))
	st.facts = append(st.facts, &Fact{name: st.freshName("trimmed"), lo: m, hi: n, body: is})
	if s, ok := args[0].(SliceV); ok {
		// nil for empty input
		s.cap = c.Ite(c.Eq(n, c.I(0)), c.I(0), s.cap)
		s.nilc = c.Or(s.nilc, c.Eq(n, c.I(0)))
		s.len = m
		deliver(st, s)
		return
	}
	deliver(st, StrV{arr: arr, off: off, len: m})
}

func minMax(max bool) intrinsic {
	return func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
		c := st.x.c
		a, ok1 := args[0].(FInt)
		b, ok2 := args[1].(FInt)
		if !ok1 || !ok2 {
			deliver(st, st.freshVar("float", 64))
			return
		}
		lt := c.Slt(a.t, b.t)
		if max {
			lt = c.Slt(b.t, a.t)
		}
		deliver(st, FInt{c.Ite(lt, a.t, b.t)})
	}
}

func newError(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
	if st.x.initMode {
		deliver(st, OpaqueV{st.x.c.I(int64(intern("err:" + site.Parent().Pkg.Pkg.Path() + ":" + itoa(siteIndex(site))))), errorType})
		return
	}
	deliver(st, st.newErr("new"))
}

// writeSomething: arbitrary bytes are appended to what the writer is linked to
func (st *State) writeSomething(w Val) {
	if i, ok := w.(IfaceV); ok {
		w = i.v
	}
	if o, ok := w.(OpaqueV); ok {
		if l, ok := st.ghost["link:"+itoa(o.id.id)]; ok {
			st.writeSomething(l.v)
		}
		return
	}
	if p, b, t, ok := st.bufOf(w); ok {
		st.store(p, st.havocVal("buffer", ExtV{typ: t, data: b}, &loopInfo{refs: map[string]string{}}, ""))
	}
}

func fmtPrint(writer bool) intrinsic {
	return func(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
		if writer {
			st.writeSomething(args[0])
		}
		n := st.freshVar("printed", 64)
		deliver(st, TupleV{[]Val{n, st.freshRef("printerr", errorType)}})
	}
}

func listenPacket(st *State, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
	c := st.x.c
	var tt *types.Tuple
	if t, ok := resultType(site).(*types.Tuple); ok {
		tt = t
	} else {
		unsupported("net.ListenPacket")
	}
	conn := OpaqueV{st.freshVar("packetconn", 64), tt.At(0).Type()}
	err := OpaqueV{st.freshVar("listenerr", 64), errorType}
	st.assume(c.Or(c.And(c.Eq(err.id, c.I(0)), c.Ne(conn.id, c.I(0))), c.And(c.Ne(err.id, c.I(0)), c.Eq(conn.id, c.I(0)))))
	st.event("call ListenPacket", map[string]SV{"ret0": {conn, conn.typ}, "ret1": {err, errorType}}, site)
	if len(st.stack) > 0 {
		deliver(st, TupleV{[]Val{conn, err}})
	}
}
