package main

// Symbolic values, objects and states.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type Obj struct {
	key  string
	typ  types.Type
	pre  bool // exists in the entry state
	glob *ssa.Global
	glen *Term // backing array length when the object is a symbolic-length array
}

type Step struct {
	field int
	idx   *Term
}

// scalars: *Term (width 0 bool, else BV; floats as bit patterns)
type FInt struct { // float64 known to be equal to an integer
	t *Term // 64 bit, signed
}
type StructV struct {
	typ types.Type
	f   []Val
}
type ArrV struct { // array of scalars / interface ids
	arr  *Arr
	n    *Term
	elem types.Type
}
type VecV struct { // concrete-length array of arbitrary values
	elem types.Type
	v    []Val
}
type SliceV struct {
	obj           *Obj
	path          []Step
	off, len, cap *Term
	nilc          *Term // is nil
	elem          types.Type
}
type StrV struct {
	lit bool
	s   string
	arr *Arr
	off *Term
	len *Term
}
type PtrV struct {
	obj  *Obj
	path []Step
	typ  types.Type // pointee type
}
type IfaceV struct {
	typ types.Type
	v   Val
}
type OpaqueV struct { // opaque reference (interface, external pointer, channel): nil iff id==0
	id  *Term
	typ types.Type
}
type FuncV struct {
	fn   *ssa.Function
	bind []Val
	// opaque function value
	id *Term
}
type TupleV struct{ v []Val }
type MapRef struct{ obj *Obj } // obj nil: nil map
type MapV struct {
	typ     *types.Map
	keys    []Val
	vals    []Val
	opaque  bool
	version string
	len     *Term
}
type ExtV struct { // value of an external struct type
	typ  types.Type
	data Val
}
type BufV struct { // bytes.Buffer
	store *Obj
	off   *Term
	len   *Term
}
type RdrV struct { // bytes.Reader
	s   SliceV
	pos *Term
}
type ErrStr string

func isByteElem(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func width(t types.Type) (w int, signed bool, ok bool) {
	b, o := t.Underlying().(*types.Basic)
	if !o {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Float32:
		return 32, false, true
	case types.Float64, types.UntypedFloat:
		return 64, false, true
	}
	return 0, false, false
}
func isFloat(t types.Type) bool {
	b, o := t.Underlying().(*types.Basic)
	return o && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, o := t.Underlying().(*types.Basic)
	return o && b.Info()&types.IsString != 0
}
func isIface(t types.Type) bool { return types.IsInterface(t) }

// intern: constant ids of concrete references (shared by all targets)
var internMu sync.Mutex
var internTab = map[string]uint64{}
var internNames = map[uint64]string{}

func intern(k string) uint64 {
	internMu.Lock()
	defer internMu.Unlock()
	if v, ok := internTab[k]; ok {
		return v
	}
	v := uint64(len(internTab) + 1)
	internTab[k] = v
	internNames[v] = k
	return v
}

func internName(id uint64) string {
	internMu.Lock()
	defer internMu.Unlock()
	return internNames[id]
}

type deferred struct {
	fn   Val
	call *ssa.CallCommon
	args []Val
	site ssa.Instruction
}

type Frame struct {
	fn        *ssa.Function
	blk, prev *ssa.BasicBlock
	pc        int
	env       map[ssa.Value]Val
	defers    []deferred
	loops     []*activeLoop
	callKey   string
	ret       ssa.Value // value in the caller receiving the result
	retTo     func(st *State, v Val)
	panicking bool
	recovered bool
	unwinding bool // running defers because of panic
	inDefer   bool // this frame is a deferred call run by its parent
	modular   string
	results   Val
	unroll    map[*ssa.BasicBlock]*unrollInfo
}
type unrollInfo struct {
	iters    int
	trail    int
	concrete bool // a concretely decided exit branch seen in this iteration
}

type State struct {
	x         *Exec
	heap      map[*Obj]Val
	pc        []*Term
	facts     []*Fact
	hints     []*Term
	stack     []*Frame
	ghost     map[string]SV
	counter   map[string]int
	trail     []string
	opq       map[string]*Obj
	events    int
	atomic    bool
	entryLets map[string]SV
	pend      *future      // whether this state is possible at all is being decided
	resume    func(*State) // how it goes on
}

func (st *State) clone() *State {
	n := &State{x: st.x, events: st.events}
	n.heap = make(map[*Obj]Val, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.pc = append([]*Term(nil), st.pc...)
	n.facts = append([]*Fact(nil), st.facts...)
	n.hints = append([]*Term(nil), st.hints...)
	n.trail = append([]string(nil), st.trail...)
	n.ghost = make(map[string]SV, len(st.ghost))
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	n.counter = make(map[string]int, len(st.counter))
	for k, v := range st.counter {
		n.counter[k] = v
	}
	n.opq = make(map[string]*Obj, len(st.opq))
	for k, v := range st.opq {
		n.opq[k] = v
	}
	n.entryLets = st.entryLets
	for _, f := range st.stack {
		g := *f
		g.env = make(map[ssa.Value]Val, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]deferred(nil), f.defers...)
		g.loops = append([]*activeLoop(nil), f.loops...)
		g.unroll = map[*ssa.BasicBlock]*unrollInfo{}
		for k, v := range f.unroll {
			c := *v
			g.unroll[k] = &c
		}
		n.stack = append(n.stack, &g)
	}
	return n
}

func (st *State) top() *Frame { return st.stack[len(st.stack)-1] }

func (st *State) freshName(p string) string {
	st.counter[p]++
	return fmt.Sprintf("%s!%d", p, st.counter[p])
}
func (st *State) freshVar(p string, w int) *Term { return st.x.c.Var(st.freshName(p), w) }

func (st *State) assume(t *Term) {
	if t.isTrue() {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			st.assume(a)
		}
		return
	}
	for _, p := range st.pc {
		if p == t {
			return
		}
	}
	st.pc = append(st.pc, t)
}

func (st *State) newObj(key string, t types.Type, v Val) *Obj {
	o := &Obj{key: st.freshName("o:" + key), typ: t}
	st.heap[o] = v
	return o
}

// ---- value construction

func (x *Exec) zero(t types.Type) Val {
	c := x.c
	if w, _, ok := width(t); ok {
		return c.BV(0, w)
	}
	if isString(t) {
		return StrV{lit: true, s: ""}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if x.isExternal(t) {
			return x.zeroExt(t)
		}
		s := StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, x.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		return x.zeroArray(u)
	case *types.Slice:
		return SliceV{off: c.I(0), len: c.I(0), cap: c.I(0), nilc: c.T, elem: u.Elem()}
	case *types.Pointer:
		if x.isExternalPtr(t) {
			return OpaqueV{c.I(0), t}
		}
		return PtrV{typ: u.Elem()}
	case *types.Interface, *types.Chan:
		return OpaqueV{c.I(0), t}
	case *types.Map:
		return MapRef{}
	case *types.Signature:
		return FuncV{}
	case *types.Tuple:
		tv := TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.v = append(tv.v, x.zero(u.At(i).Type()))
		}
		return tv
	}
	return OpaqueV{c.I(0), t}
}

func (x *Exec) zeroArray(u *types.Array) Val {
	c := x.c
	if w, _, ok := width(u.Elem()); ok && w > 0 {
		return ArrV{arr: c.ConstArr(c.BV(0, w)), n: c.I(u.Len()), elem: u.Elem()}
	}
	v := VecV{elem: u.Elem()}
	if u.Len() > 4096 {
		return OpaqueV{c.I(0), u}
	}
	for i := int64(0); i < u.Len(); i++ {
		v.v = append(v.v, x.zero(u.Elem()))
	}
	return v
}

func (x *Exec) isExternal(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	p := n.Obj().Pkg()
	return p != nil && !x.prog.inModule(p.Path())
}
func (x *Exec) isExternalPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	if !x.isExternal(p.Elem()) {
		return false
	}
	if _, ok := p.Elem().Underlying().(*types.Struct); !ok {
		return false
	}
	return !modelledExt(p.Elem())
}

// external struct types that the executor models as values
func modelledExt(t types.Type) bool {
	switch t.String() {
	case "bytes.Buffer", "bytes.Reader", "sync.Once", "sync.Mutex", "sync.RWMutex", "strings.Builder", "sync.WaitGroup":
		return true
	}
	return false
}
func (x *Exec) zeroExt(t types.Type) Val {
	c := x.c
	switch t.String() {
	case "bytes.Buffer", "strings.Builder":
		return ExtV{typ: t, data: BufV{off: c.I(0), len: c.I(0)}}
	case "sync.Once":
		return ExtV{typ: t, data: c.F}
	}
	return ExtV{typ: t}
}

const maxLen = int64(1) << 40

// symbolic value of a type, named for models
func (st *State) symbolic(name string, t types.Type, pre bool) Val {
	x := st.x
	c := x.c
	if w, _, ok := width(t); ok {
		return c.Var(name, w)
	}
	if isString(t) {
		l := c.Var("len("+name+")", 64)
		st.assume(c.Ule(l, c.I(maxLen)))
		return StrV{arr: c.Base(name, 8), off: c.I(0), len: l}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if x.isExternal(t) {
			switch t.String() {
			case "bytes.Buffer", "strings.Builder":
				l := c.Var("len("+name+")", 64)
				st.assume(c.Ule(l, c.I(maxLen)))
				o := &Obj{key: name + ".buf", typ: types.NewSlice(types.Typ[types.Uint8]), pre: pre}
				st.heap[o] = ArrV{arr: c.Base(name, 8), n: l, elem: types.Typ[types.Uint8]}
				return ExtV{typ: t, data: BufV{store: o, off: c.I(0), len: l}}
			case "sync.Once":
				return ExtV{typ: t, data: c.Var(name+".done", 0)}
			}
			return ExtV{typ: t}
		}
		s := StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, st.symbolic(name+"."+u.Field(i).Name(), u.Field(i).Type(), pre))
		}
		return s
	case *types.Array:
		if w, _, ok := width(u.Elem()); ok && w > 0 {
			return ArrV{arr: c.Base(name, w), n: c.I(u.Len()), elem: u.Elem()}
		}
		v := VecV{elem: u.Elem()}
		for i := int64(0); i < u.Len() && i < 4096; i++ {
			v.v = append(v.v, st.symbolic(fmt.Sprintf("%s[%d]", name, i), u.Elem(), pre))
		}
		return v
	case *types.Slice:
		l := c.Var("len("+name+")", 64)
		cp := c.Var("cap("+name+")", 64)
		nl := c.Var("nil("+name+")", 0)
		st.assume(c.Ule(l, cp))
		st.assume(c.Ule(cp, c.I(maxLen)))
		st.assume(c.Implies(nl, c.Eq(cp, c.I(0))))
		o := &Obj{key: name, typ: t, pre: pre}
		st.heap[o] = st.symArray(name, u.Elem(), cp)
		return SliceV{obj: o, off: c.I(0), len: l, cap: cp, nilc: nl, elem: u.Elem()}
	case *types.Pointer:
		if x.isExternalPtr(t) {
			return OpaqueV{c.Var(name, 64), t}
		}
		o := &Obj{key: name, typ: u.Elem(), pre: pre}
		st.heap[o] = st.symbolic(name, u.Elem(), pre)
		return PtrV{obj: o, typ: u.Elem()}
	case *types.Interface, *types.Chan:
		return OpaqueV{c.Var(name, 64), t}
	case *types.Map:
		l := c.Var("len("+name+")", 64)
		st.assume(c.Ule(l, c.I(maxLen)))
		o := &Obj{key: name, typ: t, pre: pre}
		st.heap[o] = MapV{typ: u, opaque: true, version: name, len: l}
		return MapRef{o}
	case *types.Signature:
		return FuncV{id: c.Var(name, 64)}
	}
	return OpaqueV{c.Var(name, 64), t}
}

// symbolic-length array content
func (st *State) symArray(name string, elem types.Type, n *Term) Val {
	c := st.x.c
	if w, _, ok := width(elem); ok && w > 0 {
		return ArrV{arr: c.Base(name, w), n: n, elem: elem}
	}
	return ArrV{arr: c.Base(name, 64), n: n, elem: elem} // ids
}

// reading an element term back to a value
func (x *Exec) elemVal(t *Term, elem types.Type) Val {
	if w, _, ok := width(elem); ok {
		if w == t.w {
			return t
		}
		return x.c.Zext(t, w)
	}
	return OpaqueV{t, elem}
}

// ---- heap access

func (x *Exec) getPath(v Val, path []Step) Val {
	for _, s := range path {
		if s.idx == nil {
			switch sv := v.(type) {
			case StructV:
				v = sv.f[s.field]
			default:
				unsupported("field access on %T", v)
			}
		} else {
			v = x.arrayElem(v, s.idx)
		}
	}
	return v
}
func (x *Exec) arrayElem(v Val, i *Term) Val {
	switch av := v.(type) {
	case ArrV:
		return x.elemVal(x.c.Sel(av.arr, i), av.elem)
	case VecV:
		if i.isConst() && int(i.k) < len(av.v) {
			return av.v[i.k]
		}
		// symbolic index: ite chain over scalars
		if len(av.v) > 0 && len(av.v) <= 256 {
			r := av.v[len(av.v)-1]
			for k := len(av.v) - 2; k >= 0; k-- {
				r = x.iteVal(x.c.Eq(i, x.c.I(int64(k))), av.v[k], r)
			}
			return r
		}
	}
	unsupported("element access on %T", v)
	return nil
}
func (x *Exec) iteVal(g *Term, a, b Val) Val {
	if g.isTrue() {
		return a
	}
	if g.isFalse() {
		return b
	}
	switch av := a.(type) {
	case *Term:
		return x.c.Ite(g, av, b.(*Term))
	case StructV:
		bv := b.(StructV)
		r := StructV{typ: av.typ}
		for i := range av.f {
			r.f = append(r.f, x.iteVal(g, av.f[i], bv.f[i]))
		}
		return r
	case OpaqueV, IfaceV:
		return OpaqueV{x.c.Ite(g, x.refID(a), x.refID(b)), refType(a)}
	}
	unsupported("merge of %T", a)
	return nil
}
func refType(v Val) types.Type {
	switch r := v.(type) {
	case OpaqueV:
		return r.typ
	case IfaceV:
		return r.typ
	}
	return nil
}

func (x *Exec) setPath(v Val, path []Step, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	if s.idx == nil {
		sv, ok := v.(StructV)
		if !ok {
			unsupported("field store on %T", v)
		}
		r := StructV{typ: sv.typ, f: append([]Val(nil), sv.f...)}
		r.f[s.field] = x.setPath(sv.f[s.field], path[1:], nv)
		return r
	}
	switch av := v.(type) {
	case ArrV:
		if len(path) > 1 {
			unsupported("nested array store")
		}
		var t *Term
		switch n := nv.(type) {
		case *Term:
			t = n
			if t.w == 0 {
				t = x.c.Ite(t, x.c.BV(1, av.arr.ew), x.c.BV(0, av.arr.ew))
			}
		case OpaqueV, IfaceV:
			t = x.refID(nv)
		default:
			unsupported("array store of %T", nv)
		}
		return ArrV{arr: x.c.Store(av.arr, s.idx, t), n: av.n, elem: av.elem}
	case VecV:
		r := VecV{elem: av.elem, v: append([]Val(nil), av.v...)}
		if s.idx.isConst() && int(s.idx.k) < len(av.v) {
			r.v[s.idx.k] = x.setPath(av.v[s.idx.k], path[1:], nv)
			return r
		}
		for k := range r.v {
			r.v[k] = x.iteVal(x.c.Eq(s.idx, x.c.I(int64(k))), x.setPath(av.v[k], path[1:], nv), av.v[k])
		}
		return r
	}
	unsupported("element store on %T", v)
	return nil
}

func (st *State) load(p PtrV) Val {
	v, ok := st.get(p.obj)
	if !ok {
		unsupported("load from unknown object %s", p.obj.key)
	}
	return st.x.getPath(v, p.path)
}
func (st *State) store(p PtrV, v Val) {
	st.noteWrite(p.obj, p.path)
	st.heap[p.obj] = st.x.setPath(st.must(p.obj), p.path, v)
}

// content of a slice's backing array
func (st *State) backing(s SliceV) Val {
	if s.obj == nil {
		w := 64
		if ww, _, ok := width(s.elem); ok && ww > 0 {
			w = ww
		}
		return ArrV{arr: st.x.c.ConstArr(st.x.c.BV(0, w)), n: st.x.c.I(0), elem: s.elem}
	}
	return st.x.getPath(st.must(s.obj), s.path)
}
func (st *State) backingArr(s SliceV) *Arr {
	switch b := st.backing(s).(type) {
	case ArrV:
		return b.arr
	case VecV:
		return st.x.vecArr(b)
	}
	unsupported("backing %T", st.backing(s))
	return nil
}
func (x *Exec) vecArr(b VecV) *Arr {
	ew := 64
	if w, _, ok := width(b.elem); ok && w > 0 {
		ew = w
	}
	a := x.c.ConstArr(x.c.BV(0, ew))
	for i, e := range b.v {
		a = x.c.Store(a, x.c.I(int64(i)), x.scalar(e))
	}
	return a
}

// scalar/ref id term of a value
func (x *Exec) scalar(v Val) *Term {
	switch t := v.(type) {
	case *Term:
		return t
	}
	return x.refID(v)
}

// refID: identity term of a reference value
func (x *Exec) refID(v Val) *Term {
	switch t := v.(type) {
	case OpaqueV:
		return t.id
	case IfaceV:
		if t.typ == nil {
			return x.c.I(0)
		}
		return x.c.I(int64(intern("iface:" + t.typ.String() + ":" + x.valKey(t.v))))
	case PtrV:
		if t.obj == nil {
			return x.c.I(0)
		}
		return x.c.I(int64(intern("ptr:" + x.valKey(v))))
	case nilVal:
		return x.c.I(0)
	case FuncV:
		if t.id != nil {
			return t.id
		}
		if t.fn == nil {
			return x.c.I(0)
		}
		return x.c.I(int64(intern("func:" + t.fn.String())))
	case MapRef:
		if t.obj == nil {
			return x.c.I(0)
		}
		return x.c.I(int64(intern("map:" + t.obj.key)))
	}
	unsupported("identity of %T", v)
	return nil
}
func (x *Exec) valKey(v Val) string {
	switch t := v.(type) {
	case *Term:
		return fmt.Sprintf("t%d", t.id)
	case PtrV:
		if t.obj == nil {
			return "nil"
		}
		return t.obj.key + pathKey(t.path)
	case SliceV:
		if t.obj == nil {
			return "nil"
		}
		return fmt.Sprintf("%s%s[%d:%d:%d]", t.obj.key, pathKey(t.path), t.off.id, t.len.id, t.cap.id)
	case StructV:
		var p []string
		for _, f := range t.f {
			p = append(p, x.valKey(f))
		}
		return "{" + strings.Join(p, ",") + "}"
	case OpaqueV:
		return fmt.Sprintf("q%d", t.id.id)
	case StrV:
		if t.lit {
			return fmt.Sprintf("%q", t.s)
		}
		return fmt.Sprintf("str%d:%d:%d", t.arr.id, t.off.id, t.len.id)
	case ArrV:
		return fmt.Sprintf("a%d", t.arr.id)
	case IfaceV:
		return "i" + t.typ.String() + x.valKey(t.v)
	}
	return fmt.Sprintf("%v", v)
}
func pathKey(p []Step) string {
	var sb strings.Builder
	for _, s := range p {
		if s.idx == nil {
			fmt.Fprintf(&sb, ".%d", s.field)
		} else {
			fmt.Fprintf(&sb, "[t%d]", s.idx.id)
		}
	}
	return sb.String()
}

// valEq: equality term; forall parts are returned as quantified via skolem in prove mode (handled by caller through eqParts)
type eqPart struct {
	t *Term // plain equality
	// or quantified: forall k in [0,n): a[k]==b[k]
	a, b   *Arr
	ao, bo *Term
	n      *Term
}

func (x *Exec) eqParts(a, b Val) []eqPart {
	c := x.c
	one := func(t *Term) []eqPart {
		if t.isTrue() {
			return nil
		}
		return []eqPart{{t: t}}
	}
	switch av := a.(type) {
	case *Term:
		bt, ok := b.(*Term)
		if !ok {
			return one(c.F)
		}
		return one(c.Eq(av, bt))
	case StructV:
		bv, ok := b.(StructV)
		if !ok {
			return one(c.F)
		}
		var r []eqPart
		for i := range av.f {
			r = append(r, x.eqParts(av.f[i], bv.f[i])...)
		}
		return r
	case ArrV:
		var ba *Arr
		switch bv := b.(type) {
		case ArrV:
			ba = bv.arr
		case VecV:
			ba = x.vecArr(bv)
		default:
			return one(c.F)
		}
		if av.arr == ba {
			return nil
		}
		return []eqPart{{a: av.arr, b: ba, ao: c.I(0), bo: c.I(0), n: av.n}}
	case VecV:
		bv, ok := b.(VecV)
		if !ok {
			if bb, ok := b.(ArrV); ok {
				return x.eqParts(bb, a)
			}
			return one(c.F)
		}
		var r []eqPart
		for i := range av.v {
			r = append(r, x.eqParts(av.v[i], bv.v[i])...)
		}
		return r
	case SliceV:
		bv, ok := b.(SliceV)
		if !ok {
			return one(c.F)
		}
		if av.obj != bv.obj || pathKey(av.path) != pathKey(bv.path) {
			return one(c.F)
		}
		return one(c.And(c.Eq(av.off, bv.off), c.Eq(av.len, bv.len), c.Eq(av.cap, bv.cap)))
	case StrV:
		bv, ok := b.(StrV)
		if !ok {
			return one(c.F)
		}
		if av.lit && bv.lit {
			return one(c.B(av.s == bv.s))
		}
		aa, ao, al := x.strParts(av)
		ba, bo, bl := x.strParts(bv)
		r := one(c.Eq(al, bl))
		if aa == ba && ao == bo {
			return r
		}
		return append(r, eqPart{a: aa, b: ba, ao: ao, bo: bo, n: al})
	case PtrV:
		bv, ok := b.(PtrV)
		if !ok {
			return one(c.Eq(x.refID(a), x.refID(b)))
		}
		return one(c.B(av.obj == bv.obj && pathKey(av.path) == pathKey(bv.path)))
	case OpaqueV, IfaceV, FuncV:
		if ai, ok := a.(IfaceV); ok {
			if bi, ok := b.(IfaceV); ok {
				if !types.Identical(ai.typ, bi.typ) {
					return one(c.F)
				}
				return x.eqParts(ai.v, bi.v)
			}
		}
		return one(c.Eq(x.refID(a), x.refID(b)))
	case MapRef:
		bv, ok := b.(MapRef)
		return one(c.B(ok && av.obj == bv.obj))
	case MapV:
		bv, ok := b.(MapV)
		return one(c.B(ok && av.version == bv.version && len(av.keys) == len(bv.keys)))
	case ExtV:
		bv, ok := b.(ExtV)
		if !ok {
			return one(c.F)
		}
		if ab, ok := av.data.(BufV); ok {
			bb := bv.data.(BufV)
			if ab.store != bb.store {
				return one(c.F)
			}
			return one(c.And(c.Eq(ab.len, bb.len), c.Eq(ab.off, bb.off)))
		}
		return nil
	case nil:
		return nil
	}
	unsupported("equality of %T", a)
	return nil
}
func (x *Exec) strParts(s StrV) (*Arr, *Term, *Term) {
	c := x.c
	if s.lit {
		a := c.ConstArr(c.BV(0, 8))
		for i := 0; i < len(s.s); i++ {
			a = c.Store(a, c.I(int64(i)), c.BV(uint64(s.s[i]), 8))
		}
		return a, c.I(0), c.I(int64(len(s.s)))
	}
	return s.arr, s.off, s.len
}
func (x *Exec) strLen(s StrV) *Term {
	if s.lit {
		return x.c.I(int64(len(s.s)))
	}
	return s.len
}

type unsupportedErr struct{ msg string }

func unsupported(f string, a ...interface{}) { panic(unsupportedErr{fmt.Sprintf(f, a...)}) }

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
