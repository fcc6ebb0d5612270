package main

// Loops: concrete unrolling where the exit test is decided, otherwise inductive invariants.
// Invariants are taken from the contract (loop templates) and from a fixed pool of linear
// candidates; the inductive subset is found Houdini-style and re-proved in the final run.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type modLoc struct {
	objKey string
	path   []Step
}
type Cand struct {
	key  string
	dead bool
	auto func(al *activeLoop, cur map[string]*Term) *Term // nil result: not applicable
	tmpl *LoopTmpl
	bind map[string]string
	vars func(st *State, al *activeLoop, env *SpecEnv) bool // sets further variables of the formula
}
type loopInfo struct {
	key       string
	invariant bool
	mods      map[string]modLoc
	ghosts    map[string]bool
	refs      map[string]string
	cands     []*Cand
	byKey     map[string]*Cand
	assumed   bool // in this run
	maxIter   int
}
type activeLoop struct {
	header *ssa.BasicBlock
	info   *loopInfo
	heap0  map[*Obj]Val
	entry  map[string]*Term
	refs0  map[string]string
	bounds map[string]*Term
	seq0   map[ssa.Value]SeqV // byte sequences on entry (fillCands)
}

func (x *Exec) info(f *Frame, h *ssa.BasicBlock) *loopInfo {
	k := fmt.Sprintf("%s|%s#%d", f.callKey, f.fn.String(), h.Index)
	i := x.loopInfo[k]
	if i == nil {
		i = &loopInfo{key: k, mods: map[string]modLoc{}, ghosts: map[string]bool{}, refs: map[string]string{}, byKey: map[string]*Cand{}}
		x.loopInfo[k] = i
	}
	return i
}

func fieldPrefix(p []Step) []Step {
	for i, s := range p {
		if s.idx != nil {
			return p[:i]
		}
	}
	return p
}

func (st *State) noteWrite(o *Obj, path []Step) {
	st.checkGlobalWrite(o)
	for _, f := range st.stack {
		for _, al := range f.loops {
			if _, ok := al.heap0[o]; !ok {
				if _, ok := st.x.gheap[o]; !ok {
					continue
				}
			}
			p := fieldPrefix(path)
			k := o.key + pathKey(p)
			if _, ok := al.info.mods[k]; !ok {
				al.info.mods[k] = modLoc{o.key, append([]Step(nil), p...)}
				st.x.changed, st.x.modsGrew = true, true
			}
		}
	}
}
func (st *State) checkGlobalWrite(o *Obj) {}

func (st *State) noteGhost(name string) {
	for _, f := range st.stack {
		for _, al := range f.loops {
			if !al.info.ghosts[name] {
				al.info.ghosts[name] = true
				st.x.changed, st.x.modsGrew = true, true
			}
		}
	}
}

// leaves of the loop state
type leafSet struct {
	terms map[string]*Term
	types map[string]types.Type
	refs  map[string]string
	order []string
	// byte slices the loop carries and byte arrays it writes
	bytes     map[string]SliceV
	byteOrder []string
}

func (ls *leafSet) addBytes(name string, s SliceV) {
	if ls.bytes == nil {
		ls.bytes = map[string]SliceV{}
	}
	ls.bytes[name] = s
	ls.byteOrder = append(ls.byteOrder, name)
}
func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (x *Exec) flatten(ls *leafSet, name string, v Val, t types.Type) {
	add := func(n string, tm *Term, ty types.Type) {
		ls.terms[n] = tm
		ls.types[n] = ty
		ls.order = append(ls.order, n)
	}
	intT := types.Typ[types.Int]
	switch a := v.(type) {
	case *Term:
		add(name, a, t)
	case FInt:
		add(name, a.t, intT)
	case StructV:
		u, _ := a.typ.Underlying().(*types.Struct)
		for i, fv := range a.f {
			var ft types.Type
			fn := fmt.Sprint(i)
			if u != nil {
				ft = u.Field(i).Type()
				fn = u.Field(i).Name()
			}
			x.flatten(ls, name+"."+fn, fv, ft)
		}
	case SliceV:
		add(name+".len", a.len, intT)
		add(name+".off", a.off, intT)
		add(name+".cap", a.cap, intT)
		add(name+".nil", a.nilc, types.Typ[types.Bool])
		k := "nil"
		if a.obj != nil {
			k = a.obj.key + pathKey(a.path)
		}
		ls.refs[name] = k
		if isByte(a.elem) && a.obj != nil {
			ls.addBytes(name, a)
		}
	case StrV:
		add(name+".len", x.strLen(a), intT)
	case OpaqueV, IfaceV:
		if t == nil {
			t = types.Universe.Lookup("error").Type()
		}
		add(name, x.refID(a), t)
	case PtrV:
		k := "nil"
		if a.obj != nil {
			k = a.obj.key + pathKey(a.path)
		}
		ls.refs[name] = k
	case MapRef:
		k := "nil"
		if a.obj != nil {
			k = a.obj.key
		}
		ls.refs[name] = k
	case MapV:
		add(name+".len", a.len, intT)
	case ExtV:
		if b, ok := a.data.(BufV); ok {
			add(name+".len", b.len, intT)
			k := "nil"
			if b.store != nil {
				k = b.store.key
			}
			ls.refs[name+".store"] = k
		}
		if r, ok := a.data.(RdrV); ok {
			add(name+".pos", r.pos, intT)
		}
	case TupleV:
		for i, e := range a.v {
			x.flatten(ls, fmt.Sprintf("%s#%d", name, i), e, nil)
		}
	}
}

func (st *State) objByKey(k string) *Obj {
	for o := range st.heap {
		if o.key == k {
			return o
		}
	}
	for o := range st.x.gheap {
		if o.key == k {
			return o
		}
	}
	return nil
}

func (st *State) loopLeaves(f *Frame, info *loopInfo, phis []*ssa.Phi) *leafSet {
	x := st.x
	ls := &leafSet{terms: map[string]*Term{}, types: map[string]types.Type{}, refs: map[string]string{}}
	for _, p := range phis {
		x.flatten(ls, "phi:"+p.Name(), f.env[p], p.Type())
	}
	var ks []string
	for k := range info.mods {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		m := info.mods[k]
		o := st.objByKey(m.objKey)
		if o == nil {
			continue
		}
		v := x.getPath(st.must(o), m.path)
		x.flatten(ls, "loc:"+k, v, pathType(o.typ, m.path))
		if a, ok := v.(ArrV); ok && a.elem != nil && isByte(a.elem) {
			ls.addBytes("loc:"+k, SliceV{obj: o, path: m.path, off: x.c.I(0), len: a.n, cap: a.n, nilc: x.c.F, elem: a.elem})
		}
	}
	// byte slices the loop reads or writes elements of
	if len(phis) > 0 {
		body := x.prog.loopsOf(f.fn)[phis[0].Block()]
		for b := range body {
			for _, in := range b.Instrs {
				if ia, ok := in.(*ssa.IndexAddr); ok {
					if d, ok := ia.X.(ssa.Instruction); ok && body[d.Block()] {
						continue
					}
					if s, ok := f.env[ia.X].(SliceV); ok && byteSeq(ia.X.Type()) && s.obj != nil {
						ls.addBytes("inv:"+ia.X.Name(), s)
					}
				}
			}
		}
	}
	var gs []string
	for g := range info.ghosts {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		if sv, ok := st.ghost[g]; ok {
			x.flatten(ls, "ghost:"+g, sv.v, sv.t)
		}
	}
	return ls
}
func pathType(t types.Type, p []Step) types.Type {
	for _, s := range p {
		if s.idx != nil {
			return nil
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		t = st.Field(s.field).Type()
	}
	return t
}

// havocVal: arbitrary value of the same shape
func (st *State) havocVal(name string, v Val, info *loopInfo, refname string) Val {
	x := st.x
	c := x.c
	switch a := v.(type) {
	case *Term:
		return st.freshVar("h:"+name, a.w)
	case FInt:
		t := st.freshVar("h:"+name, 64)
		st.assume(c.And(c.Slt(t, c.I(1<<52)), c.Slt(c.I(-(1<<52)), t)))
		return FInt{t}
	case StructV:
		r := StructV{typ: a.typ}
		u, _ := a.typ.Underlying().(*types.Struct)
		for i, fv := range a.f {
			fn := fmt.Sprint(i)
			if u != nil {
				fn = u.Field(i).Name()
			}
			r.f = append(r.f, st.havocVal(name+"."+fn, fv, info, refname+"."+fn))
		}
		return r
	case ArrV:
		return ArrV{arr: c.Base(st.freshName("h:"+name), a.arr.ew), n: a.n, elem: a.elem}
	case VecV:
		r := VecV{elem: a.elem}
		for i, e := range a.v {
			r.v = append(r.v, st.havocVal(fmt.Sprintf("%s[%d]", name, i), e, info, fmt.Sprintf("%s[%d]", refname, i)))
		}
		return r
	case SliceV:
		off, l, cp := st.freshVar("h:"+name+".off", 64), st.freshVar("h:"+name+".len", 64), st.freshVar("h:"+name+".cap", 64)
		nl := st.freshVar("h:"+name+".nil", 0)
		st.assume(c.Ule(l, cp))
		st.assume(c.Ule(cp, c.I(maxLen)))
		st.assume(c.Implies(nl, c.Eq(cp, c.I(0))))
		if info.refs[refname] == "fresh" || a.obj == nil {
			o := st.newObj("h:"+name, types.NewSlice(a.elem), nil)
			st.heap[o] = st.symArray(st.freshName("h:"+name+".mem"), a.elem, cp)
			return SliceV{obj: o, off: c.I(0), len: l, cap: cp, nilc: nl, elem: a.elem}
		}
		switch b := st.backing(a).(type) {
		case ArrV:
			st.assume(c.Ule(off, b.n))
			st.assume(c.Ule(c.Add(off, cp), b.n))
		case VecV:
			st.assume(c.Ule(off, c.I(int64(len(b.v)))))
			st.assume(c.Ule(c.Add(off, cp), c.I(int64(len(b.v)))))
		}
		return SliceV{obj: a.obj, path: a.path, off: off, len: l, cap: cp, nilc: nl, elem: a.elem}
	case StrV:
		l := st.freshVar("h:"+name+".len", 64)
		st.assume(c.Ule(l, c.I(maxLen)))
		return StrV{arr: c.Base(st.freshName("h:"+name), 8), off: c.I(0), len: l}
	case OpaqueV:
		return OpaqueV{st.freshVar("h:"+name, 64), a.typ}
	case IfaceV:
		return OpaqueV{st.freshVar("h:"+name, 64), a.typ}
	case PtrV:
		if info.refs[refname] == "fresh" {
			if a.typ != nil {
				// a pointer to one of several objects: only its nil-ness and type are known
				unsupported("pointer %s changes in a loop", name)
			}
		}
		return a
	case MapRef:
		return a
	case MapV:
		l := st.freshVar("h:"+name+".maplen", 64)
		st.assume(c.Ule(l, c.I(maxLen)))
		return MapV{typ: a.typ, opaque: true, version: st.freshName("mapver"), len: l}
	case ExtV:
		if b, ok := a.data.(BufV); ok {
			l := st.freshVar("h:"+name+".len", 64)
			st.assume(c.Ule(l, c.I(maxLen)))
			o := st.newObj("h:"+name, nil, nil)
			st.heap[o] = ArrV{arr: c.Base(st.freshName("h:"+name), 8), n: l, elem: types.Typ[types.Uint8]}
			_ = b
			return ExtV{typ: a.typ, data: BufV{store: o, off: c.I(0), len: l}}
		}
		if r, ok := a.data.(RdrV); ok {
			p := st.freshVar("h:"+name+".pos", 64)
			st.assume(c.Ule(p, r.s.len))
			return ExtV{typ: a.typ, data: RdrV{s: r.s, pos: p}}
		}
		if _, ok := a.data.(*Term); ok {
			return ExtV{typ: a.typ, data: st.freshVar("h:"+name+".done", 0)}
		}
		return a
	case TupleV:
		r := TupleV{}
		for i, e := range a.v {
			r.v = append(r.v, st.havocVal(fmt.Sprintf("%s#%d", name, i), e, info, fmt.Sprintf("%s#%d", refname, i)))
		}
		return r
	case FuncV, nil:
		return v
	}
	unsupported("loop-modified %T", v)
	return nil
}

func (st *State) atHeader(f *Frame, from, h *ssa.BasicBlock, phis []*ssa.Phi) {
	x := st.x
	info := x.info(f, h)
	back := x.prog.loopsOf(f.fn)[h][from]
	if !info.invariant {
		u := f.unroll[h]
		if u == nil {
			u = &unrollInfo{}
			f.unroll[h] = u
		}
		if back {
			u.iters++
			u.concrete = false
		}
		if back && len(st.trail) > u.trail {
			// choices were made during the iteration: unroll only while a counter is known
			counted := false
			for _, p := range phis {
				if t, ok := f.env[p].(*Term); ok && t.w > 1 && t.isConst() {
					counted = true
				}
			}
			if !counted {
				u.iters = 401
			}
		}
		u.trail = len(st.trail)
		if u.iters > 400 {
			info.invariant = true
			x.changed = true
			panic(restart{})
		}
		return
	}
	if x.initMode {
		unsupported("symbolic loop in package initialisation")
	}
	if back {
		// the loop must be active
		var al *activeLoop
		for _, a := range f.loops {
			if a.header == h {
				al = a
			}
		}
		if al == nil {
			unsupported("back edge outside its loop")
		}
		if x.modsGrew {
			// what the loop writes is not known yet: this run is repeated
			st.kill()
			return
		}
		ls := st.loopLeaves(f, info, phis)
		for n, r := range ls.refs {
			if r0, ok := al.refs0[n]; ok && r0 != r && info.refs[n] == "" {
				info.refs[n] = "fresh"
				x.changed = true
			}
		}
		st.checkCands(f, al, ls, "preserved")
		st.kill()
		return
	}
	ls := st.loopLeaves(f, info, phis)
	al := &activeLoop{header: h, info: info, entry: ls.terms, refs0: ls.refs, bounds: st.loopBounds(f, h)}
	st.genCands(f, al, ls)
	st.checkCands(f, al, ls, "established")
	// havoc
	for _, p := range phis {
		was := f.env[p]
		f.env[p] = st.havocVal(p.Name()+phiName(p), was, info, "phi:"+p.Name())
		st.partOf(f, p, was, x.prog.loopsOf(f.fn)[h])
	}
	var ks []string
	for k := range info.mods {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		m := info.mods[k]
		if o := st.objByKey(m.objKey); o != nil {
			nv := st.havocVal(o.key+pathKey(m.path), x.getPath(st.must(o), m.path), info, "loc:"+k)
			st.noteWrite(o, m.path) // enclosing loops
			st.heap[o] = x.setPath(st.must(o), m.path, nv)
		}
	}
	for g := range info.ghosts {
		if sv, ok := st.ghost[g]; ok {
			st.noteGhost(g)
			st.ghost[g] = SV{st.havocVal("ghost."+g, sv.v, info, "ghost:"+g), sv.t}
		}
	}
	al.heap0 = make(map[*Obj]Val, len(st.heap))
	for o, v := range st.heap {
		al.heap0[o] = v
	}
	f.loops = append(f.loops, al)
	info.assumed = true
	ls = st.loopLeaves(f, info, phis)
	for _, cd := range info.cands {
		if cd.dead {
			continue
		}
		if cd.auto != nil {
			if t := cd.auto(al, ls.terms); t != nil {
				st.assume(t)
			}
		} else {
			st.assumeTmpl(cd, ls, al)
		}
	}
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return ":" + p.Comment
	}
	return ""
}

func (st *State) loopBounds(f *Frame, h *ssa.BasicBlock) map[string]*Term {
	x := st.x
	c := x.c
	b := map[string]*Term{}
	for v, val := range f.env {
		if in, ok := v.(ssa.Instruction); ok {
			if in.Block() == nil || !in.Block().Dominates(h) || in.Block() == h {
				continue
			}
		}
		switch s := val.(type) {
		case SliceV:
			if !s.len.isConst() {
				b["len("+v.Name()+")"] = s.len
			} else {
				b["len="+s.len.String()] = s.len
			}
		case StrV:
			b["len("+v.Name()+")"] = x.strLen(s)
		case *Term:
			if s.w == 64 {
				if _, sg, _ := width(v.Type()); sg {
					b[v.Name()] = s
				}
			}
		}
	}
	for n, sv := range st.entryLets {
		if t, ok := sv.v.(*Term); ok && t.w == 64 {
			b["let "+n] = t
		}
	}
	for _, k := range []int64{0, 1, -1} {
		b[fmt.Sprint(k)] = c.I(k)
	}
	n := 0
	for _, blk := range f.fn.Blocks {
		for _, in := range blk.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			for _, o := range []ssa.Value{bo.X, bo.Y} {
				if k, ok := o.(*ssa.Const); ok && k.Value != nil {
					if w, _, ok := width(k.Type()); ok && w == 64 && !isFloat(k.Type()) {
						if i, ok := constInt(k); ok && n < 12 && i > -5000 && i < 5000 {
							if _, dup := b[fmt.Sprint(i)]; !dup {
								b[fmt.Sprint(i)] = c.I(i)
								n++
							}
						}
					}
				}
			}
		}
	}
	return b
}
func constInt(k *ssa.Const) (int64, bool) {
	if w, _, ok := width(k.Type()); !ok || w == 0 || k.Value == nil {
		return 0, false
	}
	return k.Int64(), true
}

func (info *loopInfo) add(c *Cand) {
	if _, ok := info.byKey[c.key]; ok {
		return
	}
	info.byKey[c.key] = c
	info.cands = append(info.cands, c)
}

func (st *State) genCands(f *Frame, al *activeLoop, ls *leafSet) {
	x := st.x
	c := x.c
	info := al.info
	isID := func(t types.Type) bool {
		if t == nil {
			return false
		}
		switch t.Underlying().(type) {
		case *types.Interface, *types.Chan, *types.Pointer:
			return true
		}
		return false
	}
	auto := func(k string, fn func(al *activeLoop, cur map[string]*Term) *Term) {
		info.add(&Cand{key: k, auto: fn})
	}
	var ints []string
	for _, n := range ls.order {
		n := n
		t := ls.terms[n]
		auto(n+" == entry", func(al *activeLoop, cur map[string]*Term) *Term {
			a, b := cur[n], al.entry[n]
			if a == nil || b == nil || a.w != b.w {
				return nil
			}
			return c.Eq(a, b)
		})
		if isID(ls.types[n]) {
			for _, ev := range []string{"ErrUnknownMessage"} {
				id := x.sentinel(ev)
				if id == nil {
					continue
				}
				auto(n+" == "+ev, func(al *activeLoop, cur map[string]*Term) *Term {
					if cur[n] == nil || cur[n].w != 64 {
						return nil
					}
					return c.Eq(cur[n], id)
				})
				// first iteration or sentinel
				for _, m := range ls.order {
					m := m
					if m == n || !strings.HasPrefix(m, "phi:") || ls.terms[m].w != 64 || isID(ls.types[m]) {
						continue
					}
					auto(n+" == "+ev+" unless "+m+" at entry", func(al *activeLoop, cur map[string]*Term) *Term {
						if cur[n] == nil || cur[m] == nil || al.entry[m] == nil || al.entry[n] == nil {
							return nil
						}
						return c.Or(c.Eq(cur[n], id), c.And(c.Eq(cur[m], al.entry[m]), c.Eq(cur[n], al.entry[n])))
					})
				}
			}
			continue
		}
		if t.w == 64 {
			ints = append(ints, n)
		}
	}
	var bs []string
	for b := range al.bounds {
		bs = append(bs, b)
	}
	sort.Strings(bs)
	for _, n := range ints {
		n := n
		mk := func(op string, k string, get func(al *activeLoop) *Term, cmp func(a, b *Term) *Term) {
			auto(n+" "+op+" "+k, func(al *activeLoop, cur map[string]*Term) *Term {
				a, b := cur[n], get(al)
				if a == nil || b == nil {
					return nil
				}
				return cmp(a, b)
			})
		}
		ge := func(a, b *Term) *Term { return c.Sle(b, a) }
		mk(">=", "entry", func(al *activeLoop) *Term { return al.entry[n] }, ge)
		mk("<=", "entry", func(al *activeLoop) *Term { return al.entry[n] }, c.Sle)
		for _, b := range bs {
			b := b
			g := func(al *activeLoop) *Term { return al.bounds[b] }
			mk("<=", b, g, c.Sle)
			mk("<", b, g, c.Slt)
			mk(">=", b, g, ge)
			mk("==", b, g, c.Eq)
		}
		for _, m := range ints {
			m := m
			if m == n {
				continue
			}
			if n < m {
				auto(n+"-"+m+" const", func(al *activeLoop, cur map[string]*Term) *Term {
					if cur[n] == nil || cur[m] == nil || al.entry[n] == nil || al.entry[m] == nil {
						return nil
					}
					return c.Eq(c.Sub(cur[n], cur[m]), c.Sub(al.entry[n], al.entry[m]))
				})
				auto(n+"+"+m+" const", func(al *activeLoop, cur map[string]*Term) *Term {
					if cur[n] == nil || cur[m] == nil || al.entry[n] == nil || al.entry[m] == nil {
						return nil
					}
					return c.Eq(c.Add(cur[n], cur[m]), c.Add(al.entry[n], al.entry[m]))
				})
			}
			auto(n+"<="+m, func(al *activeLoop, cur map[string]*Term) *Term {
				if cur[n] == nil || cur[m] == nil {
					return nil
				}
				return c.Sle(cur[n], cur[m])
			})
		}
	}
	st.fillCands(f, al)
	// contract templates
	nested := len(f.loops) > 0
	for _, g := range st.stack {
		if g != f && len(g.loops) > 0 {
			nested = true
		}
	}
	for _, lt := range x.loopTmpls(f) {
		if lt.inner && !nested {
			continue
		}
		for _, bind := range matchMeta(lt, ls) {
			var ks []string
			for k, v := range bind {
				ks = append(ks, k+"="+v)
			}
			sort.Strings(ks)
			info.add(&Cand{key: "contract: " + lt.text + " {" + strings.Join(ks, ",") + "}", tmpl: lt, bind: bind})
		}
	}
}

// matchMeta enumerates bindings of the template's metavariables to loop leaves
func matchMeta(lt *LoopTmpl, ls *leafSet) []map[string]string {
	out := []map[string]string{{}}
	for _, mv := range lt.metas {
		var next []map[string]string
		names := ls.order
		if mv.typ == "[]byte" {
			names = ls.byteOrder
		}
		for _, n := range names {
			if mv.typ != "[]byte" {
				t := ls.types[n]
				if t == nil {
					continue
				}
				if mv.typ == "error" {
					if !types.Identical(t, errorType) {
						continue
					}
				} else if b, ok := t.Underlying().(*types.Basic); !ok || b.Name() != mv.typ {
					continue
				}
			}
			for _, m := range out {
				dup := false
				for _, v := range m {
					if v == n {
						dup = true
					}
				}
				if dup {
					continue
				}
				k := map[string]string{mv.name: n}
				for a, b := range m {
					k[a] = b
				}
				next = append(next, k)
			}
		}
		out = next
	}
	return out
}

func (st *State) checkCands(f *Frame, al *activeLoop, ls *leafSet, what string) {
	x := st.x
	c := x.c
	info := al.info
	kill := func(cd *Cand) {
		x.kmu.Lock()
		defer x.kmu.Unlock()
		cd.dead = true
		if info.assumed || what == "preserved" {
			x.changed = true
		}
		if debugCands {
			fmt.Printf("    drop %s [%s] %s\n", cd.key, what, info.key)
		}
	}
	type item struct {
		cd *Cand
		t  *Term
		s  *State
	}
	var items []item
	work := st.clone() // skolem hints etc. stay local
	for _, cd := range info.cands {
		if cd.dead {
			continue
		}
		var t *Term
		if cd.auto != nil {
			t = cd.auto(al, ls.terms)
		} else {
			t = work.proveTmpl(cd, ls, al)
		}
		if t == nil || t.isFalse() {
			kill(cd)
			continue
		}
		if t.isTrue() {
			continue
		}
		items = append(items, item{cd, t, work})
	}
	// the rest needs no state but the queries built here; checks of back edges are left for the end of the run
	record := func() {
		x.kmu.Lock()
		defer x.kmu.Unlock()
		for _, cd := range info.cands {
			if !cd.dead {
				kind := "loop invariant (inferred)"
				if cd.tmpl != nil {
					kind = "loop invariant (contract)"
				}
				x.obls = append(x.obls, &Obl{Name: kind + " " + what + ": " + cd.key, Tags: []string{"invariant"}, static: true, ok: true, solver: "z3"})
			}
		}
	}
	each := func(its []item) {
		qs := make([]*Query, len(its))
		bad := make([]bool, len(its))
		c.mu.Lock()
		for i, it := range its {
			qs[i] = work.query(c.Not(it.t))
			qs[i].timeout = 3000
			if it.cd.tmpl != nil {
				qs[i].timeout = timeoutMS
			}
		}
		c.mu.Unlock()
		inParallel(len(its), func(i int) { bad[i] = x.ask(qs[i]).res != Unsat })
		for i, it := range its {
			if bad[i] {
				kill(it.cd)
			}
		}
	}
	// templates one by one, linear candidates in batches
	var batch, tmpls []item
	for _, it := range items {
		if it.cd.tmpl != nil {
			tmpls = append(tmpls, it)
		} else {
			batch = append(batch, it)
		}
	}
	solve := func() {
		t0 := time.Now()
		each(tmpls)
		if debugCands {
			fmt.Printf("  %s %s: %d templates %.2fs\n", info.key, what, len(tmpls), time.Since(t0).Seconds())
			defer func() { fmt.Printf("  %s %s: done %.2fs\n", info.key, what, time.Since(t0).Seconds()) }()
		}
		for len(batch) > 0 {
			var neg []*Term
			var ts []*Term
			c.mu.Lock()
			for _, it := range batch {
				neg = append(neg, c.Not(it.t))
				ts = append(ts, it.t)
			}
			q := work.query(c.Or(neg...))
			c.mu.Unlock()
			q.want = ts
			q.timeout = 5000
			a := x.ask(q)
			if debugCands {
				fmt.Printf("  batch of %d: %v %.2fs\n", len(batch), a.res, time.Since(t0).Seconds())
			}
			if a.res == Unsat {
				break
			}
			if a.res == Unknown || len(a.vals) != len(ts) {
				each(batch)
				break
			}
			var next []item
			for i, it := range batch {
				if a.vals[i] == 0 {
					kill(it.cd)
				} else {
					next = append(next, it)
				}
			}
			if len(next) == len(batch) {
				each(batch)
				break
			}
			batch = next
		}
		record()
	}
	if what == "preserved" {
		x.late = append(x.late, solve)
	} else {
		solve()
	}
}

var debugCands bool

// partOf: a slice or string the loop only shortens, from the front or from the back, is a part of what it was on entry
func (st *State) partOf(f *Frame, p *ssa.Phi, was Val, body map[*ssa.BasicBlock]bool) {
	c := st.x.c
	front, back := true, true
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == p || seen[v] {
			return
		}
		seen[v] = true
		switch i := v.(type) {
		case *ssa.Phi:
			if !body[i.Block()] || i.Block() == p.Block() {
				front, back = false, false
				return
			}
			for _, e := range i.Edges {
				walk(e)
			}
		case *ssa.Slice:
			_, ptr := i.X.Type().Underlying().(*types.Pointer)
			if i.Max != nil || ptr || !body[i.Block()] {
				front, back = false, false
				return
			}
			if i.High != nil {
				front = false
			}
			if i.Low != nil {
				back = false
			}
			walk(i.X)
		default:
			front, back = false, false
		}
	}
	for k, e := range p.Edges {
		if body[p.Block().Preds[k]] {
			walk(e)
		}
	}
	if front == back {
		return // both: unchanged
	}
	switch a := f.env[p].(type) {
	case SliceV:
		e, ok := was.(SliceV)
		if !ok || e.obj != a.obj || e.obj == nil {
			return
		}
		a.nilc = e.nilc
		if front {
			gone := c.Sub(e.len, a.len)
			st.assume(c.Ule(a.len, e.len))
			a.off, a.cap = c.Add(e.off, gone), c.Sub(e.cap, gone)
		} else {
			// a slice can also grow again within its capacity
			st.assume(c.Ule(a.len, e.cap))
			a.off, a.cap = e.off, e.cap
		}
		f.env[p] = a
	case StrV:
		e, ok := was.(StrV)
		if !ok || e.lit {
			return
		}
		st.assume(c.Ule(a.len, e.len))
		a.arr, a.off = e.arr, e.off
		if front {
			a.off = c.Add(e.off, c.Sub(e.len, a.len))
		}
		f.env[p] = a
	}
}
