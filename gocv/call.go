package main

// Calls: in-module functions are inlined or replaced by their contract; everything else is one of
// the trusted models below. The models used by a run are reported in its evidence.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type methodRef struct {
	recv   OpaqueV
	iface  string
	method *types.Func
}

func (st *State) callee(f *Frame, call *ssa.CallCommon) (Val, []Val) {
	var args []Val
	if call.IsInvoke() {
		for _, a := range call.Args {
			args = append(args, st.val(f, a))
		}
		r := st.val(f, call.Value)
		switch rv := r.(type) {
		case IfaceV:
			fn := st.x.prog.prog.LookupMethod(rv.typ, call.Method.Pkg(), call.Method.Name())
			if fn == nil {
				unsupported("method %s of %s", call.Method.Name(), rv.typ)
			}
			return FuncV{fn: fn}, append([]Val{rv.v}, args...)
		case OpaqueV:
			return methodRef{recv: rv, iface: ifaceName(call.Value.Type()), method: call.Method}, args
		}
		unsupported("method call on %T", r)
	}
	for _, a := range call.Args {
		args = append(args, st.val(f, a))
	}
	return st.val(f, call.Value), args
}

func ifaceName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return n.Obj().Pkg().Name() + "." + n.Obj().Name()
	}
	return t.String()
}

// invoke performs a call; the result is delivered to ret (in the current top frame) or retTo.
func (st *State) invoke(fn Val, args []Val, call *ssa.CallCommon, site ssa.Instruction, ret ssa.Value, retTo func(*State, Val)) {
	x := st.x
	deliver := func(s *State, v Val) {
		if retTo != nil {
			retTo(s, v)
			return
		}
		if ret != nil && len(s.stack) > 0 {
			s.top().env[ret] = v
		}
	}
	switch cv := fn.(type) {
	case *ssa.Builtin:
		st.builtin(cv, args, call, site, deliver)
		return
	case methodRef:
		if !st.mustHold(x.c.Ne(cv.recv.id, x.c.I(0)), "method call on nil interface", site) {
			return
		}
		st.opaqueMethod(cv, args, site, deliver)
		return
	case FuncV:
		if cv.fn == nil {
			if cv.id == nil {
				st.mustHold(x.c.F, "call of nil function", site)
				return
			}
			unsupported("call of an unknown function value")
		}
		name := cv.fn.String()
		if h, ok := intrinsics[name]; ok {
			x.trusted[name] = true
			h(st, args, site, deliver)
			return
		}
		inMod := cv.fn.Pkg != nil && x.prog.inModule(cv.fn.Pkg.Pkg.Path()) || cv.fn.Synthetic != "" && cv.fn.Blocks != nil
		if inMod || cv.fn.Parent() != nil {
			if x.initMode && cv.fn.Name() == "init" && len(st.stack) > 0 {
				deliver(st, nil) // initialisers of imported packages are evaluated on demand
				return
			}
			if !x.initMode {
				if ct := x.modularContract(cv.fn); ct != nil {
					x.used[ct.name()] = true
					st.applyContract(ct, cv.fn, args, site, deliver)
					return
				}
				if x.tgt != nil && x.tgt.abstractCall != nil && x.tgt.abstractCall(st, cv.fn, args, site, deliver) {
					return
				}
			}
			x.inlined[fnKey(cv.fn)] = true
			key := ""
			if len(st.stack) > 0 {
				key = st.top().callKey
			}
			key = fmt.Sprintf("%s/%s.%d", key, cv.fn.Name(), siteIndex(site))
			st.checkRecursion(cv.fn)
			fr := st.pushFrame(cv.fn, args, cv.bind, key, retTo)
			fr.ret = ret
			return
		}
		if x.initMode && strings.HasSuffix(name, ".init") {
			deliver(st, nil)
			return
		}
		st.unknownCall(name, cv.fn.Signature, args, site, deliver)
		return
	}
	unsupported("call of %T", fn)
}

func (st *State) checkRecursion(fn *ssa.Function) {
	n := 0
	for _, f := range st.stack {
		if f.fn == fn {
			n++
		}
	}
	if n > 3 {
		unsupported("recursion in %s", fn)
	}
}

func siteIndex(in ssa.Instruction) int {
	if in == nil || in.Block() == nil {
		return 0
	}
	for i, x := range in.Block().Instrs {
		if x == in {
			return in.Block().Index*1000 + i
		}
	}
	return 0
}

func (st *State) symResult(name string, sig *types.Signature) Val {
	r := sig.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return st.freshRef(name, r.At(0).Type())
	}
	t := TupleV{}
	for i := 0; i < r.Len(); i++ {
		t.v = append(t.v, st.freshRef(fmt.Sprintf("%s.%d", name, i), r.At(i).Type()))
	}
	return t
}

// unknownCall: an external function without a model; arbitrary results, reachable arguments havocked
func (st *State) unknownCall(name string, sig *types.Signature, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
	st.x.trusted["unmodelled external call "+name+" (arbitrary results, arguments havocked, assumed not to panic)"] = true
	for _, a := range args {
		st.havocReach(a, "ext", 0)
	}
	deliver(st, st.symResult("ext:"+name, sig))
}

func (st *State) havocReach(v Val, name string, d int) {
	if d > 3 {
		return
	}
	empty := &loopInfo{refs: map[string]string{}}
	switch a := v.(type) {
	case PtrV:
		if a.obj != nil {
			st.store(a, st.havocVal(name, st.load(a), empty, ""))
		}
	case SliceV:
		if a.obj != nil {
			st.havocSlice(a, st.x.c.I(0), a.len, name)
		}
	case IfaceV:
		st.havocReach(a.v, name, d+1)
	}
}

// havocSlice: elements [lo,hi) of s become arbitrary
func (st *State) havocSlice(s SliceV, lo, hi *Term, name string) {
	x := st.x
	c := x.c
	if s.obj == nil {
		return
	}
	switch b := st.backing(s).(type) {
	case ArrV:
		fresh := c.Base(st.freshName("h:"+name), b.arr.ew)
		at := c.Add(s.off, lo)
		st.setBacking(s, ArrV{arr: c.CopyArr(b.arr, at, fresh, at, c.Sub(hi, lo)), n: b.n, elem: b.elem})
	case VecV:
		st.setBacking(s, st.havocVal(name, b, &loopInfo{refs: map[string]string{}}, ""))
	}
}
func (st *State) setBacking(s SliceV, v Val) {
	st.noteWrite(s.obj, s.path)
	st.heap[s.obj] = st.x.setPath(st.must(s.obj), s.path, v)
}

// ---- builtins

func (st *State) builtin(b *ssa.Builtin, args []Val, call *ssa.CallCommon, site ssa.Instruction, deliver func(*State, Val)) {
	x := st.x
	c := x.c
	switch b.Name() {
	case "len", "cap":
		switch a := args[0].(type) {
		case SliceV:
			if b.Name() == "len" {
				deliver(st, a.len)
			} else {
				deliver(st, a.cap)
			}
		case StrV:
			deliver(st, x.strLen(a))
		case MapRef:
			if a.obj == nil {
				deliver(st, c.I(0))
			} else {
				deliver(st, st.must(a.obj).(MapV).len)
			}
		case ArrV:
			deliver(st, a.n)
		case VecV:
			deliver(st, c.I(int64(len(a.v))))
		case PtrV:
			deliver(st, c.I(a.typ.Underlying().(*types.Array).Len()))
		case OpaqueV:
			l := st.freshVar("chanlen", 64)
			st.assume(c.Ule(l, c.I(maxLen)))
			deliver(st, l)
		default:
			unsupported("len of %T", a)
		}
	case "append":
		st.appendOp(args[0].(SliceV), args[1], site, deliver)
	case "copy":
		st.copyOp(args[0].(SliceV), args[1], deliver)
	case "close":
		st.event("close", map[string]SV{"ch": {args[0], nil}}, site)
		if len(st.stack) > 0 {
			deliver(st, nil)
		}
	case "recover":
		// only effective directly in a deferred function of a panicking frame
		n := len(st.stack)
		if n >= 2 && st.top().inDefer && st.stack[n-2].panicking && !st.stack[n-2].recovered {
			st.stack[n-2].recovered = true
			id := st.freshVar("panicvalue", 64)
			st.assume(c.Ne(id, c.I(0)))
			deliver(st, OpaqueV{id, nil})
		} else {
			deliver(st, OpaqueV{c.I(0), nil})
		}
	case "min", "max":
		r := args[0]
		_, sg, _ := width(call.Args[0].Type())
		for _, a := range args[1:] {
			rt, ok1 := r.(*Term)
			at, ok2 := a.(*Term)
			if !ok1 || !ok2 || isFloat(call.Args[0].Type()) {
				unsupported("min/max of %T", a)
			}
			var lt *Term
			if sg {
				lt = c.Slt(at, rt)
			} else {
				lt = c.Ult(at, rt)
			}
			if b.Name() == "max" {
				if sg {
					lt = c.Slt(rt, at)
				} else {
					lt = c.Ult(rt, at)
				}
			}
			r = c.Ite(lt, at, rt)
		}
		deliver(st, r)
	case "clear":
		s, ok := args[0].(SliceV)
		if !ok {
			unsupported("clear of %T", args[0])
		}
		if s.obj != nil {
			b, ok := st.backing(s).(ArrV)
			if !ok {
				unsupported("clear")
			}
			st.setBacking(s, ArrV{arr: c.CopyArr(b.arr, s.off, c.ConstArr(c.BV(0, b.arr.ew)), c.I(0), s.len), n: b.n, elem: b.elem})
		}
		deliver(st, nil)
	case "delete":
		m := args[0].(MapRef)
		if m.obj != nil {
			mv := st.must(m.obj).(MapV)
			st.noteWrite(m.obj, nil)
			l := st.freshVar("maplen", 64)
			st.assume(c.Or(c.Eq(l, mv.len), c.Eq(l, c.AddK(mv.len, -1))))
			st.heap[m.obj] = MapV{typ: mv.typ, opaque: true, version: st.freshName("mapver"), len: l}
		}
		deliver(st, nil)
	case "ssa:wrapnilchk":
		deliver(st, args[0])
	case "print", "println":
		deliver(st, nil)
	default:
		unsupported("builtin %s", b.Name())
	}
}

func (x *Exec) bytesOf(st *State, v Val) (*Arr, *Term, *Term) {
	switch s := v.(type) {
	case SliceV:
		return st.backingArr(s), s.off, s.len
	case StrV:
		return x.strParts(s)
	}
	unsupported("bytes of %T", v)
	return nil, nil, nil
}

// minTerm: min(a,b) for lengths, simplified by what the path knows
func (st *State) minTerm(a, b *Term) *Term {
	c := st.x.c
	if a == b {
		return a
	}
	le := c.Ule(a, b)
	if le.isTrue() || st.entails(le) {
		return a
	}
	if st.entails(c.Ule(b, a)) {
		return b
	}
	return c.Ite(le, a, b)
}

func (st *State) copyOp(d SliceV, src Val, deliver func(*State, Val)) {
	x := st.x
	c := x.c
	sa, so, sl := x.bytesOf(st, src)
	n := st.minTerm(d.len, sl)
	if d.obj == nil || n.isK(0) {
		deliver(st, n)
		return
	}
	switch b := st.backing(d).(type) {
	case ArrV:
		st.setBacking(d, ArrV{arr: c.CopyArr(b.arr, d.off, sa, so, n), n: b.n, elem: b.elem})
	case VecV:
		ss, ok := src.(SliceV)
		if !ok || !n.isConst() || !d.off.isConst() || !ss.off.isConst() {
			unsupported("copy of references")
		}
		r := VecV{elem: b.elem, v: append([]Val(nil), b.v...)}
		sv := st.backing(ss)
		for k := uint64(0); k < n.k; k++ {
			r.v[d.off.k+k] = x.arrayElem(sv, c.I(int64(ss.off.k+k)))
		}
		st.setBacking(d, r)
	default:
		unsupported("copy into %T", b)
	}
	deliver(st, n)
}

func (st *State) appendOp(s SliceV, add Val, site ssa.Instruction, deliver func(*State, Val)) {
	x := st.x
	c := x.c
	var n *Term
	switch a := add.(type) {
	case SliceV:
		n = a.len
	case StrV:
		n = x.strLen(a)
	default:
		unsupported("append of %T", add)
	}
	if n.isK(0) {
		deliver(st, s)
		return
	}
	nl := c.Add(s.len, n)
	fits := c.Ule(nl, s.cap)
	if s.obj == nil {
		fits = c.F
	}
	grow := func(g *State) {
		key := "append"
		if len(g.stack) > 0 {
			key = g.top().callKey + fmt.Sprintf("/append.%d", siteIndex(site))
		}
		cp := g.freshVar("cap", 64)
		g.assume(c.Ule(nl, cp))
		g.assume(c.Ule(cp, c.I(4*maxLen)))
		old := g.backing(s)
		o := g.newObj(key, types.NewSlice(s.elem), nil)
		_, oldVec := old.(VecV)
		_, sc, _ := width(s.elem)
		_ = sc
		if w, _, ok := width(s.elem); (ok && w > 0) || !oldVec && s.obj != nil {
			ew := 64
			if ok && w > 0 {
				ew = w
			}
			aa, ao, _ := x.bytesOf(g, add)
			arr := c.ConstArr(c.BV(0, ew))
			if s.obj != nil {
				arr = c.CopyArr(arr, c.I(0), g.backingArr(s), s.off, s.len)
			}
			arr = c.CopyArr(arr, s.len, aa, ao, n)
			g.heap[o] = ArrV{arr: arr, n: cp, elem: s.elem}
		} else if s.len.isConst() && n.isConst() {
			v := VecV{elem: s.elem}
			for k := uint64(0); k < s.len.k; k++ {
				v.v = append(v.v, x.arrayElem(old, c.I(int64(s.off.k+k))))
			}
			as := add.(SliceV)
			av := g.backing(as)
			for k := uint64(0); k < n.k; k++ {
				v.v = append(v.v, x.arrayElem(av, c.AddK(as.off, int64(k))))
			}
			g.heap[o] = v
			cp = nl
		} else {
			unsupported("append of references")
		}
		deliver(g, SliceV{obj: o, off: c.I(0), len: nl, cap: cp, nilc: c.F, elem: s.elem})
	}
	inplace := func(g *State) {
		switch b := g.backing(s).(type) {
		case ArrV:
			aa, ao, _ := x.bytesOf(g, add)
			g.setBacking(s, ArrV{arr: c.CopyArr(b.arr, c.Add(s.off, s.len), aa, ao, n), n: b.n, elem: b.elem})
		default:
			unsupported("append in place of references")
		}
		deliver(g, SliceV{obj: s.obj, path: s.path, off: s.off, len: nl, cap: s.cap, nilc: s.nilc, elem: s.elem})
	}
	a, b := true, true
	if fits.isConst() {
		a, b = fits.isTrue(), fits.isFalse()
	} else {
		a = st.feasible(fits)
		b = !a || st.feasible(c.Not(fits))
	}
	if a && b {
		g := st.clone()
		g.assume(c.Not(fits))
		g.trail = append(g.trail, "append reallocates at "+st.pos(site))
		// n may be zero: then append returns its argument unchanged
		grow(g)
		x.work = append(x.work, g)
		st.assume(fits)
		st.trail = append(st.trail, "append in place at "+st.pos(site))
		inplace(st)
		return
	}
	if a {
		st.assume(fits)
		inplace(st)
	} else {
		st.assume(c.Not(fits))
		grow(st)
	}
}

// ---- opaque interface methods

// pure: deterministic observers, modelled as uninterpreted functions of receiver and arguments
var pureMethods = map[string]bool{
	"mavlink2.Frame.GetVersion": true, "mavlink2.Frame.GetMessageLength": true, "mavlink2.Frame.GetMessageSequence": true,
	"mavlink2.Frame.GetSenderSystemID": true, "mavlink2.Frame.GetSenderComponentID": true, "mavlink2.Frame.GetMessageBytes": true,
	"mavlink2.Frame.GetMessageID": true, "mavlink2.Frame.GetChecksum": true, "mavlink2.Frame.GetChecksumInput": true, "mavlink2.Frame.Bytes": true,
	"mavlink2.Dialect.GetMeta": true, "mavlink2.Dialect.GetMessage": true,
	"mavlink2.Message.GetVersion": true, "mavlink2.Message.GetDialect": true, "mavlink2.Message.GetMessageName": true,
	"mavlink2.Message.GetID": true, "mavlink2.Message.Write": true,
	"context.Context.Done": true,
}

// methods whose []byte argument is only read (documented contract of the interface)
var readOnlyArgs = map[string]bool{"Write": true, "WriteTo": true, "LogRead": true, "LogWritten": true, "WriteString": true}

func (st *State) opaqueMethod(m methodRef, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
	x := st.x
	sig := m.method.Type().(*types.Signature)
	name := m.iface + "." + m.method.Name()
	var res Val
	if pureMethods[name] {
		x.trusted["interface method "+name+" (deterministic, no side effects)"] = true
		res = st.pureCall(name, m.recv, sig, args)
	} else {
		x.trusted["interface method "+name+" (arbitrary results)"] = true
		res = st.symResult("res:"+m.method.Name(), sig)
		for _, a := range args {
			if !readOnlyArgs[m.method.Name()] {
				st.havocReach(a, "arg:"+m.method.Name(), 0)
			}
		}
		st.ioBounds(m.method.Name(), args, res)
	}
	ev := map[string]SV{"recv": {m.recv, m.recv.typ}}
	for i, a := range args {
		ev[fmt.Sprintf("arg%d", i)] = SV{a, sig.Params().At(i).Type()}
	}
	if sig.Results().Len() == 1 {
		ev["ret0"] = SV{res, sig.Results().At(0).Type()}
	} else if t, ok := res.(TupleV); ok {
		for i, r := range t.v {
			ev[fmt.Sprintf("ret%d", i)] = SV{r, sig.Results().At(i).Type()}
		}
	}
	st.event("call "+m.method.Name(), ev, site)
	if len(st.stack) > 0 {
		deliver(st, res)
	}
}

// ioBounds: 0 <= n <= len(p) for the io methods
func (st *State) ioBounds(name string, args []Val, res Val) {
	c := st.x.c
	switch name {
	case "Read", "Write", "ReadFrom", "WriteTo":
		if len(args) == 0 {
			return
		}
		s, ok := args[0].(SliceV)
		t, ok2 := res.(TupleV)
		if !ok || !ok2 {
			return
		}
		n := t.v[0].(*Term)
		st.assume(c.And(c.Sle(c.I(0), n), c.Sle(n, s.len)))
	}
}

func (st *State) pureCall(name string, recv Val, sig *types.Signature, args []Val) Val {
	x := st.x
	c := x.c
	ids := []*Term{x.refID(recv)}
	key := ""
	for _, a := range args {
		switch t := a.(type) {
		case *Term:
			ids = append(ids, t)
		default:
			ids = append(ids, x.refID(a))
		}
	}
	for _, i := range ids {
		key += fmt.Sprintf(",%d", i.id)
	}
	var mk func(n string, t types.Type) Val
	mk = func(n string, t types.Type) Val {
		if w, _, ok := width(t); ok {
			return c.App(n, w, ids...)
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			s := StructV{typ: t}
			for i := 0; i < u.NumFields(); i++ {
				s.f = append(s.f, mk(n+"."+u.Field(i).Name(), u.Field(i).Type()))
			}
			return s
		case *types.Interface, *types.Chan, *types.Pointer:
			return OpaqueV{c.App(n, 64, ids...), t}
		case *types.Slice:
			k := n + key
			o := st.opq[k]
			l := c.App("len:"+n, 64, ids...)
			cp := c.App("cap:"+n, 64, ids...)
			nl := c.App("nil:"+n, 0, ids...)
			st.assume(c.Ule(l, cp))
			st.assume(c.Ule(cp, c.I(maxLen)))
			st.assume(c.Implies(nl, c.Eq(cp, c.I(0))))
			if o == nil {
				o = &Obj{key: "o:" + k, typ: t, pre: true}
				st.opq[k] = o
				st.heap[o] = st.symArray("mem:"+k, u.Elem(), cp)
				for _, f := range st.stack {
					for _, al := range f.loops {
						al.heap0[o] = st.heap[o]
					}
				}
			}
			return SliceV{obj: o, off: c.I(0), len: l, cap: cp, nilc: nl, elem: u.Elem()}
		}
		if isString(t) {
			l := c.App("len:"+n, 64, ids...)
			st.assume(c.Ule(l, c.I(maxLen)))
			return StrV{arr: c.Base("str:"+n+key, 8), off: c.I(0), len: l}
		}
		unsupported("pure result %s", t)
		return nil
	}
	r := sig.Results()
	if r.Len() == 1 {
		return mk(name, r.At(0).Type())
	}
	t := TupleV{}
	for i := 0; i < r.Len(); i++ {
		t.v = append(t.v, mk(fmt.Sprintf("%s#%d", name, i), r.At(i).Type()))
	}
	return t
}

// ---- channels

type selSet struct{ recvs, sends []Val }

func (st *State) chanSend(f *Frame, chv ssa.Value, v Val, in ssa.Instruction, sel bool) {
	et := chv.Type().Underlying().(*types.Chan).Elem()
	st.event("send", map[string]SV{"ch": {st.val(f, chv), chv.Type()}, "v": {v, et}, "sel": {selSet{}, nil}}, in)
}

func (st *State) doSelect(f *Frame, i *ssa.Select) {
	x := st.x
	c := x.c
	// result: (index int, recvOk bool, r_0, ..., r_n-1)
	var ss selSet
	for _, s := range i.States {
		if s.Dir == types.SendOnly {
			ss.sends = append(ss.sends, st.val(f, s.Chan))
		} else {
			ss.recvs = append(ss.recvs, st.val(f, s.Chan))
		}
	}
	nrecv := len(ss.recvs)
	recvTypes := []types.Type{}
	for _, s := range i.States {
		if s.Dir != types.SendOnly {
			recvTypes = append(recvTypes, s.Chan.Type().Underlying().(*types.Chan).Elem())
		}
	}
	mk := func(idx int64, ok *Term, rk int, v Val) Val {
		t := TupleV{v: []Val{c.I(idx), ok}}
		for j := 0; j < nrecv; j++ {
			if j == rk {
				t.v = append(t.v, v)
			} else {
				t.v = append(t.v, x.zero(recvTypes[j]))
			}
		}
		return t
	}
	type branch struct{ run func(s *State) }
	var brs []func(s *State)
	rk := -1
	for k, s := range i.States {
		k, s := k, s
		if s.Dir == types.SendOnly {
			brs = append(brs, func(n *State) {
				fr := n.top()
				et := s.Chan.Type().Underlying().(*types.Chan).Elem()
				n.event("send", map[string]SV{"ch": {n.val(fr, s.Chan), s.Chan.Type()}, "v": {n.val(fr, s.Send), et}, "sel": {ss, nil}}, i)
				if len(n.stack) > 0 {
					n.top().env[i] = mk(int64(k), c.F, -1, nil)
				}
			})
		} else {
			rk++
			r := rk
			brs = append(brs, func(n *State) {
				fr := n.top()
				et := recvTypes[r]
				v := n.freshRef("recv", et)
				ok := n.freshVar("recvok", 0)
				n.event("recv", map[string]SV{"ch": {n.val(fr, s.Chan), s.Chan.Type()}, "v": {v, et}, "ok": {ok, types.Typ[types.Bool]}, "sel": {ss, nil}}, i)
				if len(n.stack) > 0 {
					n.top().env[i] = mk(int64(k), ok, r, v)
				}
			})
		}
	}
	if !i.Blocking {
		brs = append(brs, func(n *State) {
			for _, ch := range ss.recvs {
				n.event("notready", map[string]SV{"ch": {ch, nil}}, i)
			}
			n.top().env[i] = mk(-1, c.F, -1, nil)
		})
	}
	for k := 1; k < len(brs); k++ {
		n := st.clone()
		n.trail = append(n.trail, fmt.Sprintf("select case %d at %s", k, st.pos(i)))
		brs[k](n)
		if len(n.stack) > 0 {
			x.work = append(x.work, n)
		}
	}
	st.trail = append(st.trail, fmt.Sprintf("select case 0 at %s", st.pos(i)))
	brs[0](st)
}

// applied on stores and loads so that contracts can watch fields
func (st *State) storeEvent(p PtrV, v Val, in ssa.Instruction) {
	if st.x.tgt == nil || !st.x.tgt.watch {
		return
	}
	st.event("store", map[string]SV{"addr": {p, types.NewPointer(p.typ)}, "v": {v, p.typ}}, in)
}
func (st *State) loadEvent(p PtrV, in ssa.Instruction) {
	if st.x.tgt == nil || !st.x.tgt.watch {
		return
	}
	st.event("load", map[string]SV{"addr": {p, types.NewPointer(p.typ)}}, in)
}
