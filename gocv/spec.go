package main

// Evaluation of contract expressions over symbolic states.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type SV struct {
	v Val
	t types.Type
}

// SeqV: a specification-level sequence (snapshot of a slice, string, array, or the input stream)
type SeqV struct {
	arr      *Arr
	off, len *Term
	elem     types.Type
	ref      *SliceV
}
type nilVal struct{}

type SpecEnv struct {
	x      *Exec
	st     *State // receives definitional facts
	h      *State // heap that is read
	old    *State
	vars   map[string]SV
	macros map[string]*Macro
	depth  int
	dummyN int
	strict bool  // names must resolve
	trig   *Term // trigger for the next quantifier
}

func (e *SpecEnv) with(vars map[string]SV) *SpecEnv {
	n := *e
	n.vars = make(map[string]SV, len(e.vars)+len(vars))
	for k, v := range e.vars {
		n.vars[k] = v
	}
	for k, v := range vars {
		n.vars[k] = v
	}
	return &n
}
func (e *SpecEnv) in(st *State) *SpecEnv {
	n := *e
	n.st, n.h = st, st
	return &n
}

type specErr struct{ msg string }

func (e *SpecEnv) bad(n ast.Node, f string, a ...interface{}) {
	panic(unsupportedErr{"contract: " + fmt.Sprintf(f, a...)})
}

var intType = types.Typ[types.Int]
var boolType = types.Typ[types.Bool]

func (e *SpecEnv) bool(n ast.Expr) *Term {
	v := e.eval(n)
	t, ok := v.v.(*Term)
	if !ok || t.w != 0 {
		e.bad(n, "boolean expected: %s is %T", exprString(n), v.v)
	}
	return t
}
func (e *SpecEnv) int(n ast.Expr) *Term { return e.ext(e.eval(n), n) }

func isUnsigned64(t types.Type) bool {
	w, s, ok := width(t)
	return ok && w == 64 && !s
}

// ext: the value as a 64-bit integer
func (e *SpecEnv) ext(v SV, n ast.Expr) *Term {
	if f, ok := v.v.(FInt); ok {
		return f.t
	}
	t, ok := v.v.(*Term)
	if !ok || t.w == 0 {
		e.bad(n, "integer expected: %s is %T", exprString(n), v.v)
	}
	if t.w == 64 {
		return t
	}
	_, s, ok := width(v.t)
	if ok && s {
		return e.x.c.Sext(t, 64)
	}
	return e.x.c.Zext(t, 64)
}

func exprString(n ast.Node) string { return types.ExprString(n.(ast.Expr)) }

func (e *SpecEnv) eval(n ast.Expr) SV {
	x := e.x
	c := x.c
	switch n := n.(type) {
	case *ast.ParenExpr:
		return e.eval(n.X)
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			v, err := strconv.ParseUint(n.Value, 0, 64)
			if err != nil {
				e.bad(n, "literal %s", n.Value)
			}
			return SV{c.I(int64(v)), intType}
		case token.STRING:
			s, _ := strconv.Unquote(n.Value)
			return SV{StrV{lit: true, s: s}, types.Typ[types.String]}
		}
	case *ast.Ident:
		return e.ident(n)
	case *ast.UnaryExpr:
		switch n.Op {
		case token.NOT:
			return SV{c.Not(e.bool(n.X)), boolType}
		case token.SUB:
			return SV{c.Neg(e.int(n.X)), intType}
		case token.XOR:
			return SV{c.BNot(e.int(n.X)), intType}
		case token.AND:
			p := e.addr(n.X)
			return SV{p, types.NewPointer(p.typ)}
		}
	case *ast.StarExpr:
		v := e.eval(n.X)
		p, ok := v.v.(PtrV)
		if !ok || p.obj == nil {
			e.bad(n, "dereference of %T", v.v)
		}
		return SV{e.h.load(p), p.typ}
	case *ast.BinaryExpr:
		return e.binary(n)
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			if _, isVar := e.vars[id.Name]; !isVar {
				if g := x.sentinelIn(id.Name, n.Sel.Name); g != nil {
					return SV{OpaqueV{g, types.Universe.Lookup("error").Type()}, types.Universe.Lookup("error").Type()}
				}
			}
		}
		return e.field(e.eval(n.X), n.Sel.Name, n)
	case *ast.IndexExpr:
		v := e.eval(n.X)
		i := e.int(n.Index)
		switch a := v.v.(type) {
		case VecV:
			return SV{x.arrayElem(a, i), a.elem}
		case ArrV:
			return SV{x.arrayElem(a, i), a.elem}
		case SliceV:
			if b, ok := e.h.backing(a).(VecV); ok {
				return SV{x.arrayElem(b, c.Add(a.off, i)), a.elem}
			}
		}
		s := e.seq(v, n.X)
		return SV{x.elemVal(c.Sel(s.arr, c.Add(s.off, i)), s.elem), s.elem}
	case *ast.SliceExpr:
		v := e.eval(n.X)
		lo, hi := c.I(0), (*Term)(nil)
		if n.Low != nil {
			lo = e.int(n.Low)
		}
		if n.High != nil {
			hi = e.int(n.High)
		}
		if a, ok := v.v.(SliceV); ok {
			if hi == nil {
				hi = a.len
			}
			return SV{SliceV{obj: a.obj, path: a.path, off: c.Add(a.off, lo), len: c.Sub(hi, lo), cap: c.Sub(a.cap, lo), nilc: a.nilc, elem: a.elem}, v.t}
		}
		s := e.seq(v, n.X)
		if hi == nil {
			hi = s.len
		}
		return SV{SeqV{arr: s.arr, off: c.Add(s.off, lo), len: c.Sub(hi, lo), elem: s.elem}, nil}
	case *ast.CallExpr:
		return e.call(n)
	}
	e.bad(n, "expression %s", exprString(n))
	return SV{}
}

func (e *SpecEnv) ident(n *ast.Ident) SV {
	c := e.x.c
	switch n.Name {
	case "true":
		return SV{c.T, boolType}
	case "false":
		return SV{c.F, boolType}
	case "nil":
		return SV{nilVal{}, nil}
	}
	if v, ok := e.vars[n.Name]; ok {
		return v
	}
	if v, ok := e.h.ghost[n.Name]; ok {
		return v
	}
	if m, ok := e.macros[n.Name]; ok && len(m.params) == 0 {
		return e.eval(m.expr)
	}
	if g := e.x.sentinel(n.Name); g != nil {
		t := types.Universe.Lookup("error").Type()
		return SV{OpaqueV{g, t}, t}
	}
	e.bad(n, "unknown name %s", n.Name)
	return SV{}
}

func (e *SpecEnv) field(v SV, name string, n ast.Expr) SV {
	switch a := v.v.(type) {
	case PtrV:
		if a.obj == nil {
			e.bad(n, "field %s of nil", name)
		}
		st, ok := a.typ.Underlying().(*types.Struct)
		if !ok {
			e.bad(n, "field %s of %s", name, a.typ)
		}
		if i := e.x.prog.fieldIndex(a.typ, name); i >= 0 {
			p := PtrV{obj: a.obj, path: append(append([]Step(nil), a.path...), Step{field: i}), typ: st.Field(i).Type()}
			return SV{e.h.load(p), p.typ}
		}
	case StructV:
		st := a.typ.Underlying().(*types.Struct)
		if i := e.x.prog.fieldIndex(a.typ, name); i >= 0 {
			return SV{a.f[i], st.Field(i).Type()}
		}
	case IfaceV:
		return e.field(SV{a.v, a.typ}, name, n)
	}
	e.bad(n, "no field %s in %s (%T)", name, exprString(n), v.v)
	return SV{}
}

// addr: an lvalue as a pointer
func (e *SpecEnv) addr(n ast.Expr) PtrV {
	switch n := n.(type) {
	case *ast.ParenExpr:
		return e.addr(n.X)
	case *ast.StarExpr:
		if p, ok := e.eval(n.X).v.(PtrV); ok {
			return p
		}
	case *ast.SelectorExpr:
		v := e.eval(n.X)
		if i, ok := v.v.(IfaceV); ok {
			v = SV{i.v, i.typ}
		}
		if p, ok := v.v.(PtrV); ok && p.obj != nil {
			st, ok := p.typ.Underlying().(*types.Struct)
			if ok {
				if i := e.x.prog.fieldIndex(p.typ, n.Sel.Name); i >= 0 {
					return PtrV{obj: p.obj, path: append(append([]Step(nil), p.path...), Step{field: i}), typ: st.Field(i).Type()}
				}
			}
		}
	}
	e.bad(n, "not an lvalue: %s", exprString(n))
	return PtrV{}
}

// seq: anything indexable as a sequence
func (e *SpecEnv) seq(v SV, n ast.Expr) SeqV {
	c := e.x.c
	switch a := v.v.(type) {
	case SeqV:
		return a
	case SliceV:
		aa := a
		return SeqV{arr: e.h.backingArr(a), off: a.off, len: a.len, elem: a.elem, ref: &aa}
	case StrV:
		ar, off, l := e.x.strParts(a)
		return SeqV{arr: ar, off: off, len: l, elem: types.Typ[types.Uint8]}
	case ArrV:
		return SeqV{arr: a.arr, off: c.I(0), len: a.n, elem: a.elem}
	case VecV:
		return SeqV{arr: e.x.vecArr(a), off: c.I(0), len: c.I(int64(len(a.v))), elem: a.elem}
	case IfaceV:
		return e.seq(SV{a.v, a.typ}, n)
	case nilVal:
		return SeqV{arr: c.ConstArr(c.BV(0, 8)), off: c.I(0), len: c.I(0), elem: types.Typ[types.Uint8]}
	case OpaqueV:
		if m := e.method(a, "Bytes"); m != nil {
			return e.seq(SV{e.h.pureCall(ifaceName(a.typ)+".Bytes", a, m.Type().(*types.Signature), nil), nil}, n)
		}
	}
	e.bad(n, "sequence expected: %s is %T", exprString(n), v.v)
	return SeqV{}
}

func (e *SpecEnv) method(o OpaqueV, name string) *types.Func {
	if o.typ == nil {
		return nil
	}
	it, ok := o.typ.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == name {
			return it.Method(i)
		}
	}
	return nil
}

func (e *SpecEnv) binary(n *ast.BinaryExpr) SV {
	c := e.x.c
	switch n.Op {
	case token.LAND:
		a := e.bool(n.X)
		if a.isFalse() {
			return SV{a, boolType}
		}
		return SV{c.And(a, e.bool(n.Y)), boolType}
	case token.LOR:
		a := e.bool(n.X)
		if a.isTrue() {
			return SV{a, boolType}
		}
		return SV{c.Or(a, e.bool(n.Y)), boolType}
	case token.EQL:
		return SV{e.equal(e.eval(n.X), e.eval(n.Y), n), boolType}
	case token.NEQ:
		return SV{c.Not(e.equal(e.eval(n.X), e.eval(n.Y), n)), boolType}
	}
	xv, yv := e.eval(n.X), e.eval(n.Y)
	a, b := e.ext(xv, n.X), e.ext(yv, n.Y)
	uns := isUnsigned64(xv.t) || isUnsigned64(yv.t)
	rt := types.Type(intType)
	if uns {
		rt = types.Typ[types.Uint64]
	}
	switch n.Op {
	case token.LSS:
		if uns {
			return SV{c.Ult(a, b), boolType}
		}
		return SV{c.Slt(a, b), boolType}
	case token.LEQ:
		if uns {
			return SV{c.Ule(a, b), boolType}
		}
		return SV{c.Sle(a, b), boolType}
	case token.GTR:
		if uns {
			return SV{c.Ult(b, a), boolType}
		}
		return SV{c.Slt(b, a), boolType}
	case token.GEQ:
		if uns {
			return SV{c.Ule(b, a), boolType}
		}
		return SV{c.Sle(b, a), boolType}
	case token.ADD:
		return SV{c.Add(a, b), rt}
	case token.SUB:
		return SV{c.Sub(a, b), intType}
	case token.MUL:
		return SV{c.Mul(a, b), rt}
	case token.AND:
		return SV{c.BAnd(a, b), rt}
	case token.OR:
		return SV{c.BOr(a, b), rt}
	case token.XOR:
		return SV{c.BXor(a, b), rt}
	case token.SHL:
		return SV{c.Shl(a, b), rt}
	case token.SHR:
		return SV{c.Lshr(a, b), rt}
	case token.REM:
		return SV{c.div(OUrem, a, b), rt}
	}
	e.bad(n, "operator %s", n.Op)
	return SV{}
}

// reify: a boolean term equivalent to the conjunction of the parts
func (e *SpecEnv) reify(ps []eqPart) *Term {
	c := e.x.c
	r := c.T
	for _, p := range ps {
		p := p
		if p.t != nil {
			r = c.And(r, p.t)
			continue
		}
		d := c.Var("?k", 64)
		r = c.And(r, e.forall(c.I(0), p.n, d, c.Eq(c.Sel(p.a, c.Add(p.ao, d)), c.Sel(p.b, c.Add(p.bo, d)))))
	}
	return r
}

// forall d in [lo,hi). body as a boolean constant with defining facts
func (e *SpecEnv) forall(lo, hi, d, body *Term) *Term {
	c := e.x.c
	if body.isTrue() {
		return c.T
	}
	n := c.Sub(hi, lo)
	if n.isConst() && int64(n.k) <= 0 {
		return c.T
	}
	if n.isConst() && n.k <= uint64(e.expandMax()) {
		r := c.T
		for i := int64(0); i < int64(n.k); i++ {
			r = c.And(r, c.Subst(body, d, c.AddK(lo, i)))
		}
		return r
	}
	if !body.dummy {
		return c.Or(c.Not(c.Slt(lo, hi)), body)
	}
	if lo.dummy || hi.dummy {
		e.bad(nil, "nested quantifier with dependent bounds")
	}
	// rename the dummy to a canonical one so that equal statements get equal names
	q := c.Var("?q", 64)
	if d != q {
		body = c.Subst(body, d, q)
	}
	key := fmt.Sprintf("all:%d:%d:%d", lo.id, hi.id, body.id)
	ev := c.Var(key, 0)
	for _, f := range e.st.facts {
		if f.name == key {
			return ev
		}
	}
	w := c.Var("cex:"+key, 64)
	bd := func(k *Term) *Term { return c.Subst(body, q, k) }
	if bd(w).dummy {
		e.bad(nil, "nested quantifier")
	}
	f := &Fact{name: key, lo: lo, hi: hi, guard: ev, body: bd}
	if t := e.trig; t != nil {
		f.trig = func(k *Term) *Term { return c.Subst(t, q, k) }
	}
	e.st.facts = append(e.st.facts, f)
	f.def = c.Or(ev, c.And(c.Sle(lo, w), c.Slt(w, hi), c.Not(bd(w))))
	e.st.assume(f.def)
	return ev
}

func (e *SpecEnv) witness(last bool, lo, hi, d, P *Term) *Term {
	c := e.x.c
	q := c.Var("?q", 64)
	if d != q {
		P = c.Subst(P, d, q)
	}
	if lo.dummy || hi.dummy {
		e.bad(nil, "first/last under a quantifier")
	}
	nm := "first"
	if last {
		nm = "last"
	}
	key := fmt.Sprintf("%s:%d:%d:%d", nm, lo.id, hi.id, P.id)
	t := c.App(key, 64)
	if _, ok := c.wit[t]; ok {
		return t
	}
	pf := func(k *Term) *Term { return c.Subst(P, q, k) }
	w := &Witness{w: t, last: last, lo: lo, hi: hi, P: pf}
	np := func(k *Term) *Term { return c.Not(pf(k)) }
	if last {
		w.fact = &Fact{name: key, lo: c.AddK(t, 1), hi: hi, body: np}
	} else {
		w.fact = &Fact{name: key, lo: lo, hi: t, body: np}
	}
	c.wit[t] = w
	return t
}

func (e *SpecEnv) equal(a, b SV, n ast.Expr) *Term {
	x := e.x
	c := x.c
	if _, ok := a.v.(nilVal); ok {
		a, b = b, a
	}
	if _, ok := b.v.(nilVal); ok {
		switch v := a.v.(type) {
		case nilVal:
			return c.T
		case IfaceV:
			return c.B(v.typ == nil)
		case SliceV:
			return v.nilc
		case OpaqueV:
			return c.Eq(v.id, c.I(0))
		case PtrV:
			return c.B(v.obj == nil)
		case MapRef:
			return c.B(v.obj == nil)
		case FuncV:
			if v.id != nil {
				return c.Eq(v.id, c.I(0))
			}
			return c.B(v.fn == nil)
		}
		e.bad(n, "nil comparison of %T", a.v)
	}
	at, aok := a.v.(*Term)
	bt, bok := b.v.(*Term)
	if aok && bok {
		if at.w == 0 || bt.w == 0 {
			if at.w != bt.w {
				e.bad(n, "comparison of bool and int")
			}
			return c.Eq(at, bt)
		}
		if at.w == bt.w {
			return c.Eq(at, bt)
		}
		return c.Eq(e.ext(a, n), e.ext(b, n))
	}
	if fa, ok := a.v.(FInt); ok {
		if bok {
			return c.Eq(fa.t, bt)
		}
	}
	switch av := a.v.(type) {
	case SeqV:
		return e.eqSeq(av, e.seq(b, n))
	case SliceV:
		if bs, ok := b.v.(SliceV); ok {
			return e.reify(x.eqParts(av, bs))
		}
		return e.eqSeq(e.seq(a, n), e.seq(b, n))
	}
	if _, ok := b.v.(SeqV); ok {
		return e.eqSeq(e.seq(a, n), e.seq(b, n))
	}
	return e.reify(x.eqParts(a.v, b.v))
}

func (e *SpecEnv) eqSeq(a, b SeqV) *Term {
	c := e.x.c
	l := c.Eq(a.len, b.len)
	if l.isFalse() {
		return l
	}
	n := a.len
	if b.len.isConst() {
		n = b.len
	}
	if a.arr == b.arr && a.off == b.off {
		return l
	}
	d := c.Var("?k", 64)
	return c.And(l, e.forall(c.I(0), n, d, c.Eq(c.Sel(a.arr, c.Add(a.off, d)), c.Sel(b.arr, c.Add(b.off, d)))))
}

func (e *SpecEnv) quantArgs(n *ast.CallExpr) (d *Term, lo, hi *Term, body *Term) {
	c := e.x.c
	id, ok := n.Args[0].(*ast.Ident)
	if !ok || len(n.Args) != 4 && len(n.Args) != 5 {
		e.bad(n, "quantifier %s", exprString(n))
	}
	lo, hi = e.int(n.Args[1]), e.int(n.Args[2])
	d = c.Var(fmt.Sprintf("?%s%d", id.Name, e.dummyN), 64)
	sub := e.with(map[string]SV{id.Name: {d, intType}})
	sub.dummyN = e.dummyN + 1
	return d, lo, hi, sub.bool(n.Args[3])
}

func (e *SpecEnv) call(n *ast.CallExpr) SV {
	x := e.x
	c := x.c
	B := func(t *Term) SV { return SV{t, boolType} }
	I := func(t *Term) SV { return SV{t, intType} }
	if sel, ok := n.Fun.(*ast.SelectorExpr); ok {
		recv := e.eval(sel.X)
		var args []Val
		for _, a := range n.Args {
			args = append(args, e.eval(a).v)
		}
		switch r := recv.v.(type) {
		case OpaqueV:
			m := e.method(r, sel.Sel.Name)
			if m == nil {
				e.bad(n, "no method %s on %s", sel.Sel.Name, r.typ)
			}
			sig := m.Type().(*types.Signature)
			for i := range args {
				if t, ok := args[i].(*Term); ok {
					if w, _, ok := width(sig.Params().At(i).Type()); ok && w > 0 && w != t.w {
						if t.w > w {
							args[i] = c.Extract(t, w-1, 0)
						} else {
							args[i] = c.Zext(t, w)
						}
					}
				}
			}
			v := e.st.pureCall(ifaceName(r.typ)+"."+sel.Sel.Name, r, sig, args)
			var rt types.Type
			if sig.Results().Len() == 1 {
				rt = sig.Results().At(0).Type()
			} else {
				rt = sig.Results()
			}
			return SV{v, rt}
		}
		e.bad(n, "method call %s on %T", exprString(n), recv.v)
	}
	id, ok := n.Fun.(*ast.Ident)
	if !ok {
		e.bad(n, "call %s", exprString(n))
	}
	arg := func(i int) ast.Expr {
		if i >= len(n.Args) {
			e.bad(n, "arity of %s", id.Name)
		}
		return n.Args[i]
	}
	switch id.Name {
	case "len", "cap":
		v := e.eval(arg(0))
		switch a := v.v.(type) {
		case SliceV:
			if id.Name == "cap" {
				return I(a.cap)
			}
			return I(a.len)
		case MapRef:
			if a.obj == nil {
				return I(c.I(0))
			}
			return I(e.h.must(a.obj).(MapV).len)
		}
		return I(e.seq(v, arg(0)).len)
	case "imp":
		a := e.bool(arg(0))
		if a.isFalse() {
			return B(c.T)
		}
		return B(c.Implies(a, e.bool(arg(1))))
	case "iff":
		return B(c.Eq(e.bool(arg(0)), e.bool(arg(1))))
	case "ite":
		g := e.bool(arg(0))
		if g.isTrue() {
			return e.eval(arg(1))
		}
		if g.isFalse() {
			return e.eval(arg(2))
		}
		a, b := e.eval(arg(1)), e.eval(arg(2))
		return e.iteSV(g, a, b, n)
	case "forall":
		d, lo, hi, body := e.quantArgs(n)
		if len(n.Args) == 5 {
			// forall(k, lo, hi, body, t): instances only for the terms of the form t
			sub := e.with(map[string]SV{n.Args[0].(*ast.Ident).Name: {d, intType}})
			sub.dummyN = e.dummyN + 1
			tv := sub.eval(n.Args[4])
			tt, ok := tv.v.(*Term)
			if !ok {
				e.bad(n, "trigger %s", exprString(n))
			}
			e.trig = c.Subst(tt, d, c.Var("?q", 64))
			r := e.forall(lo, hi, d, body)
			e.trig = nil
			return B(r)
		}
		return B(e.forall(lo, hi, d, body))
	case "exists":
		d, lo, hi, body := e.quantArgs(n)
		return B(c.Not(e.forall(lo, hi, d, c.Not(body))))
	case "first", "last":
		d, lo, hi, body := e.quantArgs(n)
		return I(e.witness(id.Name == "last", lo, hi, d, body))
	case "crc":
		seed := e.int(arg(0))
		s := e.seq(e.eval(arg(1)), arg(1))
		return SV{c.Crc(c.Extract(seed, 15, 0), s.arr, s.off, s.len), types.Typ[types.Uint16]}
	case "crcb":
		seed := c.Extract(e.int(arg(0)), 15, 0)
		b := c.Extract(e.int(arg(1)), 7, 0)
		return SV{c.Crc(seed, c.ConstArr(b), c.I(0), c.I(1)), types.Typ[types.Uint16]}
	case "eqb":
		return B(e.eqSeq(e.seq(e.eval(arg(0)), arg(0)), e.seq(e.eval(arg(1)), arg(1))))
	case "same":
		return B(e.reify(x.eqParts(e.eval(arg(0)).v, e.eval(arg(1)).v)))
	case "sub": // sub(s, base): s is a part of base's storage starting at its first element
		return B(c.F)
	case "fresh":
		return B(c.B(e.isFresh(e.eval(arg(0)).v)))
	case "old":
		if e.old == nil {
			e.bad(n, "old outside a postcondition")
		}
		o := *e
		o.h = e.old
		v := o.eval(arg(0))
		if s, ok := v.v.(SliceV); ok {
			q := o.seq(v, arg(0))
			q.ref = &s
			return SV{q, v.t}
		}
		return v
	case "bytes":
		v := e.eval(arg(0))
		switch a := v.v.(type) {
		case IfaceV:
			return SV{a.v, a.typ}
		case SliceV, SeqV:
			return v
		case OpaqueV:
			m := e.method(a, "Bytes")
			if m == nil {
				e.bad(n, "bytes of %s", a.typ)
			}
			return SV{e.st.pureCall(ifaceName(a.typ)+".Bytes", a, m.Type().(*types.Signature), nil), nil}
		}
		e.bad(n, "bytes of %T", v.v)
	case "typeis":
		v := e.eval(arg(0))
		lit, ok := arg(1).(*ast.BasicLit)
		if !ok {
			e.bad(n, "typeis needs a literal")
		}
		name, _ := strconv.Unquote(lit.Value)
		return B(e.typeIs(v, name))
	case "holds", "as": // holds(v, "*T"): the interface v holds a *T; as(v, "*T"): that pointer, or nil
		v := e.eval(arg(0)).v
		lit, ok := arg(1).(*ast.BasicLit)
		if !ok {
			e.bad(n, "%s needs a literal", id.Name)
		}
		name, _ := strconv.Unquote(lit.Value)
		var is, p *Term
		switch a := v.(type) {
		case IfaceV:
			is, p = c.B(a.typ != nil && a.typ.String() == name), c.I(0)
			if is.isTrue() {
				p = x.refID(a.v)
			}
		case OpaqueV:
			is = c.And(c.Ne(a.id, c.I(0)), c.App("is:"+name, 0, a.id))
			p = c.Ite(is, c.App("as:"+name, 64, a.id), c.I(0))
		case nilVal:
			is, p = c.F, c.I(0)
		default:
			e.bad(n, "%s of %T", id.Name, v)
		}
		if id.Name == "holds" {
			return B(is)
		}
		return I(p)
	case "ret":
		v := e.eval(arg(0))
		t, ok := v.v.(TupleV)
		k := e.int(arg(1))
		if !ok || !k.isConst() {
			e.bad(n, "ret of %T", v.v)
		}
		var rt types.Type
		if tt, ok := v.t.(*types.Tuple); ok {
			rt = tt.At(int(k.k)).Type()
		}
		return SV{t.v[k.k], rt}
	case "u16le", "u24le", "u32le":
		s := e.seq(e.eval(arg(0)), arg(0))
		i := e.int(arg(1))
		k, _ := strconv.Atoi(id.Name[1:3])
		r := c.Sel(s.arr, c.Add(s.off, i))
		for b := 1; b < k/8; b++ {
			r = c.Concat(c.Sel(s.arr, c.AddK(c.Add(s.off, i), int64(b))), r)
		}
		return I(c.Zext(r, 64))
	case "byte", "uint8", "uint16", "uint32", "uint64", "int64", "int", "uint", "int32", "int16", "int8":
		t := types.Universe.Lookup(id.Name).Type()
		w, _, _ := width(t)
		return SV{c.Extract(e.int(arg(0)), w-1, 0), t}
	case "pos":
		return I(e.h.rdPos(e.eval(arg(0)).v))
	case "stream":
		s := e.h.rdStream(e.eval(arg(0)).v)
		return SV{s, nil}
	case "readerof":
		return I(c.App("readerof", 64, x.refID(e.eval(arg(0)).v)))
	case "id":
		return I(x.refID(e.eval(arg(0)).v))
	case "offersRecv", "offersSend":
		s, ok := e.eval(arg(0)).v.(selSet)
		if !ok {
			return B(c.F)
		}
		l := s.recvs
		if id.Name == "offersSend" {
			l = s.sends
		}
		ch := x.refID(e.eval(arg(1)).v)
		r := c.F
		for _, v := range l {
			r = c.Or(r, c.Eq(x.refID(v), ch))
		}
		return B(r)
	case "pred": // pred(name, k...): an uninterpreted predicate
		var as []*Term
		name := arg(0).(*ast.Ident).Name
		for _, a := range n.Args[1:] {
			as = append(as, e.int(a))
		}
		return B(c.App("pred:"+name, 0, as...))
	case "wire":
		return e.wire(e.eval(arg(0)), n)
	case "decoded":
		return B(e.decoded(e.eval(arg(0)), e.seq(e.eval(arg(1)), arg(1)), n))
	case "quieted":
		return B(e.quieted(e.eval(arg(0)), e.eval(arg(1)), n))
	case "quietedBase":
		return B(e.quietedBase(e.eval(arg(0)), e.eval(arg(1)), n))
	case "dialectName":
		lit, ok := arg(0).(*ast.BasicLit)
		if !ok {
			e.bad(n, "dialect name expected")
		}
		name, _ := strconv.Unquote(lit.Value)
		d := x.tgt.sp.dialects[name]
		if d == nil {
			e.bad(n, "no dialect %s", name)
		}
		return SV{StrV{lit: true, s: d.Name}, types.Typ[types.String]}
	case "concrete":
		_, ok := e.eval(arg(0)).v.(OpaqueV)
		return B(c.B(!ok))
	case "inDialect", "dialectMin", "dialectMax", "dialectExtra", "dialectType":
		lit, ok := arg(0).(*ast.BasicLit)
		if !ok {
			e.bad(n, "dialect name expected")
		}
		name, _ := strconv.Unquote(lit.Value)
		var v SV
		if id.Name == "dialectType" {
			v = e.eval(arg(2))
		}
		return e.table(id.Name, name, e.int(arg(1)), v, n)
	case "zext": // zext(seq): the sequence continued with zeros for ever
		s := e.seq(e.eval(arg(0)), arg(0))
		a := c.CopyArr(c.ConstArr(c.BV(0, 8)), c.I(0), s.arr, s.off, s.len)
		return SV{SeqV{arr: a, off: c.I(0), len: c.I(maxLen), elem: types.Typ[types.Uint8]}, nil}
	case "arr":
		// arr(x): contents of an array-typed value as a sequence
		return SV{e.seq(e.eval(arg(0)), arg(0)), nil}
	}
	if m, ok := e.macros[id.Name]; ok {
		if len(m.params) != len(n.Args) {
			e.bad(n, "arity of %s", id.Name)
		}
		if e.depth > 40 {
			e.bad(n, "macro depth")
		}
		vars := map[string]SV{}
		for i, p := range m.params {
			vars[p] = e.eval(n.Args[i])
		}
		if m.opaque {
			// a function of its last argument, unfolded once for each argument that occurs
			last := m.params[len(m.params)-1]
			k := e.ext(vars[last], n)
			o := c.Var("?o", 64)
			vars[last] = SV{o, intType}
			sub := e.with(vars)
			sub.depth = e.depth + 1
			v := sub.eval(m.expr)
			b := v.v.(*Term)
			if b.w != 0 {
				b = e.ext(v, n)
				v.t = intType
			}
			name := fmt.Sprintf("opq:%s:%d", id.Name, b.id)
			c.opq[name] = func(k *Term) *Term { return c.Subst(b, o, k) }
			return SV{c.App(name, b.w, k), v.t}
		}
		sub := e.with(vars)
		sub.depth = e.depth + 1
		return sub.eval(m.expr)
	}
	e.bad(n, "unknown function %s", id.Name)
	return SV{}
}

func (e *SpecEnv) iteSV(g *Term, a, b SV, n ast.Expr) SV {
	c := e.x.c
	at, aok := a.v.(*Term)
	bt, bok := b.v.(*Term)
	if aok && bok {
		if at.w == 0 && bt.w == 0 || at.w == bt.w {
			return SV{c.Ite(g, at, bt), a.t}
		}
		return SV{c.Ite(g, e.ext(a, n), e.ext(b, n)), intType}
	}
	refT := func(v SV) (*Term, types.Type) {
		if _, ok := v.v.(nilVal); ok {
			return c.I(0), nil
		}
		return e.x.refID(v.v), refType(v.v)
	}
	switch a.v.(type) {
	case OpaqueV, IfaceV, nilVal:
		x, tx := refT(a)
		y, ty := refT(b)
		if tx == nil {
			tx = ty
		}
		return SV{OpaqueV{c.Ite(g, x, y), tx}, tx}
	}
	return SV{e.x.iteVal(g, a.v, b.v), a.t}
}

func (e *SpecEnv) isFresh(v Val) bool {
	switch a := v.(type) {
	case SliceV:
		return a.obj == nil || !a.obj.pre
	case PtrV:
		return a.obj != nil && !a.obj.pre
	case MapRef:
		return a.obj != nil && !a.obj.pre
	case IfaceV:
		return e.isFresh(a.v)
	case OpaqueV:
		if a.id.isConst() {
			nm := internName(a.id.k)
			return strings.HasPrefix(nm, "chan:") || strings.HasPrefix(nm, "new:")
		}
		return false
	case ExtV:
		return true
	}
	return false
}

func (e *SpecEnv) typeIs(v SV, name string) *Term {
	c := e.x.c
	match := func(t types.Type) bool {
		s := strings.ReplaceAll(t.String(), modPath, "mavlink2")
		s = strings.TrimPrefix(strings.TrimPrefix(s, "*"), "mavlink2/")
		return s == name
	}
	switch a := v.v.(type) {
	case IfaceV:
		return c.B(match(a.typ))
	case SliceV:
		return c.B(v.t != nil && match(v.t))
	case OpaqueV:
		if a.id.isK(0) {
			return c.F
		}
		return c.And(c.Ne(a.id, c.I(0)), c.App("dyn:"+name, 0, a.id))
	case PtrV:
		return c.B(match(a.typ))
	case nilVal:
		return c.F
	}
	return c.F
}

// ---- the input stream of a reader

func (st *State) rdKey(r Val) string { return fmt.Sprintf("pos:%d", st.x.refID(unwrapReader(r)).id) }
func (st *State) rdPos(r Val) *Term {
	k := st.rdKey(r)
	if v, ok := st.ghost[k]; ok {
		return v.v.(*Term)
	}
	c := st.x.c
	p := c.Var("pos0:"+k, 64)
	st.assume(c.And(c.Sle(c.I(0), p), c.Slt(p, c.I(1<<60))))
	st.ghost[k] = SV{p, intType}
	return p
}
func (st *State) setRdPos(r Val, p *Term) {
	st.rdPos(r)
	k := st.rdKey(r)
	st.noteGhost(k)
	st.ghost[k] = SV{p, intType}
}
func (st *State) rdStream(r Val) SeqV {
	c := st.x.c
	return SeqV{arr: c.Base("S:"+st.rdKey(r), 8), off: c.I(0), len: c.I(1 << 61), elem: types.Typ[types.Uint8]}
}

// ---- sentinels

func (x *Exec) sentinel(name string) *Term { return x.sentinelIn(".", name) }

func (x *Exec) sentinelIn(pkg, name string) *Term {
	var sp *ssa.Package
	if pkg == "mavlink2" {
		pkg = "."
	}
	if p, ok := x.prog.pkgs[pkg]; ok {
		sp = p
	} else {
		for _, p := range x.prog.prog.AllPackages() {
			if p.Pkg.Path() == pkg || p.Pkg.Name() == pkg && !x.prog.inModule(p.Pkg.Path()) {
				sp = p
				break
			}
		}
	}
	if sp == nil {
		return nil
	}
	g, ok := sp.Members[name].(*ssa.Global)
	if !ok {
		if !x.prog.inModule(sp.Pkg.Path()) && sp.Pkg.Scope().Lookup(name) != nil {
			return x.c.I(int64(intern("err:" + sp.Pkg.Path() + "." + name)))
		}
		return nil
	}
	p := x.globalPtr(x.entryOrBlank(), g).(PtrV)
	v, ok := x.gheap[p.obj]
	if !ok {
		return nil
	}
	switch o := v.(type) {
	case OpaqueV:
		return o.id
	case IfaceV:
		return x.refID(o)
	}
	return nil
}
func (x *Exec) entryOrBlank() *State {
	if x.entry != nil {
		return x.entry
	}
	return &State{x: x, heap: map[*Obj]Val{}, counter: map[string]int{}, ghost: map[string]SV{}, opq: map[string]*Obj{}}
}

// expandMax: quantifiers over at most this many constants are written out
func (e *SpecEnv) expandMax() int {
	if t := e.x.tgt; t != nil && t.ct != nil && t.ct.layout != nil {
		return 300
	}
	return 48
}
