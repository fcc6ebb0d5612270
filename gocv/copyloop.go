package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Candidates for loops that fill a byte sequence one element at a time: what has been written so far is
// what the loop writes there (a copy of another sequence, or a constant), the rest is as it was on entry.
// They are read off the stores and appends of the loop's body, and proved or dropped as every candidate.

// affine: v = phi + off + vals...
type affine struct {
	phi  *ssa.Phi
	off  int64
	vals []ssa.Value // added
	subs []ssa.Value // subtracted
}

type fillLoop struct {
	f      *Frame
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

func (l fillLoop) invariant(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return !ok || in.Block() == nil || !l.body[in.Block()]
}

func (l fillLoop) affine(v ssa.Value) (a affine, ok bool) {
	switch i := v.(type) {
	case *ssa.Phi:
		if i.Block() == l.header {
			return affine{phi: i}, true
		}
	case *ssa.Convert:
		w, _, ok1 := width(i.X.Type())
		w2, _, ok2 := width(i.Type())
		if ok1 && ok2 && w == 64 && w2 == 64 {
			return l.affine(i.X)
		}
	case *ssa.BinOp:
		if i.Op != token.ADD && i.Op != token.SUB {
			return
		}
		x, y := i.X, i.Y
		if i.Op == token.ADD && l.invariant(x) {
			x, y = y, x
		}
		if a, ok = l.affine(x); !ok || !l.invariant(y) {
			return a, false
		}
		if k, isC := y.(*ssa.Const); isC {
			n, ok := constInt(k)
			if !ok {
				return a, false
			}
			if i.Op == token.SUB {
				n = -n
			}
			a.off += n
		} else if i.Op == token.ADD {
			a.vals = append(append([]ssa.Value(nil), a.vals...), y)
		} else {
			a.subs = append(append([]ssa.Value(nil), a.subs...), y)
		}
		return a, true
	}
	return
}

// step of the phi around the loop: 1, -1, or 0 for anything else
func (l fillLoop) step(p *ssa.Phi) int64 {
	s := int64(0)
	for k, e := range p.Edges {
		if !l.body[l.header.Preds[k]] {
			continue
		}
		a, ok := l.affine(e)
		if !ok || a.phi != p || len(a.vals)+len(a.subs) > 0 || (a.off != 1 && a.off != -1) || s != 0 && s != a.off {
			return 0
		}
		s = a.off
	}
	return s
}

// frameOf: the innermost frame of fn
func frameOf(st *State, fn *ssa.Function) *Frame {
	for i := len(st.stack) - 1; i >= 0; i-- {
		if st.stack[i].fn == fn {
			return st.stack[i]
		}
	}
	return nil
}

// inv: the value of an expression the loop does not change, or of an address or sequence computed in it from such
func (l fillLoop) inv(st *State, f *Frame, v ssa.Value) Val {
	if l.invariant(v) {
		if _, isConst := v.(*ssa.Const); !isConst {
			if _, ok := f.env[v]; !ok {
				return nil
			}
		}
		return st.val(f, v)
	}
	switch i := v.(type) {
	case *ssa.Phi:
		if i.Block() == l.header {
			return f.env[i]
		}
	case *ssa.FieldAddr:
		if p, ok := l.inv(st, f, i.X).(PtrV); ok && p.obj != nil {
			return PtrV{obj: p.obj, path: append(append([]Step(nil), p.path...), Step{field: i.Field}), typ: i.Type().(*types.Pointer).Elem()}
		}
	case *ssa.UnOp:
		if i.Op == token.MUL {
			if p, ok := l.inv(st, f, i.X).(PtrV); ok && p.obj != nil {
				return st.load(p)
			}
		}
	}
	return nil
}

// seqAt: the byte sequence v (a slice or a pointer to an array) is now
func (l fillLoop) seqAt(env *SpecEnv, st *State, v ssa.Value) (s SeqV, ok bool) {
	f := frameOf(st, l.f.fn)
	if f == nil {
		return
	}
	switch a := l.inv(st, f, v).(type) {
	case SliceV:
		return env.seq(SV{a, nil}, nil), true
	case StrV:
		return env.seq(SV{a, nil}, nil), true
	case PtrV:
		if a.obj == nil {
			return
		}
		switch b := st.load(a).(type) {
		case ArrV, VecV:
			return env.seq(SV{b, nil}, nil), true
		}
	}
	return
}

func (l fillLoop) term(st *State, v ssa.Value) *Term {
	f := frameOf(st, l.f.fn)
	if f == nil {
		return nil
	}
	t, ok := l.inv(st, f, v).(*Term)
	if !ok || t.w != 64 {
		return nil
	}
	return t
}

// offset of the affine expression from its phi
func (l fillLoop) offset(st *State, a affine) *Term {
	c := st.x.c
	t := c.I(a.off)
	for _, v := range a.vals {
		o := l.term(st, v)
		if o == nil {
			return nil
		}
		t = c.Add(t, o)
	}
	for _, v := range a.subs {
		o := l.term(st, v)
		if o == nil {
			return nil
		}
		t = c.Sub(t, o)
	}
	return t
}

func byteSeq(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return isByte(u.Elem())
	case *types.Pointer:
		a, ok := u.Elem().Underlying().(*types.Array)
		return ok && isByte(a.Elem())
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

// written: what a store or append writes: an element of a sequence, or a constant
type written struct {
	src ssa.Value
	at  affine
	k   *ssa.Const
}

func (l fillLoop) written(v ssa.Value) (w written, ok bool) {
	if k, isC := v.(*ssa.Const); isC {
		return written{k: k}, true
	}
	var base, index ssa.Value
	switch i := v.(type) {
	case *ssa.UnOp:
		ia, isIA := i.X.(*ssa.IndexAddr)
		if i.Op != token.MUL || !isIA {
			return
		}
		base, index = ia.X, ia.Index
	case *ssa.Lookup:
		base, index = i.X, i.Index
	case *ssa.Index:
		base, index = i.X, i.Index
	default:
		return
	}
	if !byteSeq(base.Type()) {
		return
	}
	w.src = base
	w.at, ok = l.affine(index)
	return
}

var fillExprs = map[string]string{
	"up: copied":      "forall(k, M_e + M_d, M_p + M_d, M_D[k] == M_S[k - M_d + M_s])",
	"up: constant":    "forall(k, M_e + M_d, M_p + M_d, M_D[k] == M_k)",
	"up: before":      "forall(k, 0, M_e + M_d, M_D[k] == M_D0[k])",
	"up: after":       "forall(k, M_p + M_d, len(M_D0), M_D[k] == M_D0[k])",
	"down: copied":    "forall(k, M_p + M_d + 1, M_e + M_d + 1, M_D[k] == M_S[k - M_d + M_s])",
	"down: constant":  "forall(k, M_p + M_d + 1, M_e + M_d + 1, M_D[k] == M_k)",
	"down: before":    "forall(k, 0, M_p + M_d + 1, M_D[k] == M_D0[k])",
	"down: after":     "forall(k, M_e + M_d + 1, len(M_D0), M_D[k] == M_D0[k])",
	"append: length":  "len(M_D) == len(M_D0) + (M_p - M_e)",
	"append: before":  "forall(k, 0, len(M_D0), M_D[k] == M_D0[k])",
	"append: copied":  "forall(k, len(M_D0), len(M_D), M_D[k] == M_S[k - len(M_D0) + M_e + M_s])",
	"append: filled":  "forall(k, len(M_D0), len(M_D), M_D[k] == M_k)",
	"append: no less": "len(M_D) >= len(M_D0)",
}

func (st *State) fillCands(f *Frame, al *activeLoop) {
	body := st.x.prog.loopsOf(f.fn)[al.header]
	if len(body) > 12 {
		return
	}
	l := fillLoop{f: f, header: al.header, body: body}
	n := 0
	add := func(what string, dst ssa.Value, d affine, w written, phi *ssa.Phi) {
		key := fmt.Sprintf("fill %s %s %s[%s%+d]", f.fn.String(), what, dst.Name(), phi.Name(), d.off)
		if w.src != nil {
			key += " from " + w.src.Name() + fmt.Sprintf("[%+d]", w.at.off)
		}
		key += fmt.Sprint(" #", n)
		n++
		// what the sequence holds on entry
		env := st.x.newEnv(st)
		if s, ok := l.seqAt(env, st, dst); ok {
			if al.seq0 == nil {
				al.seq0 = map[ssa.Value]SeqV{}
			}
			al.seq0[dst] = SeqV{arr: s.arr, off: s.off, len: s.len, elem: s.elem}
		}
		lt := &LoopTmpl{text: fillExprs[what], expr: parseExpr(fillExprs[what], "fill"), ct: st.x.tgt.ct}
		al.info.add(&Cand{key: key, tmpl: lt, vars: func(st *State, al *activeLoop, env *SpecEnv) bool {
			fr := frameOf(st, l.f.fn)
			if fr == nil {
				return false
			}
			i64 := types.Typ[types.Int]
			p, ok := fr.env[phi].(*Term)
			e := al.entry["phi:"+phi.Name()]
			if !ok || e == nil || p.w != 64 {
				return false
			}
			dOff := l.offset(st, d)
			if dOff == nil {
				return false
			}
			cur, ok := l.seqAt(env, st, dst)
			old, ok0 := al.seq0[dst]
			if !ok || !ok0 {
				return false
			}
			for n, t := range map[string]*Term{"M_p": p, "M_e": e, "M_d": dOff} {
				env.vars[n] = SV{t, i64}
			}
			env.vars["M_D"], env.vars["M_D0"] = SV{cur, nil}, SV{old, nil}
			if w.src != nil {
				s, ok := l.seqAt(env, st, w.src)
				sOff := l.offset(st, w.at)
				if !ok || sOff == nil {
					return false
				}
				env.vars["M_S"], env.vars["M_s"] = SV{s, nil}, SV{sOff, i64}
			}
			if w.k != nil {
				v, ok := st.val(fr, w.k).(*Term)
				if !ok {
					return false
				}
				env.vars["M_k"] = SV{v, w.k.Type()}
			}
			return true
		}})
	}
	kinds := func(w written, copied, constant string) []string {
		if w.src != nil {
			return []string{copied}
		}
		if w.k != nil {
			return []string{constant}
		}
		return nil
	}
	for _, b := range f.fn.Blocks {
		if !body[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Store:
				ia, ok := i.Addr.(*ssa.IndexAddr)
				if !ok || !byteSeq(ia.X.Type()) || n > 40 {
					continue
				}
				d, ok := l.affine(ia.Index)
				if !ok {
					continue
				}
				dir := map[int64]string{1: "up", -1: "down"}[l.step(d.phi)]
				if dir == "" {
					continue
				}
				w, ok := l.written(i.Val)
				if ok && w.src != nil && w.at.phi != d.phi {
					ok = false
				}
				if ok {
					for _, k := range kinds(w, dir+": copied", dir+": constant") {
						add(k, ia.X, d, w, d.phi)
					}
				}
				add(dir+": before", ia.X, d, written{}, d.phi)
				add(dir+": after", ia.X, d, written{}, d.phi)
			case *ssa.Call:
				bi, ok := i.Call.Value.(*ssa.Builtin)
				if !ok || bi.Name() != "append" || len(i.Call.Args) != 2 || !byteSeq(i.Type()) || n > 40 {
					continue
				}
				dst, ok := i.Call.Args[0].(*ssa.Phi)
				if !ok || dst.Block() != al.header {
					continue
				}
				// append(dst, v): the variadic argument is a slice of an array of one element
				sl, ok := i.Call.Args[1].(*ssa.Slice)
				if !ok {
					continue
				}
				var w written
				if refs := sl.X.Referrers(); refs != nil {
					for _, r := range *refs {
						if ia, ok := r.(*ssa.IndexAddr); ok {
							for _, q := range *ia.Referrers() {
								if s, ok := q.(*ssa.Store); ok {
									w, _ = l.written(s.Val)
								}
							}
						}
					}
				}
				for _, pi := range al.header.Instrs {
					p, ok := pi.(*ssa.Phi)
					if !ok {
						break
					}
					if l.step(p) != 1 {
						continue
					}
					add("append: length", dst, affine{phi: p}, written{}, p)
					if w.k != nil || w.src != nil && w.at.phi == p {
						for _, k := range kinds(w, "append: copied", "append: filled") {
							add(k, dst, affine{phi: p}, w, p)
						}
					}
					add("append: before", dst, affine{phi: p}, written{}, p)
					add("append: no less", dst, affine{phi: p}, written{}, p)
				}
			}
		}
	}
}
