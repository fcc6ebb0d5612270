package main

// Symbolic executor over go/ssa: explicit frame stack, path forking, loop invariants (loop.go),
// calls (call.go). Obligations are collected per run and discharged when the run is stable.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Name    string
	Tags    []string
	Pos     string
	q       *Query
	parts   []*Query // the conjuncts of a large goal, decided one by one
	trail   []string
	static  bool // already decided
	ok      bool
	skipped bool // not attempted: enough others failed, or out of time
	ans     *Answer
	note    string
	solver  string
}

type Exec struct {
	applied  map[*Contract]bool // modular contracts this proof rests on
	prog     *Program
	c        *Ctx
	tgt      *Target
	loopInfo map[string]*loopInfo
	modsGrew bool
	changed  bool
	obls     []*Obl
	work     []*State
	late     []func() // checks of back edges, made at the end of a run
	kmu      sync.Mutex
	cache    map[string]*Answer
	gheap    map[*Obj]Val
	gobj     map[*ssa.Global]*Obj
	ginit    map[*ssa.Package]bool
	initMode bool
	entry    *State
	returns  int
	paths    int
	steps    int
	env      *SpecEnv
	notes    map[string]bool
	used     map[string]bool // contracts used
	inlined  map[string]bool
	trusted  map[string]bool
	deadline int
}

type restart struct{}

func newExec(p *Program, t *Target) *Exec {
	return &Exec{prog: p, c: NewCtx(), tgt: t, loopInfo: map[string]*loopInfo{}, cache: map[string]*Answer{}, notes: map[string]bool{}, used: map[string]bool{}, inlined: map[string]bool{}, trusted: map[string]bool{}, gheap: map[*Obj]Val{}, gobj: map[*ssa.Global]*Obj{}, ginit: map[*ssa.Package]bool{}}
}

func (st *State) get(o *Obj) (Val, bool) {
	if v, ok := st.heap[o]; ok {
		return v, true
	}
	v, ok := st.x.gheap[o]
	return v, ok
}
func (st *State) must(o *Obj) Val {
	v, ok := st.get(o)
	if !ok {
		unsupported("unknown object %s", o.key)
	}
	return v
}

// ---- solver interface

func (st *State) query(extra ...*Term) *Query {
	q := &Query{}
	q.asserts = append(q.asserts, st.pc...)
	q.asserts = append(q.asserts, extra...)
	q.facts = st.facts
	q.hints = st.hints
	return q
}
func (x *Exec) qkey(q *Query) string {
	ids := make([]int, 0, len(q.asserts))
	for _, a := range q.asserts {
		ids = append(ids, a.id)
	}
	sort.Ints(ids)
	var fs []string
	for _, f := range q.facts {
		fs = append(fs, x.factKey(f))
	}
	sort.Strings(fs)
	var hs []int
	for _, h := range q.hints {
		hs = append(hs, h.id)
	}
	return fmt.Sprint(ids, fs, hs)
}
func (x *Exec) factKey(f *Fact) string {
	if f.key == "" {
		d := x.c.Var("?key", 64)
		g := 0
		if f.guard != nil {
			g = f.guard.id
		}
		f.key = fmt.Sprintf("%d:%d:%d:%d:%v", f.lo.id, f.hi.id, g, f.body(d).id, f.manual)
		if f.trig != nil {
			f.key += fmt.Sprintf(":%d", f.trig(d).id)
		}
	}
	return f.key
}
func (x *Exec) ask(q *Query) *Answer {
	for _, a := range q.asserts {
		if a.isFalse() {
			return &Answer{res: Unsat}
		}
	}
	x.c.mu.Lock()
	k := x.qkey(q)
	ca, ok := x.cache[k]
	x.c.mu.Unlock()
	if ok && (len(q.want) == 0 || ca.res != Sat) {
		return ca
	}
	if q.timeout == 0 {
		q.timeout = 5000
	}
	a := x.c.Check(q, false)
	if len(q.want) == 0 {
		x.c.mu.Lock()
		x.cache[k] = a
		x.c.mu.Unlock()
	}
	return a
}
func (st *State) knows(t *Term) bool {
	for _, p := range st.pc {
		if p == t {
			return true
		}
	}
	return false
}

// future: the answer of a query that is being decided
type future struct {
	done chan struct{}
	a    *Answer
}

func (f *future) get() *Answer {
	<-f.done
	return f.a
}

// askLater decides the query in the background
func (x *Exec) askLater(q *Query) *future {
	f := &future{done: make(chan struct{})}
	for _, a := range q.asserts {
		if a.isFalse() {
			f.a = &Answer{res: Unsat}
			close(f.done)
			return f
		}
	}
	x.c.mu.Lock()
	k := x.qkey(q)
	ca, ok := x.cache[k]
	x.c.mu.Unlock()
	if ok {
		f.a = ca
		close(f.done)
		return f
	}
	run := x.c.prepare(q, false)
	go func() {
		f.a = run()
		x.c.mu.Lock()
		x.cache[k] = f.a
		x.c.mu.Unlock()
		close(f.done)
	}()
	return f
}

// groundQuery: is t possible as far as the path condition alone tells
func (st *State) groundQuery(t *Term) *Query {
	g := st.query(t)
	g.asserts, _ = st.x.c.relevantFacts(g)
	g.facts = nil
	g.timeout = 2000
	return g
}
func (x *Exec) ground() bool {
	return x.tgt != nil && x.tgt.ct != nil && x.tgt.ct.opts["ground"] && !x.initMode
}

func (st *State) feasible(t *Term) bool {
	if t.isTrue() {
		return true
	}
	if t.isFalse() {
		return false
	}
	for _, p := range st.pc {
		if p == t {
			return true
		}
		if p == st.x.c.Not(t) {
			return false
		}
	}
	if st.x.initMode {
		unsupported("symbolic branch during package initialisation")
	}
	q := st.query(t)
	q.timeout = 2000
	if st.x.tgt != nil && st.x.tgt.ct != nil && st.x.tgt.ct.opts["ground"] {
		// branches are pruned by the path condition alone
		a := st.x.ask(st.groundQuery(t))
		if debugCands {
			fmt.Printf("  ground: %v %.3fs %s\n", a.res, a.dur.Seconds(), t.str(4))
		}
		return a.res != Unsat
	}
	a := st.x.ask(q)
	if debugCands && a.dur.Seconds() > 0.3 {
		fmt.Printf("  feasible: %v %.2fs %s %s\n", a.res, a.dur.Seconds(), t.str(4), strings.Join(st.trail, "; "))
	}
	return a.res != Unsat
}

// entails: t certainly holds on this path
func (st *State) entails(t *Term) bool {
	if t.isTrue() {
		return true
	}
	n := st.x.c.Not(t)
	if !st.feasible(n) {
		return true
	}
	if st.x.tgt != nil && st.x.tgt.ct != nil && st.x.tgt.ct.opts["ground"] && len(st.facts) > 0 && !st.x.initMode {
		q := st.query(n)
		q.timeout = 5000
		return st.x.ask(q).res == Unsat
	}
	return false
}

func (st *State) oblige(name string, tags []string, pos string, goal *Term) {
	if t := st.x.tgt; t != nil && !relevantTags(tags, t.prop, t.own) {
		return
	}
	o := &Obl{Name: name, Tags: tags, Pos: pos, trail: st.trail}
	if goal.isTrue() {
		o.static, o.ok = true, true
	} else {
		o.q = st.query(st.x.c.Not(goal))
		if goal.op == OAnd && len(goal.args) >= 6 {
			const chunk = 3
			for i := 0; i < len(goal.args); i += chunk {
				j := i + chunk
				if j > len(goal.args) {
					j = len(goal.args)
				}
				g := st.x.c.Not(st.x.c.And(goal.args[i:j]...))
				q := st.query(g)
				q.cone = g
				o.parts = append(o.parts, q)
			}
		}
	}
	st.x.obls = append(st.x.obls, o)
}
func (st *State) failObl(name string, tags []string, pos, note string) {
	o := &Obl{Name: name, Tags: tags, Pos: pos, trail: st.trail, note: note}
	o.q = st.query()
	st.x.obls = append(st.x.obls, o)
}

func (x *Exec) posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.prog.prog.Fset.Position(p)
	rel, err := filepath.Rel(x.prog.repo, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}
func (st *State) pos(in ssa.Instruction) string {
	if in.Pos().IsValid() {
		return st.x.posOf(in.Pos())
	}
	// nearest positioned instruction
	if v, ok := in.(ssa.Value); ok {
		_ = v
	}
	return st.x.posOf(in.Parent().Pos())
}

// ---- panics

func hasRecover(v Val) bool {
	f, ok := v.(FuncV)
	if !ok || f.fn == nil || f.fn.Blocks == nil {
		return false
	}
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}
func (st *State) canRecover() bool {
	for _, f := range st.stack {
		for _, d := range f.defers {
			if hasRecover(d.fn) {
				return true
			}
		}
	}
	return false
}

// mustHold: a run-time check. Returns false when the path itself is now panicking.
func (st *State) mustHold(cond *Term, what string, in ssa.Instruction) bool {
	if cond.isTrue() {
		return true
	}
	if st.canRecover() {
		no := st.x.c.Not(cond)
		if cond.isFalse() {
			st.startPanic(what, in)
			return false
		}
		if st.feasible(no) {
			n := st.clone()
			n.assume(no)
			n.trail = append(n.trail, "panics: "+what+" at "+st.pos(in))
			n.startPanic(what, in)
			if len(n.stack) > 0 {
				st.x.work = append(st.x.work, n)
			}
		}
		if !st.feasible(cond) {
			st.kill()
			return false
		}
		st.assume(cond)
		return true
	}
	if st.x.initMode {
		unsupported("run-time check during initialisation")
	}
	st.oblige("no panic: "+what, []string{"safety"}, st.pos(in), cond)
	if cond.isFalse() {
		st.kill()
		return false
	}
	st.assume(cond)
	return true
}

func (st *State) kill() { st.stack = nil }

func (st *State) startPanic(what string, in ssa.Instruction) {
	if len(st.stack) == 0 {
		return
	}
	f := st.top()
	f.panicking = true
	if !st.canRecover() {
		st.failObl("no panic: "+what, []string{"safety"}, st.pos(in), "the panic is reachable")
		st.kill()
		return
	}
	st.unwind(what, in)
}

// unwind runs deferred calls of panicking frames
func (st *State) unwind(what string, in ssa.Instruction) {
	for len(st.stack) > 0 {
		f := st.top()
		f.unwinding = true
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			depth := len(st.stack)
			st.invoke(d.fn, d.args, d.call, d.site, nil, func(s *State, v Val) {})
			if len(st.stack) > depth {
				st.top().inDefer = true
				return // continues in main loop; Return re-enters unwind
			}
			continue
		}
		if f.recovered {
			f.panicking, f.recovered, f.unwinding = false, false, false
			if f.fn.Recover != nil {
				f.prev, f.blk, f.pc = nil, f.fn.Recover, 0
				return
			}
			st.doReturn(st.x.zeroResults(f.fn))
			return
		}
		st.stack = st.stack[:len(st.stack)-1]
		if len(st.stack) > 0 {
			st.top().panicking = true
			if f.inDefer {
				// panic inside a deferred call replaces the current one
				st.top().recovered = false
			}
		}
	}
	// escaped
	st.stack = nil
	st.failObl("no panic: "+what, []string{"safety"}, "", "the panic escapes")
}

func (x *Exec) zeroResults(f *ssa.Function) Val {
	r := f.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return x.zero(r.At(0).Type())
	}
	return x.zero(r)
}

// ---- main loop

const maxSteps = 3000000

func (x *Exec) runAll() {
	for len(x.work) > 0 {
		k := len(x.work) - 1
		if x.ground() {
			// breadth first, so that the queries about open branches are decided side by side
			k = 0
		}
		st := x.work[k]
		if k == 0 {
			x.work = x.work[1:]
		} else {
			x.work = x.work[:k]
		}
		if st.pend != nil {
			p := st.pend
			st.pend = nil
			if p.get().res == Unsat {
				continue
			}
		}
		x.runPath(st)
	}
	x.finishChecks()
}

func (x *Exec) runPath(st *State) {
	defer func() {
		if r := recover(); r != nil {
			switch u := r.(type) {
			case unsupportedErr:
				pos := ""
				if len(st.stack) > 0 {
					f := st.top()
					if f.blk != nil && f.pc-1 >= 0 && f.pc-1 < len(f.blk.Instrs) {
						pos = st.pos(f.blk.Instrs[f.pc-1])
					}
				}
				if x.initMode {
					panic(r)
				}
				st.failObl("within the verifier's reach", []string{"reach"}, pos, "unsupported: "+u.msg)
			default:
				if os.Getenv("GOCV_PANIC") == "" {
					if _, ok := r.(restart); !ok && !x.initMode {
						st.failObl("within the verifier's reach", []string{"reach"}, "", fmt.Sprintf("internal error: %v", r))
						return
					}
				}
				panic(r)
			}
		}
	}()
	if r := st.resume; r != nil {
		st.resume = nil
		r(st)
	}
	for len(st.stack) > 0 && st.resume == nil {
		x.steps++
		if x.steps > maxSteps {
			unsupported("step limit")
		}
		f := st.top()
		if f.pc >= len(f.blk.Instrs) {
			unsupported("end of block")
		}
		in := f.blk.Instrs[f.pc]
		f.pc++
		st.exec(f, in)
	}
}

func (st *State) val(f *Frame, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return st.x.constVal(c)
	case *ssa.Global:
		return st.x.globalPtr(st, c)
	case *ssa.Function:
		return FuncV{fn: c}
	case *ssa.Builtin:
		return c
	}
	r, ok := f.env[v]
	if !ok {
		unsupported("undefined value %s in %s", v.Name(), f.fn)
	}
	return r
}
func (st *State) term(f *Frame, v ssa.Value) *Term {
	r := st.val(f, v)
	t, ok := r.(*Term)
	if !ok {
		unsupported("scalar expected, got %T for %s", r, v)
	}
	return t
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	if w, _, ok := width(t); ok {
		if w == 0 {
			return x.c.B(constant.BoolVal(c.Value))
		}
		if isFloat(t) {
			fv, _ := constant.Float64Val(constant.ToFloat(c.Value))
			if fv == float64(int64(fv)) && fv < 1e15 && fv > -1e15 && !(fv == 0) {
				if w == 64 {
					return FInt{x.c.I(int64(fv))}
				}
			}
			if fv == 0 && w == 64 {
				return FInt{x.c.I(0)}
			}
			return x.c.BV(floatBits(fv, w), w)
		}
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return x.c.BV(uint64(i), w)
		}
		u, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return x.c.BV(u, w)
	}
	if isString(t) {
		return StrV{lit: true, s: constant.StringVal(c.Value)}
	}
	unsupported("constant %s", c)
	return nil
}

// ---- globals

var globalLock sync.Mutex

func (x *Exec) globalPtr(st *State, g *ssa.Global) Val {
	if o, ok := x.gobj[g]; ok {
		return PtrV{obj: o, typ: o.typ}
	}
	et := g.Type().(*types.Pointer).Elem()
	o := &Obj{key: "global:" + g.String(), typ: et, pre: true, glob: g}
	x.gobj[g] = o
	pkgPath := g.Pkg.Pkg.Path()
	if !x.prog.inModule(pkgPath) {
		x.gheap[o] = x.externalGlobal(g, et)
		return PtrV{obj: o, typ: et}
	}
	if x.initMode {
		x.gheap[o] = x.zero(et)
		return PtrV{obj: o, typ: et}
	}
	if x.prog.constG[g] {
		if err := x.runInit(g.Pkg); err == nil {
			return PtrV{obj: x.gobj[g], typ: et}
		}
	}
	s := &State{x: x, heap: map[*Obj]Val{}, counter: map[string]int{}, ghost: map[string]SV{}, opq: map[string]*Obj{}}
	x.gheap[o] = s.symbolic("global."+g.Name(), et, true)
	for k, v := range s.heap {
		x.gheap[k] = v
	}
	return PtrV{obj: o, typ: et}
}

func (x *Exec) externalGlobal(g *ssa.Global, t types.Type) Val {
	name := g.Pkg.Pkg.Path() + "." + g.Name()
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return OpaqueV{x.c.I(int64(intern("err:" + name))), t}
	}
	if s, ok := t.Underlying().(*types.Struct); ok && s.NumFields() == 0 {
		return StructV{typ: t}
	}
	return (&State{x: x, heap: x.gheap, counter: map[string]int{}, ghost: map[string]SV{}, opq: map[string]*Obj{}}).symbolic("ext."+name, t, true)
}

// runInit executes the package initialiser concretely; the resulting heap gives constant globals.
func (x *Exec) runInit(p *ssa.Package) (err error) {
	if x.ginit[p] {
		return nil
	}
	x.ginit[p] = true
	initf := p.Func("init")
	y := newExec(x.prog, nil)
	y.c = x.c
	y.initMode = true
	y.gobj = map[*ssa.Global]*Obj{}
	y.gheap = map[*Obj]Val{}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("init of %s: %v", p.Pkg.Path(), r)
			x.notes[fmt.Sprintf("package initialiser of %s not evaluated: %v", p.Pkg.Path(), r)] = true
		}
	}()
	st := &State{x: y, heap: map[*Obj]Val{}, counter: map[string]int{}, ghost: map[string]SV{}, opq: map[string]*Obj{}}
	var final *State
	st.pushFrame(initf, nil, nil, "init:"+p.Pkg.Path(), func(s *State, v Val) { final = s })
	y.work = []*State{st}
	y.runAll()
	if final == nil {
		return fmt.Errorf("initialiser did not finish")
	}
	for o, v := range y.gheap {
		x.gheap[o] = v
	}
	for o, v := range final.heap {
		x.gheap[o] = v
	}
	for g, o := range y.gobj {
		if g.Pkg == p && !x.prog.constG[g] {
			// what its initial value was says nothing about now
			if x.gobj[g] != o {
				delete(x.gheap, o)
			}
			continue
		}
		if g.Pkg == p {
			if old, ok := x.gobj[g]; ok && old != o {
				// keep the object already handed out
				x.gheap[old] = x.gheap[o]
				x.gobj[g] = o
			} else {
				x.gobj[g] = o
			}
		}
	}
	for o := range final.heap {
		o.pre = true
	}
	return nil
}

// ---- frames

func (st *State) pushFrame(fn *ssa.Function, args []Val, bind []Val, key string, retTo func(*State, Val)) *Frame {
	if len(st.stack) > 60 {
		unsupported("call depth")
	}
	if fn.Blocks == nil {
		unsupported("no body for %s", fn)
	}
	if t := st.x.tgt; t != nil && t.own {
		st.x.prog.visited.Store(fn, true)
	}
	f := &Frame{fn: fn, blk: fn.Blocks[0], env: map[ssa.Value]Val{}, callKey: key, retTo: retTo, unroll: map[*ssa.BasicBlock]*unrollInfo{}}
	for i, p := range fn.Params {
		if i >= len(args) {
			unsupported("arity of %s", fn)
		}
		f.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		f.env[v] = bind[i]
	}
	st.stack = append(st.stack, f)
	return f
}

func (st *State) doReturn(v Val) {
	f := st.top()
	st.stack = st.stack[:len(st.stack)-1]
	if f.retTo != nil {
		f.retTo(st, v)
	} else if f.ret != nil && len(st.stack) > 0 {
		st.top().env[f.ret] = v
	}
	if f.inDefer && len(st.stack) > 0 {
		p := st.top()
		if p.unwinding {
			st.unwind("panic", f.blk.Instrs[0])
		}
	}
}

// ---- instruction semantics

func (st *State) exec(f *Frame, in ssa.Instruction) {
	x := st.x
	c := x.c
	set := func(v Val) { f.env[in.(ssa.Value)] = v }
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := i.Type().(*types.Pointer).Elem()
		o := st.newObj(f.callKey+"/"+i.Name(), et, x.zero(et))
		if !i.Heap {
			// a local re-executed in a loop is a new object as well
		}
		set(PtrV{obj: o, typ: et})
	case *ssa.BinOp:
		set(st.binop(f, i))
	case *ssa.UnOp:
		st.unop(f, i)
	case *ssa.ChangeInterface:
		set(st.val(f, i.X))
	case *ssa.ChangeType:
		v := st.val(f, i.X)
		if s, ok := v.(StructV); ok {
			s.typ = i.Type()
			v = s
		}
		set(v)
	case *ssa.Convert:
		set(st.convert(f, i))
	case *ssa.MultiConvert:
		unsupported("generic conversion")
	case *ssa.Extract:
		t, ok := st.val(f, i.Tuple).(TupleV)
		if !ok {
			unsupported("tuple expected")
		}
		set(t.v[i.Index])
	case *ssa.Field:
		s, ok := st.val(f, i.X).(StructV)
		if !ok {
			unsupported("struct expected")
		}
		set(s.f[i.Field])
	case *ssa.FieldAddr:
		p, ok := st.val(f, i.X).(PtrV)
		if !ok {
			unsupported("field of %T (%s)", st.val(f, i.X), i.X.Type())
		}
		if p.obj == nil {
			st.mustHold(c.F, "nil dereference", in)
			return
		}
		set(PtrV{obj: p.obj, path: append(append([]Step(nil), p.path...), Step{field: i.Field}), typ: i.Type().(*types.Pointer).Elem()})
	case *ssa.Index:
		v := st.val(f, i.X)
		idx := st.idx64(f, i.Index)
		switch a := v.(type) {
		case ArrV:
			if !st.mustHold(c.Ult(idx, a.n), "index in range", in) {
				return
			}
			set(x.arrayElem(a, idx))
		case VecV:
			if !st.mustHold(c.Ult(idx, c.I(int64(len(a.v)))), "index in range", in) {
				return
			}
			set(x.arrayElem(a, idx))
		case StrV:
			ar, off, l := x.strParts(a)
			if !st.mustHold(c.Ult(idx, l), "index in range", in) {
				return
			}
			set(c.Sel(ar, c.Add(off, idx)))
		default:
			unsupported("index of %T", v)
		}
	case *ssa.IndexAddr:
		v := st.val(f, i.X)
		idx := st.idx64(f, i.Index)
		switch a := v.(type) {
		case SliceV:
			if !st.mustHold(c.Ult(idx, a.len), "index in range", in) {
				return
			}
			if a.obj == nil {
				st.kill()
				return
			}
			set(PtrV{obj: a.obj, path: append(append([]Step(nil), a.path...), Step{idx: c.Add(a.off, idx)}), typ: a.elem})
		case PtrV:
			at := a.typ.Underlying().(*types.Array)
			if !st.mustHold(c.Ult(idx, c.I(at.Len())), "index in range", in) {
				return
			}
			if a.obj == nil {
				st.mustHold(c.F, "nil dereference", in)
				return
			}
			set(PtrV{obj: a.obj, path: append(append([]Step(nil), a.path...), Step{idx: idx}), typ: at.Elem()})
		default:
			unsupported("index address of %T", v)
		}
	case *ssa.Slice:
		st.slice(f, i)
	case *ssa.Store:
		p, ok := st.val(f, i.Addr).(PtrV)
		if !ok {
			unsupported("store through %T", st.val(f, i.Addr))
		}
		if p.obj == nil {
			st.mustHold(c.F, "nil dereference", in)
			return
		}
		v := st.val(f, i.Val)
		if fi, ok := v.(FInt); ok {
			v = x.fintBits(st, fi)
		}
		st.storeEvent(p, v, in)
		if len(st.stack) == 0 {
			return
		}
		st.store(p, v)
	case *ssa.MakeInterface:
		v := st.val(f, i.X)
		if fi, ok := v.(FInt); ok {
			v = x.fintBits(st, fi)
		}
		set(IfaceV{typ: i.X.Type(), v: v})
	case *ssa.MakeClosure:
		fv := FuncV{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			fv.bind = append(fv.bind, st.val(f, b))
		}
		set(fv)
	case *ssa.MakeSlice:
		st.makeSlice(f, i)
	case *ssa.MakeMap:
		o := st.newObj(f.callKey+"/"+i.Name(), i.Type(), MapV{typ: i.Type().Underlying().(*types.Map), len: c.I(0)})
		set(MapRef{o})
	case *ssa.MakeChan:
		o := OpaqueV{c.I(int64(intern(st.freshName("chan:" + f.callKey + "/" + i.Name())))), i.Type()}
		set(o)
		st.event("makechan", map[string]SV{"ch": {o, i.Type()}, "size": {st.val(f, i.Size), types.Typ[types.Int]}}, in)
	case *ssa.MapUpdate:
		st.mapUpdate(f, i)
	case *ssa.Lookup:
		st.lookup(f, i)
	case *ssa.TypeAssert:
		st.typeAssert(f, i)
	case *ssa.Phi:
		unsupported("phi outside block entry")
	case *ssa.Jump:
		st.gotoBlock(f, f.blk.Succs[0])
	case *ssa.If:
		st.branch(f, i)
	case *ssa.Return:
		var v Val
		switch len(i.Results) {
		case 0:
		case 1:
			v = st.val(f, i.Results[0])
		default:
			t := TupleV{}
			for _, r := range i.Results {
				t.v = append(t.v, st.val(f, r))
			}
			v = t
		}
		st.doReturn(v)
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			f.pc-- // come back
			depth := len(st.stack)
			st.invoke(d.fn, d.args, d.call, d.site, nil, func(s *State, v Val) {})
			if len(st.stack) > depth {
				st.top().inDefer = true
			}
		}
	case *ssa.Defer:
		fn, args := st.callee(f, &i.Call)
		f.defers = append(f.defers, deferred{fn: fn, args: args, call: &i.Call, site: in})
	case *ssa.Panic:
		if st.canRecover() {
			st.startPanic("explicit panic", in)
		} else {
			st.failObl("no panic: explicit panic", []string{"safety"}, st.pos(in), "the panic is reachable")
			st.kill()
		}
	case *ssa.Call:
		fn, args := st.callee(f, &i.Call)
		if len(st.stack) == 0 {
			return
		}
		st.invoke(fn, args, &i.Call, in, i, nil)
	case *ssa.Send:
		st.chanSend(f, i.Chan, st.val(f, i.X), in, false)
	case *ssa.Select:
		st.doSelect(f, i)
	case *ssa.Go:
		unsupported("go statement")
	case *ssa.Range:
		v := st.val(f, i.X)
		m, ok := v.(MapRef)
		if !ok {
			unsupported("range over %s", i.X.Type())
		}
		set(m)
	case *ssa.Next:
		unsupported("map/string iteration")
	case *ssa.SliceToArrayPointer:
		s, ok := st.val(f, i.X).(SliceV)
		if !ok {
			unsupported("slice expected")
		}
		at := i.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !st.mustHold(c.Ule(c.I(at.Len()), s.len), "slice to array length", in) {
			return
		}
		unsupported("slice to array pointer")
	default:
		unsupported("instruction %T", in)
	}
}

func (st *State) idx64(f *Frame, v ssa.Value) *Term {
	t := st.term(f, v)
	w, s, _ := width(v.Type())
	if w == 64 {
		return t
	}
	if s {
		return st.x.c.Sext(t, 64)
	}
	return st.x.c.Zext(t, 64)
}

func (st *State) unop(f *Frame, i *ssa.UnOp) {
	c := st.x.c
	set := func(v Val) { f.env[i] = v }
	switch i.Op {
	case token.MUL:
		p := st.val(f, i.X)
		pv, ok := p.(PtrV)
		if !ok {
			unsupported("load through %T", p)
		}
		if pv.obj == nil {
			st.mustHold(c.F, "nil dereference", i)
			return
		}
		st.loadEvent(pv, i)
		if len(st.stack) == 0 {
			return
		}
		set(st.load(pv))
	case token.NOT:
		set(c.Not(st.term(f, i.X)))
	case token.SUB:
		v := st.val(f, i.X)
		if fi, ok := v.(FInt); ok {
			set(FInt{c.Neg(fi.t)})
			return
		}
		if isFloat(i.Type()) {
			set(st.freshVar("float", v.(*Term).w))
			return
		}
		set(c.Neg(v.(*Term)))
	case token.XOR:
		set(c.BNot(st.term(f, i.X)))
	case token.ARROW:
		ch := st.val(f, i.X)
		et := i.X.Type().Underlying().(*types.Chan).Elem()
		v := st.freshRef("recv", et)
		ok := st.freshVar("recvok", 0)
		st.event("recv", map[string]SV{"ch": {ch, i.X.Type()}, "v": {v, et}, "ok": {ok, types.Typ[types.Bool]}, "sel": {c.F, types.Typ[types.Bool]}}, i)
		if len(st.stack) == 0 {
			return
		}
		if i.CommaOk {
			set(TupleV{[]Val{v, ok}})
		} else {
			set(v)
		}
	default:
		unsupported("unary %s", i.Op)
	}
}

// freshRef: an unconstrained value of a type received from outside
func (st *State) freshRef(name string, t types.Type) Val {
	return st.symbolic(st.freshName(name), t, true)
}

func (st *State) binop(f *Frame, i *ssa.BinOp) Val {
	x := st.x
	c := x.c
	a, b := st.val(f, i.X), st.val(f, i.Y)
	t := i.X.Type()
	if i.Op == token.EQL || i.Op == token.NEQ {
		e := st.eqVals(a, b, t)
		if i.Op == token.NEQ {
			e = c.Not(e)
		}
		return e
	}
	if fa, ok := a.(FInt); ok {
		if fb, ok := b.(FInt); ok {
			switch i.Op {
			case token.ADD:
				return FInt{c.Add(fa.t, fb.t)}
			case token.SUB:
				return FInt{c.Sub(fa.t, fb.t)}
			case token.LSS:
				return c.Slt(fa.t, fb.t)
			case token.LEQ:
				return c.Sle(fa.t, fb.t)
			case token.GTR:
				return c.Slt(fb.t, fa.t)
			case token.GEQ:
				return c.Sle(fb.t, fa.t)
			}
		}
	}
	if isFloat(t) {
		switch i.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return st.freshVar("floatcmp", 0)
		}
		w, _, _ := width(t)
		return st.freshVar("float", w)
	}
	if isString(t) {
		if i.Op == token.ADD {
			as, bs := a.(StrV), b.(StrV)
			if as.lit && bs.lit {
				return StrV{lit: true, s: as.s + bs.s}
			}
			l := c.Add(x.strLen(as), x.strLen(bs))
			aa, ao, al := x.strParts(as)
			ba, bo, bl := x.strParts(bs)
			arr := c.CopyArr(c.ConstArr(c.BV(0, 8)), c.I(0), aa, ao, al)
			arr = c.CopyArr(arr, al, ba, bo, bl)
			return StrV{arr: arr, off: c.I(0), len: l}
		}
		return st.freshVar("strcmp", 0)
	}
	at, ok1 := a.(*Term)
	bt, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsupported("operator %s on %T", i.Op, a)
	}
	_, signed, _ := width(t)
	switch i.Op {
	case token.ADD:
		return c.Add(at, bt)
	case token.SUB:
		return c.Sub(at, bt)
	case token.MUL:
		return c.Mul(at, bt)
	case token.QUO, token.REM:
		if !st.mustHold(c.Ne(bt, c.BV(0, bt.w)), "division by zero", i) {
			return at
		}
		switch {
		case i.Op == token.QUO && signed:
			return c.div(OSdiv, at, bt)
		case i.Op == token.QUO:
			return c.div(OUdiv, at, bt)
		case signed:
			return c.div(OSrem, at, bt)
		default:
			return c.div(OUrem, at, bt)
		}
	case token.AND:
		if at.w == 0 {
			return c.And(at, bt)
		}
		return c.BAnd(at, bt)
	case token.OR:
		if at.w == 0 {
			return c.Or(at, bt)
		}
		return c.BOr(at, bt)
	case token.XOR:
		return c.BXor(at, bt)
	case token.AND_NOT:
		return c.BAnd(at, c.BNot(bt))
	case token.SHL, token.SHR:
		_, ys, _ := width(i.Y.Type())
		if ys {
			if !st.mustHold(c.Sle(c.BV(0, bt.w), bt), "negative shift", i) {
				return at
			}
		}
		// clamp the amount to the operand width
		amt := bt
		var big *Term
		if amt.w > at.w {
			big = c.Ult(c.BV(uint64(at.w-1), amt.w), amt)
			amt = c.Extract(amt, at.w-1, 0)
		} else {
			amt = c.Zext(amt, at.w)
			if at.w <= int(mask(bt.w)) {
				big = c.Ult(c.BV(uint64(at.w-1), at.w), amt)
			} else {
				big = c.F
			}
		}
		var r, o *Term
		switch {
		case i.Op == token.SHL:
			r, o = c.Shl(at, amt), c.BV(0, at.w)
		case signed:
			r = c.Ashr(at, amt)
			o = c.Ashr(at, c.BV(uint64(at.w-1), at.w))
		default:
			r, o = c.Lshr(at, amt), c.BV(0, at.w)
		}
		return c.Ite(big, o, r)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if i.Op == token.GTR || i.Op == token.GEQ {
			at, bt = bt, at
		}
		strict := i.Op == token.LSS || i.Op == token.GTR
		switch {
		case signed && strict:
			return c.Slt(at, bt)
		case signed:
			return c.Sle(at, bt)
		case strict:
			return c.Ult(at, bt)
		default:
			return c.Ule(at, bt)
		}
	}
	unsupported("operator %s", i.Op)
	return nil
}

// eqVals: Go == as a term (program semantics)
func (st *State) eqVals(a, b Val, t types.Type) *Term {
	x := st.x
	c := x.c
	if fa, ok := a.(FInt); ok {
		if fb, ok := b.(FInt); ok {
			return c.Eq(fa.t, fb.t)
		}
	}
	if isFloat(t) {
		return st.freshVar("floatcmp", 0)
	}
	// nil comparisons of slices, maps, funcs
	switch t.Underlying().(type) {
	case *types.Slice:
		as, bs := a.(SliceV), b.(SliceV)
		if bs.obj == nil {
			return as.nilc
		}
		return bs.nilc
	}
	// iface vs concrete operand
	ai, aok := a.(IfaceV)
	bi, bok := b.(IfaceV)
	if aok && bok {
		if !types.Identical(ai.typ, bi.typ) {
			return c.F
		}
		return st.eqVals(ai.v, bi.v, ai.typ)
	}
	if aok || bok {
		o := b
		k := ai
		if bok {
			o, k = a, bi
		}
		ov, ok := o.(OpaqueV)
		if ok && ov.id.isK(0) {
			return c.F
		}
		_ = k
		if ok {
			// comparing an opaque reference with a concrete one: undecided unless nil
			return c.Eq(ov.id, x.refID(k))
		}
	}
	ps := x.eqParts(a, b)
	r := c.T
	for _, p := range ps {
		if p.t != nil {
			r = c.And(r, p.t)
			continue
		}
		if p.n.isConst() && p.n.k <= 64 {
			for k := int64(0); k < int64(p.n.k); k++ {
				r = c.And(r, c.Eq(c.Sel(p.a, c.AddK(p.ao, k)), c.Sel(p.b, c.AddK(p.bo, k))))
			}
			continue
		}
		// quantified equality as program value: defined by a fresh boolean with both directions
		e := st.freshVar("arrayeq", 0)
		p := p
		st.facts = append(st.facts, &Fact{name: "arrayeq", lo: c.I(0), hi: p.n, guard: e, body: func(k *Term) *Term {
			return c.Eq(c.Sel(p.a, c.Add(p.ao, k)), c.Sel(p.b, c.Add(p.bo, k)))
		}})
		w := st.freshVar("neqat", 64)
		st.assume(c.Or(e, c.And(c.Ult(w, p.n), c.Ne(c.Sel(p.a, c.Add(p.ao, w)), c.Sel(p.b, c.Add(p.bo, w))))))
		r = c.And(r, e)
	}
	return r
}

func floatBits(f float64, w int) uint64 {
	if w == 32 {
		return uint64(math32bits(float32(f)))
	}
	return math64bits(f)
}

func (x *Exec) fintBits(st *State, f FInt) Val {
	if f.t.isConst() {
		return x.c.BV(math64bits(float64(int64(f.t.k))), 64)
	}
	return st.freshVar("float", 64)
}

func (st *State) convert(f *Frame, i *ssa.Convert) Val {
	x := st.x
	c := x.c
	v := st.val(f, i.X)
	ft, tt := i.X.Type(), i.Type()
	fw, fs, fok := width(ft)
	tw, _, tok := width(tt)
	switch {
	case fok && tok && !isFloat(ft) && !isFloat(tt):
		t := v.(*Term)
		if tw <= fw {
			return c.Extract(t, tw-1, 0)
		}
		if fs {
			return c.Sext(t, tw)
		}
		return c.Zext(t, tw)
	case fok && tok && isFloat(tt) && !isFloat(ft):
		t := v.(*Term)
		if tw == 64 {
			if fs {
				t = c.Sext(t, 64)
			} else {
				if fw == 64 && !st.entails(c.Ult(t, c.I(1<<52))) {
					return st.freshVar("float", 64)
				}
				t = c.Zext(t, 64)
			}
			if fs && fw == 64 && !st.entails(c.And(c.Slt(t, c.I(1<<52)), c.Slt(c.I(-(1<<52)), t))) {
				return st.freshVar("float", 64)
			}
			return FInt{t}
		}
		return st.freshVar("float", tw)
	case fok && tok && isFloat(ft) && !isFloat(tt):
		if fi, ok := v.(FInt); ok {
			_, ts, _ := width(tt)
			if tw == 64 {
				if ts || st.entails(c.Sle(c.I(0), fi.t)) {
					return fi.t
				}
			} else {
				lo, hi := int64(0), int64(1)<<uint(tw)
				if ts {
					lo, hi = -(int64(1) << uint(tw-1)), int64(1)<<uint(tw-1)
				}
				if st.entails(c.And(c.Sle(c.I(lo), fi.t), c.Slt(fi.t, c.I(hi)))) {
					return c.Extract(fi.t, tw-1, 0)
				}
			}
		}
		return st.freshVar("floatconv", tw)
	case fok && tok && isFloat(ft) && isFloat(tt):
		if fw == tw {
			return v
		}
		return st.freshVar("float", tw)
	case isString(ft) && tt.String() == "[]byte" || isString(ft) && isByteSlice(tt):
		s := v.(StrV)
		ar, off, l := x.strParts(s)
		o := st.newObj(f.callKey+"/"+i.Name(), tt, nil)
		cp := st.freshVar("cap", 64)
		st.assume(c.Ule(l, cp))
		st.assume(c.Ule(cp, c.I(maxLen)))
		st.heap[o] = ArrV{arr: c.CopyArr(c.ConstArr(c.BV(0, 8)), c.I(0), ar, off, l), n: cp, elem: types.Typ[types.Uint8]}
		return SliceV{obj: o, off: c.I(0), len: l, cap: cp, nilc: c.F, elem: tt.Underlying().(*types.Slice).Elem()}
	case isString(tt) && isByteSlice(ft):
		s := v.(SliceV)
		return StrV{arr: st.backingArr(s), off: s.off, len: s.len}
	case isString(ft) && isString(tt):
		return v
	}
	if types.Identical(ft.Underlying(), tt.Underlying()) {
		return v
	}
	if _, ok := v.(SliceV); ok {
		return v
	}
	unsupported("conversion %s -> %s", ft, tt)
	return nil
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByteElem(s.Elem())
}

func (st *State) slice(f *Frame, i *ssa.Slice) {
	x := st.x
	c := x.c
	v := st.val(f, i.X)
	var lo, hi, mx *Term
	if i.Low != nil {
		lo = st.idx64(f, i.Low)
	} else {
		lo = c.I(0)
	}
	if i.High != nil {
		hi = st.idx64(f, i.High)
	}
	if i.Max != nil {
		mx = st.idx64(f, i.Max)
	}
	switch a := v.(type) {
	case SliceV:
		if hi == nil {
			hi = a.len
		}
		cp := a.cap
		if mx != nil {
			if !st.mustHold(c.And(c.Ule(lo, hi), c.Ule(hi, mx), c.Ule(mx, cp)), "slice bounds", i) {
				return
			}
			cp = mx
		} else if !st.mustHold(c.And(c.Ule(lo, hi), c.Ule(hi, cp)), "slice bounds", i) {
			return
		}
		f.env[i] = SliceV{obj: a.obj, path: a.path, off: c.Add(a.off, lo), len: c.Sub(hi, lo), cap: c.Sub(cp, lo), nilc: a.nilc, elem: a.elem}
	case PtrV:
		at := a.typ.Underlying().(*types.Array)
		n := c.I(at.Len())
		if hi == nil {
			hi = n
		}
		cp := n
		if mx != nil {
			if !st.mustHold(c.And(c.Ule(lo, hi), c.Ule(hi, mx), c.Ule(mx, n)), "slice bounds", i) {
				return
			}
			cp = mx
		} else if !st.mustHold(c.And(c.Ule(lo, hi), c.Ule(hi, n)), "slice bounds", i) {
			return
		}
		if a.obj == nil {
			st.mustHold(c.F, "nil dereference", i)
			return
		}
		f.env[i] = SliceV{obj: a.obj, path: a.path, off: lo, len: c.Sub(hi, lo), cap: c.Sub(cp, lo), nilc: c.F, elem: at.Elem()}
	case StrV:
		l := x.strLen(a)
		if hi == nil {
			hi = l
		}
		if !st.mustHold(c.And(c.Ule(lo, hi), c.Ule(hi, l)), "slice bounds", i) {
			return
		}
		if a.lit && lo.isConst() && hi.isConst() {
			f.env[i] = StrV{lit: true, s: a.s[lo.k:hi.k]}
			return
		}
		ar, off, _ := x.strParts(a)
		f.env[i] = StrV{arr: ar, off: c.Add(off, lo), len: c.Sub(hi, lo)}
	default:
		unsupported("slice of %T", v)
	}
}

func (st *State) makeSlice(f *Frame, i *ssa.MakeSlice) {
	x := st.x
	c := x.c
	l, cp := st.idx64(f, i.Len), st.idx64(f, i.Cap)
	if !st.mustHold(c.And(c.Ule(l, cp), c.Ule(cp, c.I(maxLen))), "make: size in range", i) {
		return
	}
	et := i.Type().Underlying().(*types.Slice).Elem()
	f.env[i] = st.newSlice(f.callKey+"/"+i.Name(), et, l, cp)
}
func (st *State) newSlice(key string, et types.Type, l, cp *Term) SliceV {
	x := st.x
	c := x.c
	o := st.newObj(key, types.NewSlice(et), nil)
	if w, _, ok := width(et); ok && w > 0 {
		st.heap[o] = ArrV{arr: c.ConstArr(c.BV(0, w)), n: cp, elem: et}
	} else if cp.isConst() && cp.k <= 256 {
		v := VecV{elem: et}
		for k := uint64(0); k < cp.k; k++ {
			v.v = append(v.v, x.zero(et))
		}
		st.heap[o] = v
	} else {
		st.heap[o] = ArrV{arr: c.ConstArr(c.BV(0, 64)), n: cp, elem: et}
	}
	return SliceV{obj: o, off: c.I(0), len: l, cap: cp, nilc: c.F, elem: et}
}

// ---- maps

func (st *State) mapUpdate(f *Frame, i *ssa.MapUpdate) {
	c := st.x.c
	m, ok := st.val(f, i.Map).(MapRef)
	if !ok {
		unsupported("map expected")
	}
	if m.obj == nil {
		st.mustHold(c.F, "assignment to nil map", i)
		return
	}
	k, v := st.val(f, i.Key), st.val(f, i.Value)
	st.noteWrite(m.obj, nil)
	mv := st.must(m.obj).(MapV)
	if kt, ok := k.(*Term); ok && kt.isConst() && !mv.opaque {
		n := MapV{typ: mv.typ, keys: append([]Val(nil), mv.keys...), vals: append([]Val(nil), mv.vals...)}
		if st.x.initMode { // linear construction of big literals
			n.keys, n.vals = mv.keys, mv.vals
		}
		for j, kk := range n.keys {
			if kk == k {
				n.vals[j] = v
				n.len = mv.len
				st.heap[m.obj] = n
				return
			}
		}
		n.keys, n.vals = append(n.keys, k), append(n.vals, v)
		n.len = c.I(int64(len(n.keys)))
		st.heap[m.obj] = n
		return
	}
	// abstracted: the map may have grown by one
	l := st.freshVar("maplen", 64)
	st.assume(c.Or(c.Eq(l, mv.len), c.Eq(l, c.AddK(mv.len, 1))))
	st.heap[m.obj] = MapV{typ: mv.typ, opaque: true, version: st.freshName("mapver"), len: l}
}

func (st *State) lookup(f *Frame, i *ssa.Lookup) {
	x := st.x
	c := x.c
	if isString(i.X.Type()) {
		s := st.val(f, i.X).(StrV)
		idx := st.idx64(f, i.Index)
		ar, off, l := x.strParts(s)
		if !st.mustHold(c.Ult(idx, l), "index in range", i) {
			return
		}
		f.env[i] = c.Sel(ar, c.Add(off, idx))
		return
	}
	mt := i.X.Type().Underlying().(*types.Map)
	m, ok := st.val(f, i.X).(MapRef)
	if !ok {
		unsupported("map expected")
	}
	set := func(s *State, v Val, ok *Term) {
		fr := s.top()
		if i.CommaOk {
			fr.env[i] = TupleV{[]Val{v, ok}}
		} else {
			fr.env[i] = v
		}
	}
	zero := x.zero(mt.Elem())
	if m.obj == nil {
		set(st, zero, c.F)
		return
	}
	mv := st.must(m.obj).(MapV)
	k := st.val(f, i.Index)
	if mv.opaque || len(mv.keys) == 0 && mv.len.isK(0) == false {
		has := st.freshVar("haskey", 0)
		if w, _, sc := width(mt.Elem()); sc {
			v := st.freshVar("mapval", w)
			set(st, c.Ite(has, v, c.BV(0, w)), has)
			return
		}
		n := st.clone()
		if st.feasible(has) {
			n.assume(has)
			set(n, n.freshRef("mapval", mt.Elem()), c.T)
			x.work = append(x.work, n)
		}
		st.assume(c.Not(has))
		set(st, zero, c.F)
		return
	}
	kt, ok := k.(*Term)
	if !ok {
		unsupported("map key %T", k)
	}
	// fork over the entries
	rest := c.T
	for j := range mv.keys {
		e := c.Eq(kt, mv.keys[j].(*Term))
		if e.isTrue() {
			set(st, mv.vals[j], c.T)
			return
		}
		if e.isFalse() {
			continue
		}
		n := st.clone()
		n.assume(e)
		// substitute concretely when the key is a plain variable
		n.trail = append(n.trail, "key="+mv.keys[j].(*Term).String())
		set(n, mv.vals[j], c.T)
		x.work = append(x.work, n)
		rest = c.And(rest, c.Not(e))
	}
	st.assume(rest)
	st.trail = append(st.trail, "key not in table")
	set(st, zero, c.F)
}

// ---- type assertions

func (st *State) typeAssert(f *Frame, i *ssa.TypeAssert) {
	x := st.x
	c := x.c
	v := st.val(f, i.X)
	at := i.AssertedType
	set := func(v Val, ok *Term) bool {
		if i.CommaOk {
			f.env[i] = TupleV{[]Val{v, ok}}
			return true
		}
		if !st.mustHold(ok, "type assertion", i) {
			return false
		}
		f.env[i] = v
		return true
	}
	switch a := v.(type) {
	case IfaceV:
		if types.IsInterface(at) {
			set(v, c.B(types.Implements(a.typ, at.Underlying().(*types.Interface))))
			return
		}
		if types.Identical(a.typ, at) {
			set(a.v, c.T)
		} else {
			set(x.zero(at), c.F)
		}
	case OpaqueV:
		if a.id.isK(0) {
			set(x.zero(at), c.F)
			return
		}
		is := c.And(c.Ne(a.id, c.I(0)), c.App("is:"+at.String(), 0, a.id))
		if types.IsInterface(at) {
			set(OpaqueV{a.id, at}, is)
			return
		}
		if x.isExternalPtr(at) {
			id := c.App("as:"+at.String(), 64, a.id)
			// dynamic non-nil pointers
			st.assume(c.Implies(is, c.Ne(id, c.I(0))))
			set(OpaqueV{c.Ite(is, id, c.I(0)), at}, is)
			return
		}
		if i.CommaOk {
			n := st.clone()
			if st.feasible(is) {
				n.assume(is)
				n.top().env[i] = TupleV{[]Val{n.freshRef("assert", at), c.T}}
				x.work = append(x.work, n)
			}
			st.assume(c.Not(is))
			f.env[i] = TupleV{[]Val{x.zero(at), c.F}}
			return
		}
		if st.mustHold(is, "type assertion", i) {
			f.env[i] = st.freshRef("assert", at)
		}
	default:
		unsupported("type assertion on %T", v)
	}
}

// finishChecks decides what was left for the end of the run
func (x *Exec) finishChecks() {
	l := x.late
	x.late = nil
	if x.modsGrew {
		return
	}
	inParallel(len(l), func(i int) { l[i]() })
}

// ---- control flow

func (st *State) branch(f *Frame, i *ssa.If) {
	x := st.x
	c := x.c
	cond := st.term(f, i.Cond)
	t, e := f.blk.Succs[0], f.blk.Succs[1]
	loops := x.prog.loopsOf(f.fn)
	canT, canE := true, true
	if x.ground() && !cond.isConst() && len(f.unroll) == 0 && !st.knows(cond) && !st.knows(c.Not(cond)) {
		n := st.clone()
		n.pend = x.askLater(st.groundQuery(c.Not(cond)))
		n.resume = func(n *State) {
			n.assume(c.Not(cond))
			n.trail = append(n.trail, "else "+n.pos(i))
			n.gotoBlock(n.top(), e)
		}
		st.pend = x.askLater(st.groundQuery(cond))
		st.resume = func(st *State) {
			st.assume(cond)
			st.trail = append(st.trail, "then "+st.pos(i))
			st.gotoBlock(st.top(), t)
		}
		x.work = append(x.work, st, n)
		return
	}
	if cond.isConst() {
		canT, canE = cond.isTrue(), cond.isFalse()
	} else {
		canT = st.feasible(cond)
		canE = !canT || st.feasible(c.Not(cond))
	}
	for h, body := range loops {
		if !body[f.blk] {
			continue
		}
		outT, outE := !body[t], !body[e]
		if outT == outE {
			continue
		}
		if u := f.unroll[h]; u != nil {
			if canT != canE {
				u.concrete = true
			} else if !u.concrete {
				info := x.info(f, h)
				if !info.invariant {
					info.invariant = true
					x.changed = true
					panic(restart{})
				}
			}
		}
	}
	if canT && canE {
		n := st.clone()
		n.assume(c.Not(cond))
		n.trail = append(n.trail, "else "+st.pos(i))
		nf := n.top()
		x.work = append(x.work, n)
		n.gotoBlock(nf, e)
		st.assume(cond)
		st.trail = append(st.trail, "then "+st.pos(i))
		st.gotoBlock(f, t)
		return
	}
	if canT {
		st.assume(cond)
		st.gotoBlock(f, t)
	} else {
		st.assume(c.Not(cond))
		st.gotoBlock(f, e)
	}
}

func (st *State) gotoBlock(f *Frame, to *ssa.BasicBlock) {
	x := st.x
	from := f.blk
	loops := x.prog.loopsOf(f.fn)
	// leave loops
	for len(f.loops) > 0 {
		al := f.loops[len(f.loops)-1]
		if loops[al.header][to] {
			break
		}
		f.loops = f.loops[:len(f.loops)-1]
	}
	for h := range f.unroll {
		if !loops[h][to] {
			delete(f.unroll, h)
		}
	}
	// phis
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	vals := make([]Val, len(phis))
	if len(phis) > 0 {
		e := -1
		for k, p := range to.Preds {
			if p == from {
				e = k
			}
		}
		for k, p := range phis {
			vals[k] = st.val(f, p.Edges[e])
		}
	}
	for k, p := range phis {
		f.env[p] = vals[k]
	}
	f.prev, f.blk, f.pc = from, to, len(phis)
	if _, isHeader := loops[to]; isHeader {
		st.atHeader(f, from, to, phis)
	}
}

func (st *State) describe() string {
	return strings.Join(st.trail, "; ")
}
