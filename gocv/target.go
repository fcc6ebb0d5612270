package main

// Verification targets: a function under contract (one per case combination) or a lemma.

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Target struct {
	prop         string // the property whose obligations are wanted ("" for all)
	own          bool   // the contract mentions that property
	ct           *Contract
	sp           *Specs
	sel          map[string]string
	watch        bool
	abstractCall func(st *State, fn *ssa.Function, args []Val, site ssa.Instruction, deliver func(*State, Val)) bool
	custom       func(x *Exec) // lemma-style targets
	label        string
}

func (t *Target) name() string {
	n := t.label
	if n == "" {
		n = t.ct.name()
	}
	if len(t.sel) > 0 {
		var p []string
		for k, v := range t.sel {
			p = append(p, k+"="+v)
		}
		sort.Strings(p)
		n += " [" + strings.Join(p, ",") + "]"
	}
	return n
}

type TResult struct {
	applied map[*Contract]bool
	t       *Target
	name    string
	obls    []*Obl
	returns int
	runs    int
	used    []string
	inlined []string
	trusted []string
	notes   []string
	dur     time.Duration
	model   *Model
	x       *Exec
}

func (o *Obl) status() string {
	if o.ok {
		return "proved"
	}
	if o.ans != nil && o.ans.res == Unknown {
		return "unknown"
	}
	return "failed"
}

// expand a contract into its targets
func (sp *Specs) targetsOf(ct *Contract) []*Target {
	sels := []map[string]string{{}}
	for _, cl := range ct.find("cases") {
		var next []map[string]string
		for _, a := range cl.alts {
			for _, s := range sels {
				n := map[string]string{cl.name: a}
				for k, v := range s {
					n[k] = v
				}
				next = append(next, n)
			}
		}
		sels = next
	}
	var ts []*Target
	for _, s := range sels {
		ts = append(ts, &Target{ct: ct, sp: sp, sel: s, watch: ct.watch})
	}
	return ts
}

func runTarget(p *Program, t *Target) (res *TResult) {
	t0 := time.Now()
	x := newExec(p, t)
	res = &TResult{t: t, name: t.name(), x: x}
	if t.ct != nil {
		x.c.rounds = t.ct.rounds
	}
	defer func() {
		res.dur = time.Since(t0)
		res.used, res.inlined, res.trusted, res.notes = sortedKeys(x.used), sortedKeys(x.inlined), sortedKeys(x.trusted), sortedKeys(x.notes)
	}()
	if t.ct != nil && t.ct.missing != "" && t.ct.optional {
		return
	}
	if t.ct != nil && t.ct.missing != "" {
		res.obls = []*Obl{{Name: "the function under contract exists", Tags: []string{"reach"}, note: t.ct.missing, ans: &Answer{res: Unknown}}}
		return
	}
	run := func() (again bool) {
		x.changed, x.modsGrew = false, false
		x.obls, x.work, x.returns, x.steps, x.late = nil, nil, 0, 0, nil
		for _, i := range x.loopInfo {
			i.assumed = false
		}
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(restart); ok {
					again = true
					return
				}
				if u, ok := r.(unsupportedErr); ok {
					x.obls = append(x.obls, &Obl{Name: "within the verifier's reach", Tags: []string{"reach"}, note: "unsupported: " + u.msg, ans: &Answer{res: Unknown}})
					again = false
					return
				}
				if os.Getenv("GOCV_PANIC") != "" {
					panic(r)
				}
				x.obls = append(x.obls, &Obl{Name: "within the verifier's reach", Tags: []string{"reach"}, note: fmt.Sprintf("internal error: %v", r), ans: &Answer{res: Unknown}})
				again = false
			}
		}()
		if t.custom != nil {
			t.custom(x)
		} else if t.ct.lemma {
			x.runLemma()
		} else {
			st := x.setup()
			if st != nil {
				x.work = []*State{st}
				x.runAll()
			}
		}
		return x.changed
	}
	for i := 0; ; i++ {
		res.runs++
		more := run()
		if debugCands {
			fmt.Printf("run %d: %.2fs, %d queries so far\n", i, time.Since(t0).Seconds(), statQueries)
		}
		if !more {
			break
		}
		if i > 80 {
			x.obls = append(x.obls, &Obl{Name: "loop inference terminates", Tags: []string{"reach"}, ans: &Answer{res: Unknown}})
			break
		}
	}
	// discharge
	var todo []*Obl
	for _, o := range x.obls {
		if o.static || o.q == nil {
			if o.static && o.solver == "" {
				o.solver = "simplifier"
			}
			continue
		}
		todo = append(todo, o)
	}
	inParallel(len(todo), func(i int) { x.discharge(todo[i]) })
	for _, o := range todo {
		if !o.ok && o.ans != nil && o.ans.res == Sat && res.model == nil {
			q := *o.q
			if m := x.c.Check(&q, true); m.model != nil {
				res.model = m.model
				o.ans.model = m.model
			}
		}
	}
	res.obls = x.obls
	res.returns = x.returns
	if t.custom == nil && !t.ct.lemma && x.returns == 0 {
		bad := false
		for _, o := range x.obls {
			if !o.ok {
				bad = true
			}
		}
		if !bad {
			res.obls = append(res.obls, &Obl{Name: "some path returns (the contract is not vacuous)", Tags: []string{"reach"}, ans: &Answer{res: Unknown}})
		}
	}
	return
}

func inParallel(n int, f func(i int)) {
	if n <= 1 {
		for i := 0; i < n; i++ {
			f(i)
		}
		return
	}
	w := cap(slots)
	if w > n {
		w = n
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// discharge decides one obligation
func (x *Exec) discharge(o *Obl) {
	if enough() || outOfTime() {
		o.ans = &Answer{res: Unknown}
		o.skipped = true
		return
	}
	if !relevantTags(o.Tags, x.tgt.prop, x.tgt.own) {
		return
	}
	defer func() {
		if !o.ok {
			atomic.AddInt64(&statFails, 1)
		}
	}()
	qs := o.parts
	if len(qs) == 0 {
		qs = []*Query{o.q}
	}
	for _, q0 := range qs {
		q0.timeout = timeoutMS
		o.solver = "z3"
		if q0.cone != nil {
			// a subset of the hypotheses first
			q0.timeout = 5000
			if a := x.c.Check(q0, false); a.res == Unsat {
				o.ans = a
				continue
			}
			q0.cone = nil
			q0.timeout = timeoutMS
		}
		o.ans = x.ask(q0)
		if o.ans.res == Unknown && !noFallback && !failing() {
			q := *q0
			q.timeout = 3 * timeoutMS
			bins := []string{"cvc5", "z3"}
			names := []string{"cvc5", "z3-4.8"}
			as := make([]*Answer, len(bins))
			inParallel(len(bins), func(i int) { as[i] = x.c.CheckWith(&q, bins[i]) })
			for i, a := range as {
				if a.res != Unknown && o.ans.res == Unknown {
					o.ans = a
					o.solver = names[i]
				}
			}
		}
		if o.ans.res != Unsat {
			o.q = q0
			break
		}
	}
	o.ok = o.ans.res == Unsat
	if o.ok && thorough {
		x.secondOpinion(o, qs)
	}
	if debugCands {
		fmt.Printf("  %v %.2fs %s [%s]\n", o.ans.res, o.ans.dur.Seconds(), o.Name, strings.Join(o.trail, "; "))
	}
}

// secondOpinion (thorough tier): every query that one solver discharged is put to another one as well. A
// disagreement fails the obligation; no answer within the time leaves it unconfirmed, which the evidence counts.
func (x *Exec) secondOpinion(o *Obl, qs []*Query) {
	for _, q0 := range qs {
		if time.Now().After(confirmUntil) {
			atomic.AddInt64(&statUnconfirmed, 1)
			return
		}
		confirmed := false
		for _, b := range []string{"cvc5", "z3"} {
			if b == o.solver || b == "z3" && o.solver == "z3-4.8" {
				continue
			}
			q := *q0
			q.timeout = 15000
			a := x.c.CheckWith(&q, b)
			if a.trivial {
				confirmed = true
				break
			}
			if a.res == Sat && q.cone == nil {
				o.ok = false
				o.note = "solvers disagree: " + o.solver + " discharges this obligation, " + b + " refutes it"
				return
			}
			if a.res == Unsat {
				confirmed = true
				break
			}
		}
		if !confirmed {
			atomic.AddInt64(&statUnconfirmed, 1)
			return
		}
	}
	atomic.AddInt64(&statConfirmed, 1)
}

func (x *Exec) newEnv(st *State) *SpecEnv {
	return &SpecEnv{x: x, st: st, h: st, vars: map[string]SV{}, macros: x.tgt.sp.macros}
}

func (x *Exec) setup() *State {
	ct := x.tgt.ct
	fn := ct.ssa
	st := &State{x: x, heap: map[*Obj]Val{}, counter: map[string]int{}, ghost: map[string]SV{}, opq: map[string]*Obj{}, entryLets: map[string]SV{}}
	x.entry = nil
	env := x.newEnv(st)
	x.env = env
	var args []Val
	if fn != nil {
		for i, p := range fn.Params {
			name := p.Name()
			if i < len(ct.params) {
				name = ct.params[i]
			}
			var v Val
			if alt, ok := x.tgt.sel[name]; ok {
				v = st.caseVal(name, alt, p.Type())
			} else {
				v = st.symbolic(name, p.Type(), true)
			}
			args = append(args, v)
			env.vars[name] = SV{v, p.Type()}
		}
	}
	x.entry = st
	st.entryClauses(env, ct)
	x.entry = st.clone()
	env.old = x.entry
	if st.pcFalse() || !st.feasible(x.c.Var("vacuity", 0)) {
		if len(x.tgt.sel) == 0 {
			st.failObl("preconditions are satisfiable", []string{"reach"}, "", "")
			x.obls[len(x.obls)-1].q = nil
			x.obls[len(x.obls)-1].ans = &Answer{res: Unknown}
		} else {
			x.returns = 1
		}
		return nil
	}
	st.pushFrame(fn, args, nil, "", func(s *State, v Val) { s.finish(v) })
	return st
}

// lemma: a statement over specification values alone
func (x *Exec) runLemma() {
	ct := x.tgt.ct
	st := &State{x: x, heap: map[*Obj]Val{}, counter: map[string]int{}, ghost: map[string]SV{}, opq: map[string]*Obj{}, entryLets: map[string]SV{}}
	env := x.newEnv(st)
	x.env = env
	for i, p := range ct.params {
		t := x.specType(ct.ptypes[i])
		env.vars[p] = SV{st.symbolic(p, t, true), t}
	}
	x.entry = st
	st.entryClauses(env, ct)
	if st.pcFalse() || !st.feasible(x.c.Var("vacuity", 0)) {
		x.obls = append(x.obls, &Obl{Name: "premises are satisfiable", Tags: []string{"reach"}, ans: &Answer{res: Unknown}})
		return
	}
	for _, cl := range ct.find("ensures") {
		st.oblige("lemma "+cl.text, cl.tags, ct.file, env.bool(cl.expr))
	}
}

func (x *Exec) specType(s string) types.Type {
	if strings.HasPrefix(s, "*") {
		return types.NewPointer(x.specType(s[1:]))
	}
	if strings.HasPrefix(s, "[]") {
		return types.NewSlice(x.specType(s[2:]))
	}
	if o, ok := types.Universe.Lookup(s).(*types.TypeName); ok {
		return o.Type()
	}
	pkg, tn := ".", s
	if i := strings.LastIndex(s, "."); i >= 0 {
		pkg, tn = s[:i], s[i+1:]
	}
	nt := x.prog.namedType(pkg, tn)
	if nt == nil {
		unsupported("type %s not found", s)
	}
	return nt
}

func (st *State) pcFalse() bool {
	for _, p := range st.pc {
		if p.isFalse() {
			return true
		}
	}
	return false
}

func (st *State) caseVal(name, alt string, t types.Type) Val {
	x := st.x
	c := x.c
	switch alt {
	case "nil":
		return x.zero(t)
	case "nonnil":
		v := st.symbolic(name, t, true)
		if o, ok := v.(OpaqueV); ok {
			st.assume(c.Ne(o.id, c.I(0)))
		}
		return v
	case "other":
		return st.symbolic(name, t, true)
	}
	ptr := strings.HasPrefix(alt, "*")
	a := strings.TrimPrefix(alt, "*")
	pkg, tn := ".", a
	if i := strings.LastIndex(a, "."); i >= 0 {
		pkg, tn = a[:i], a[i+1:]
	}
	nt := x.prog.namedType(pkg, tn)
	if nt == nil {
		unsupported("type %s not found", alt)
	}
	if ptr {
		nt = types.NewPointer(nt)
	}
	if !types.IsInterface(t) {
		return st.symbolic(name, nt, true)
	}
	return IfaceV{typ: nt, v: st.symbolic(name, nt, true)}
}

func (st *State) entryClauses(env *SpecEnv, ct *Contract) {
	for _, cl := range ct.clauses {
		switch cl.kind {
		case "requires", "axiom", "assume", "invariant":
			if !relevantTags(cl.tags, st.x.tgt.prop, has(ct.allTags(), st.x.tgt.prop)) {
				continue
			}
			st.assume(env.bool(cl.expr))
		case "let":
			v := env.eval(cl.expr)
			env.vars[cl.name] = v
			st.entryLets[cl.name] = v
		case "ghost":
			v := env.eval(cl.expr)
			if t, ok := v.v.(*Term); ok && t.w != 0 && t.w != 64 {
				v = SV{env.ext(v, cl.expr), intType}
			}
			if _, ok := v.v.(nilVal); ok {
				v = SV{OpaqueV{st.x.c.I(0), nil}, nil}
			}
			st.ghost[cl.name] = v
		case "hint":
			st.hints = append(st.hints, env.int(cl.expr))
		}
	}
}

func (env *SpecEnv) bindResults(ct *Contract, fn *ssa.Function, v Val) {
	rs := fn.Signature.Results()
	bind := func(i int, v Val) {
		sv := SV{v, rs.At(i).Type()}
		env.vars[fmt.Sprintf("ret%d", i)] = sv
		if i < len(ct.rets) {
			env.vars[ct.rets[i]] = sv
		}
	}
	switch rs.Len() {
	case 0:
	case 1:
		bind(0, v)
	default:
		t := v.(TupleV)
		for i := range t.v {
			bind(i, t.v[i])
		}
	}
}

func (st *State) finish(v Val) {
	x := st.x
	ct := x.tgt.ct
	x.returns++
	g := st.clone()
	env := x.env.in(g).with(nil)
	env.bindResults(ct, ct.ssa, v)
	pos := x.posOf(ct.ssa.Pos())
	for _, cl := range ct.clauses {
		switch cl.kind {
		case "exitlet":
			env.vars[cl.name] = env.eval(cl.expr)
		case "returns":
			g.oblige(fmt.Sprintf("returns %s", cl.text), cl.tags, pos, env.returnsShape(cl))
		case "ensures", "invariant":
			goal := env.goal(cl.expr)
			g.oblige(cl.kind+" "+cl.text, cl.tags, pos, goal)
		}
	}
	if !ct.noframe {
		g.frameCheck(env, ct, pos)
	}
}

// goal: a proof goal; an implication whose conclusion makes no sense for the value at hand holds
// only if its premise is false
func (env *SpecEnv) goal(e ast.Expr) *Term {
	call, ok := e.(*ast.CallExpr)
	if !ok {
		return env.bool(e)
	}
	id, ok := call.Fun.(*ast.Ident)
	if !ok || id.Name != "imp" || len(call.Args) != 2 {
		return env.bool(e)
	}
	a := env.bool(call.Args[0])
	if a.isFalse() {
		return env.x.c.T
	}
	if a.isTrue() {
		return env.bool(call.Args[1])
	}
	var b *Term
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(unsupportedErr); !ok {
					panic(r)
				}
				b = env.x.c.F
			}
		}()
		b = env.bool(call.Args[1])
	}()
	return env.x.c.Implies(a, b)
}

// goalOrTrue: the clause, or nothing where it makes no sense for the value at hand
func (env *SpecEnv) goalOrTrue(e ast.Expr) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupportedErr); !ok {
				panic(r)
			}
			t = env.x.c.T
		}
	}()
	return env.bool(e)
}

// returnsShape: the result has the declared form
func (env *SpecEnv) returnsShape(cl *Clause) *Term {
	c := env.x.c
	v := env.vars[cl.name]
	r := c.F
	for _, alt := range orAlts(cl.expr) {
		if id, ok := alt.(*ast.Ident); ok {
			switch id.Name {
			case "nil":
				r = c.Or(r, env.equal(v, SV{nilVal{}, nil}, alt))
				continue
			case "FrameV1", "FrameV2":
				r = c.Or(r, env.typeIs(v, "mavlink2."+id.Name))
				continue
			}
		}
		if se, ok := alt.(*ast.SliceExpr); ok {
			base, ok1 := env.eval(se.X).v.(SliceV)
			s, ok2 := v.v.(SliceV)
			if ok1 && ok2 && s.obj == base.obj && pathKey(s.path) == pathKey(base.path) {
				lo := c.I(0)
				if se.Low != nil {
					lo = env.int(se.Low)
				}
				r = c.Or(r, c.And(c.Eq(s.off, c.Add(base.off, lo)), c.Eq(s.cap, c.Sub(base.cap, lo)), c.Eq(s.nilc, base.nilc)))
			}
			continue
		}
		env.bad(alt, "returns %s", cl.text)
	}
	if cl.cond != nil {
		r = c.Implies(env.bool(cl.cond), r)
	}
	return r
}
func orAlts(e ast.Expr) []ast.Expr {
	if b, ok := e.(*ast.BinaryExpr); ok && b.Op.String() == "|" {
		return append(orAlts(b.X), orAlts(b.Y)...)
	}
	return []ast.Expr{e}
}

// ---- frame conditions

type modEntry struct {
	obj    *Obj
	path   []Step
	elems  bool
	lo, hi *Term // absolute element range when elems
	tags   []string
	rd     string
}

func (env *SpecEnv) modEntries(ct *Contract) []modEntry {
	var out []modEntry
	c := env.x.c
	for _, cl := range ct.find("modifies") {
		if cl.expr == nil {
			continue
		}
		for _, a := range cl.expr.(*ast.CallExpr).Args {
			if call, ok := a.(*ast.CallExpr); ok {
				id, _ := call.Fun.(*ast.Ident)
				switch {
				case id != nil && id.Name == "elems":
					s, ok := env.eval(call.Args[0]).v.(SliceV)
					if !ok {
						env.bad(a, "elems of a slice expected")
					}
					if s.obj == nil {
						continue
					}
					lo, hi := c.I(0), s.len
					if len(call.Args) == 3 {
						lo, hi = env.int(call.Args[1]), env.int(call.Args[2])
					}
					out = append(out, modEntry{obj: s.obj, path: s.path, elems: true, lo: c.Add(s.off, lo), hi: c.Add(s.off, hi), tags: cl.tags})
					continue
				case id != nil && id.Name == "mapof":
					m, ok := env.eval(call.Args[0]).v.(MapRef)
					if ok && m.obj != nil {
						out = append(out, modEntry{obj: m.obj, tags: cl.tags})
					}
					continue
				case id != nil && id.Name == "rd":
					out = append(out, modEntry{rd: env.h.rdKey(env.eval(call.Args[0]).v), tags: cl.tags})
					continue
				}
				env.bad(a, "modifies %s", exprString(a))
			}
			p := env.addr(a)
			out = append(out, modEntry{obj: p.obj, path: p.path, tags: cl.tags})
		}
	}
	return out
}

func (st *State) frameCheck(env *SpecEnv, ct *Contract, pos string) {
	x := st.x
	c := x.c
	old := x.env.in(x.entry)
	// locations are those denoted in the entry state
	oe := *env
	oe.h = x.entry
	_ = old
	mods := oe.modEntries(ct)
	var tags []string
	for _, cl := range ct.find("modifies") {
		tags = append(tags, cl.tags...)
	}
	tags = append(tags, "frame")
	var objs []*Obj
	for o := range x.entry.heap {
		objs = append(objs, o)
	}
	for o := range x.gheap {
		if o.glob != nil || o.pre {
			objs = append(objs, o)
		}
	}
	for _, o := range st.opq {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].key < objs[j].key })
	all := c.T
	var bad []string
	for _, o := range objs {
		var v0 Val
		if v, ok := x.entry.heap[o]; ok {
			v0 = v
		} else if v, ok := x.gheap[o]; ok {
			v0 = v
		} else {
			for k, oo := range st.opq {
				if oo == o {
					if a, ok := st.heap[o].(ArrV); ok {
						v0 = ArrV{arr: c.Base("mem:"+k, a.arr.ew), n: a.n, elem: a.elem}
					}
				}
			}
		}
		v1, ok := st.heap[o]
		if !ok || v0 == nil {
			continue
		}
		t := st.sameExcept(env, o, nil, v0, v1, mods)
		if !t.isTrue() {
			all = c.And(all, t)
			bad = append(bad, o.key)
		}
	}
	for k, v := range st.ghost {
		if !strings.HasPrefix(k, "pos:") {
			continue
		}
		v0, ok := x.entry.ghost[k]
		if !ok {
			continue
		}
		lst := false
		for _, m := range mods {
			if m.rd == k {
				lst = true
			}
		}
		if !lst {
			all = c.And(all, c.Eq(v.v.(*Term), v0.v.(*Term)))
		}
	}
	st.oblige("modifies nothing else"+map[bool]string{true: " (" + strings.Join(bad, ", ") + ")", false: ""}[len(bad) > 0], tags, pos, all)
}

func (st *State) sameExcept(env *SpecEnv, o *Obj, path []Step, a, b Val, mods []modEntry) *Term {
	x := st.x
	c := x.c
	key := pathKey(path)
	var elem []modEntry
	sub := false
	for _, m := range mods {
		if m.obj != o {
			continue
		}
		mk := pathKey(m.path)
		if mk == key && !m.elems {
			return c.T
		}
		if mk == key && m.elems {
			elem = append(elem, m)
		}
		if strings.HasPrefix(mk, key) {
			sub = true
		}
	}
	if x.valKeySafe(a) == x.valKeySafe(b) && x.valKeySafe(a) != "" {
		return c.T
	}
	if as, ok := a.(StructV); ok {
		bs := b.(StructV)
		r := c.T
		for i := range as.f {
			r = c.And(r, st.sameExcept(env, o, append(append([]Step(nil), path...), Step{field: i}), as.f[i], bs.f[i], mods))
		}
		return r
	}
	_ = sub
	if len(elem) > 0 {
		aa, ok1 := a.(ArrV)
		bb, ok2 := b.(ArrV)
		if ok1 && ok2 {
			d := c.Var("?k", 64)
			ex := c.Eq(c.Sel(aa.arr, d), c.Sel(bb.arr, d))
			for _, m := range elem {
				ex = c.Or(ex, c.And(c.Sle(m.lo, d), c.Slt(d, m.hi)))
			}
			return env.forall(c.I(0), aa.n, d, ex)
		}
		return c.T
	}
	return env.reify(x.eqParts(a, b))
}
func (x *Exec) valKeySafe(v Val) string {
	switch t := v.(type) {
	case *Term, ArrV, PtrV, SliceV, OpaqueV:
		return x.valKey(t)
	}
	return ""
}

// ---- modular calls

func (x *Exec) modularContract(fn *ssa.Function) *Contract {
	if x.tgt == nil || x.tgt.sp == nil {
		return nil
	}
	ct := x.tgt.sp.byFn[fn]
	if ct == nil || !ct.modular {
		return nil
	}
	return ct
}

func (st *State) applyContract(ct *Contract, fn *ssa.Function, args []Val, site ssa.Instruction, deliver func(*State, Val)) {
	x := st.x
	c := x.c
	if x.applied == nil {
		x.applied = map[*Contract]bool{}
	}
	x.applied[ct] = true
	ownCt := x.tgt.prop != "" && has(ct.allTags(), x.tgt.prop)
	// a proof may choose not to use the callee's postconditions
	weak := x.tgt.ct != nil && x.tgt.ct.opts["weaken:"+ct.base()]
	env := x.newEnv(st)
	for i, p := range fn.Params {
		name := p.Name()
		if i < len(ct.params) {
			name = ct.params[i]
		}
		env.vars[name] = SV{args[i], p.Type()}
	}
	pos := st.pos(site)
	pre := st.clone()
	env.old = pre
	for _, cl := range ct.clauses {
		switch cl.kind {
		case "requires", "invariant":
			if !relevantTags(cl.tags, x.tgt.prop, ownCt) {
				continue
			}
			// provable facts are taken from a clone so that reified quantifiers stay available
			t := env.bool(cl.expr)
			st.oblige("call of "+ct.fn+": requires "+cl.text, []string{"pre"}, pos, t)
			st.assume(t)
		case "let":
			env.vars[cl.name] = env.eval(cl.expr)
		case "ghost":
			// the callee's ghost state at exit is whatever its postconditions say
			v := env.eval(cl.expr)
			if t, ok := v.v.(*Term); ok {
				w := t.w
				if w != 0 {
					w = 64
				}
				env.vars[cl.name] = SV{st.freshVar("ghost:"+cl.name, w), v.t}
				if w == 64 {
					env.vars[cl.name] = SV{env.vars[cl.name].v, intType}
				}
			} else {
				env.vars[cl.name] = SV{OpaqueV{st.freshVar("ghost:"+cl.name, 64), nil}, nil}
			}
		case "axiom":
			st.assume(env.bool(cl.expr))
		}
	}
	mods := env.modEntries(ct)
	empty := &loopInfo{refs: map[string]string{}}
	for _, m := range mods {
		switch {
		case m.rd != "":
			p := st.freshVar("pos", 64)
			st.assume(c.And(c.Sle(c.I(0), p), c.Slt(p, c.I(1<<60))))
			st.noteGhost(m.rd)
			st.ghost[m.rd] = SV{p, intType}
		case m.elems:
			if b, ok := x.getPath(st.must(m.obj), m.path).(ArrV); ok {
				fresh := c.Base(st.freshName("c:"+ct.fn), b.arr.ew)
				st.noteWrite(m.obj, m.path)
				st.heap[m.obj] = x.setPath(st.must(m.obj), m.path, ArrV{arr: c.CopyArr(b.arr, m.lo, fresh, m.lo, c.Sub(m.hi, m.lo)), n: b.n, elem: b.elem})
			} else {
				unsupported("modifies elements of %T", st.must(m.obj))
			}
		default:
			st.noteWrite(m.obj, m.path)
			nv := st.havocVal("c:"+ct.fn, x.getPath(st.must(m.obj), m.path), empty, "")
			st.heap[m.obj] = x.setPath(st.must(m.obj), m.path, nv)
		}
	}
	// result
	rs := fn.Signature.Results()
	alts := [][]Val{{}}
	var conds []ast.Expr // the conditions under which the declared forms apply
	for i := 0; i < rs.Len(); i++ {
		var vs []Val
		for _, cl := range ct.find("returns") {
			if i < len(ct.rets) && ct.rets[i] == cl.name {
				for _, alt := range orAlts(cl.expr) {
					vs = append(vs, env.shapeVal(cl.name, alt, rs.At(i).Type()))
				}
				if cl.cond != nil {
					if rs.Len() > 2 || i != 0 {
						unsupported("contract: conditional returns of %s", ct.fn)
					}
					conds = append(conds, cl.cond)
					vs = append(vs, st.freshRef("ret:"+fn.Name(), rs.At(i).Type()))
				}
			}
		}
		if vs == nil {
			vs = []Val{st.freshRef("ret:"+fn.Name(), rs.At(i).Type())}
		}
		var next [][]Val
		for _, a := range alts {
			for _, v := range vs {
				next = append(next, append(append([]Val(nil), a...), v))
			}
		}
		alts = next
	}
	for k := len(alts) - 1; k >= 0; k-- {
		s := st
		if k > 0 {
			s = st.clone()
		}
		e := env.in(s).with(nil)
		var v Val
		switch rs.Len() {
		case 0:
		case 1:
			v = alts[k][0]
		default:
			v = TupleV{v: alts[k]}
		}
		e.bindResults(ct, fn, v)
		anyForm := conds != nil && k == len(alts)-1
		if anyForm {
			s.assume(c.Not(e.bool(conds[0])))
		}
		for _, cl := range ct.clauses {
			switch cl.kind {
			case "exitlet":
				e.vars[cl.name] = e.eval(cl.expr)
			case "ensures", "invariant":
				// only what the callee is checked against for this property
				if relevantTags(cl.tags, x.tgt.prop, ownCt) && !weak {
					if anyForm {
						s.assume(e.goalOrTrue(cl.expr))
						continue
					}
					s.assume(e.bool(cl.expr))
				}
			}
		}
		ev := map[string]SV{}
		for i, p := range fn.Params {
			ev[fmt.Sprintf("arg%d", i)] = SV{args[i], p.Type()}
		}
		for i := range alts[k] {
			ev[fmt.Sprintf("ret%d", i)] = SV{alts[k][i], rs.At(i).Type()}
		}
		if k > 0 {
			if s.pcFalse() || !s.feasible(c.Var("vacuity", 0)) {
				continue
			}
			s.event("call "+ct.base(), ev, site)
			deliver(s, v)
			if len(s.stack) > 0 {
				x.work = append(x.work, s)
			}
			continue
		}
		if len(alts) > 1 && (s.pcFalse() || !s.feasible(c.Var("vacuity", 0))) {
			s.kill()
			return
		}
		s.event("call "+ct.base(), ev, site)
		deliver(s, v)
	}
}

func (env *SpecEnv) shapeVal(name string, alt ast.Expr, t types.Type) Val {
	x := env.x
	c := x.c
	st := env.st
	if id, ok := alt.(*ast.Ident); ok {
		switch id.Name {
		case "nil":
			return x.zero(t)
		case "FrameV1", "FrameV2":
			nt := x.prog.namedType(".", id.Name)
			if nt == nil {
				unsupported("type %s", id.Name)
			}
			v := st.symbolic(st.freshName("ret:"+name), nt, false)
			return IfaceV{typ: nt, v: v}
		}
	}
	if se, ok := alt.(*ast.SliceExpr); ok {
		base, ok := env.eval(se.X).v.(SliceV)
		if ok {
			lo := c.I(0)
			if se.Low != nil {
				lo = env.int(se.Low)
			}
			n := st.freshVar("len:"+name, 64)
			st.assume(c.Ule(n, c.Sub(base.cap, lo)))
			return SliceV{obj: base.obj, path: base.path, off: c.Add(base.off, lo), len: n, cap: c.Sub(base.cap, lo), nilc: base.nilc, elem: base.elem}
		}
	}
	env.bad(alt, "returns %s", exprString(alt))
	return nil
}

// ---- loop templates

func (x *Exec) loopTmpls(f *Frame) []*LoopTmpl {
	if x.tgt == nil || x.tgt.sp == nil {
		return nil
	}
	var out []*LoopTmpl
	add := func(ct *Contract) {
		own := has(ct.allTags(), x.tgt.prop)
		for _, l := range ct.loops {
			if relevantTags(l.tags, x.tgt.prop, own) {
				out = append(out, l)
			}
		}
	}
	if x.tgt.ct != nil {
		add(x.tgt.ct)
	}
	if ct := x.tgt.sp.byFn[f.fn]; ct != nil && ct != x.tgt.ct {
		add(ct)
	}
	return out
}

func (st *State) tmplEnv(cd *Cand, ls *leafSet) *SpecEnv {
	x := st.x
	env := x.newEnv(st)
	env.old = x.entry
	if cd.tmpl.ct == x.tgt.ct {
		for k, v := range x.env.vars {
			env.vars[k] = v
		}
	} else {
		for i := len(st.stack) - 1; i >= 0; i-- {
			f := st.stack[i]
			if f.fn != cd.tmpl.ct.ssa {
				continue
			}
			for k, p := range f.fn.Params {
				if k < len(cd.tmpl.ct.params) {
					env.vars[cd.tmpl.ct.params[k]] = SV{f.env[p], p.Type()}
				}
			}
			break
		}
		for _, cl := range cd.tmpl.ct.find("let") {
			env.vars[cl.name] = env.eval(cl.expr)
		}
	}
	for m, n := range cd.bind {
		if b, ok := ls.bytes[n]; ok {
			env.vars["META_"+m] = SV{b, types.NewSlice(types.Typ[types.Uint8])}
			continue
		}
		t, ok := ls.terms[n]
		if !ok {
			return nil
		}
		if types.Identical(ls.types[n], errorType) {
			env.vars["META_"+m] = SV{OpaqueV{t, errorType}, errorType}
			continue
		}
		env.vars["META_"+m] = SV{t, ls.types[n]}
	}
	return env
}

func (st *State) evalTmpl(cd *Cand, ls *leafSet, al *activeLoop) (r *Term) {
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(unsupportedErr); ok {
				if debugCands {
					fmt.Printf("    template %s: %s\n", cd.key, u.msg)
				}
				r = nil
				return
			}
			panic(e)
		}
	}()
	env := st.tmplEnv(cd, ls)
	if env == nil || cd.vars != nil && !cd.vars(st, al, env) {
		return nil
	}
	return env.bool(cd.tmpl.expr)
}

func (st *State) proveTmpl(cd *Cand, ls *leafSet, al *activeLoop) *Term {
	return st.evalTmpl(cd, ls, al)
}
func (st *State) assumeTmpl(cd *Cand, ls *leafSet, al *activeLoop) {
	if t := st.evalTmpl(cd, ls, al); t != nil {
		st.assume(t)
	}
}

// ---- events

func eventOrder(args map[string]SV) []string {
	fixed := []string{"ch", "addr", "mu", "v", "ok", "size", "recv"}
	var out []string
	for _, k := range fixed {
		if _, ok := args[k]; ok {
			out = append(out, k)
		}
	}
	for i := 0; i < 10; i++ {
		if _, ok := args[fmt.Sprintf("arg%d", i)]; ok {
			out = append(out, fmt.Sprintf("arg%d", i))
		}
	}
	for i := 0; i < 10; i++ {
		if _, ok := args[fmt.Sprintf("ret%d", i)]; ok {
			out = append(out, fmt.Sprintf("ret%d", i))
		}
	}
	return out
}

func (st *State) event(name string, args map[string]SV, site ssa.Instruction) {
	x := st.x
	c := x.c
	if x.initMode || x.tgt == nil || x.tgt.ct == nil || x.env == nil {
		return
	}
	for _, cl := range x.tgt.ct.clauses {
		if cl.kind != "on" || cl.rule.event != name {
			continue
		}
		r := cl.rule
		bind := map[string]SV{}
		ord := eventOrder(args)
		for i, p := range r.params {
			if i < len(ord) {
				bind[p] = args[ord[i]]
			}
		}
		if s, ok := args["sel"]; ok {
			bind["sel"] = s
		} else {
			bind["sel"] = SV{selSet{}, nil}
		}
		env := x.env.in(st).with(bind)
		env.old = x.entry
		g := c.T
		if r.guard != nil {
			g = env.bool(r.guard)
			if g.isFalse() {
				continue
			}
			if !g.isTrue() {
				if !st.feasible(g) {
					continue
				}
				if st.entails(g) {
					st.assume(g)
					g = c.T
				}
			}
		}
		pos := ""
		if site != nil {
			pos = st.pos(site)
		}
		for _, a := range r.actions {
			if !relevantTags(a.tags, x.tgt.prop, x.tgt.own) {
				continue
			}
			switch a.kind {
			case "assert":
				t := c.Implies(g, env.bool(a.expr))
				st.oblige(fmt.Sprintf("on %s: %s", name, a.text), a.tags, pos, t)
				st.assume(t)
			case "abstract":
				// forget the contents of the place but for what is stated, provided that the statement holds;
				// otherwise nothing changes
				if !g.isTrue() {
					continue
				}
				s := st.clone()
				e := *env
				e.st, e.h = s, s
				if s.entails(e.bool(a.expr)) {
					tmp := &Contract{clauses: []*Clause{{kind: "modifies", expr: a.lhs}}}
					for _, m := range env.modEntries(tmp) {
						if !m.elems {
							unsupported("contract: abstract %s", a.text)
						}
						if b, ok := x.getPath(st.must(m.obj), m.path).(ArrV); ok {
							fresh := c.Base(st.freshName("abs"), b.arr.ew)
							st.noteWrite(m.obj, m.path)
							st.heap[m.obj] = x.setPath(st.must(m.obj), m.path, ArrV{arr: c.CopyArr(b.arr, m.lo, fresh, m.lo, c.Sub(m.hi, m.lo)), n: b.n, elem: b.elem})
						}
					}
					ne := x.env.in(st).with(bind)
					ne.old = x.entry
					st.assume(ne.bool(a.expr))
				}
			case "check": // proved here, not used afterwards
				s := st.clone()
				e := *env
				e.st, e.h = s, s
				s.oblige(fmt.Sprintf("on %s: %s", name, a.text), a.tags, pos, c.Implies(g, e.bool(a.expr)))
			case "assume":
				st.assume(c.Implies(g, env.bool(a.expr)))
			case "set":
				v := env.eval(a.expr)
				if t, ok := v.v.(*Term); ok && t.w != 0 && t.w != 64 {
					v = SV{env.ext(v, a.expr), intType}
				}
				old, ok := st.ghost[a.name]
				if !ok {
					unsupported("contract: ghost %s", a.name)
				}
				if _, ok := v.v.(nilVal); ok {
					v = SV{OpaqueV{c.I(0), nil}, nil}
				}
				if !g.isTrue() {
					v = env.iteSV(g, v, old, a.expr)
				}
				st.noteGhost(a.name)
				st.ghost[a.name] = v
			case "havoc":
				p := env.addr(a.lhs)
				nv := st.havocVal("on:"+name, st.load(p), &loopInfo{refs: map[string]string{}}, "")
				if !g.isTrue() {
					nv = x.iteVal(g, nv, st.load(p))
				}
				st.store(p, nv)
			}
		}
	}
}

var timeoutMS = 20000

var noFallback = os.Getenv("GOCV_NOFB") != ""
