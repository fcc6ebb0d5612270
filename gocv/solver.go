package main

// SMT back end: prints queries, instantiates quantified facts and spec-function axioms,
// and talks to z3 processes.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Fact is a universally quantified hypothesis: forall k in [lo,hi). body(k).
type Fact struct {
	name   string
	lo, hi *Term
	body   func(k *Term) *Term
	trigs  []trig // computed lazily
	init   bool
	manual bool
	expand bool    // small constant range and a body that distinguishes indices by value
	insts  []*Term // explicit instances always added
	guard  *Term   // premise
	key    string
	def    *Term               // the assertion that gives a falsified quantifier its counterexample
	trig   func(k *Term) *Term // the terms that trigger instances (default: the body)
}
type trig struct {
	arr  *Arr
	rest *Term // Sel(arr, k+rest)
	app  string
	argi int
	appw int
}

// Witness: W = least k in [lo,hi) with P(k), or hi (kind first); greatest or lo-1 (kind last).
type Witness struct {
	w      *Term
	last   bool
	lo, hi *Term
	P      func(k *Term) *Term
	fact   *Fact
}

type Solver struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	uses int
	core int
}

var solverBin = envOr("GOCV_SOLVER", "z3-new")
var solverOpts = envOr("GOCV_OPTS", "tactic.default_tactic=smt")

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// a run that cannot end well ends early: past the deadline nothing more is asked, and after enough
// failed obligations the others are not attempted. Neither ever counts as discharged.
var (
	deadline  time.Time
	statFails int64
	maxFails  int64 = 12
)

// the thorough tier
var (
	thorough        bool
	confirmUntil    time.Time
	statConfirmed   int64
	statUnconfirmed int64
)

func outOfTime() bool { return !deadline.IsZero() && time.Now().After(deadline) }

// failing: obligations have failed already, so no more than the usual effort goes into the others
func failing() bool { return atomic.LoadInt64(&statFails) >= 3 }
func enough() bool  { return atomic.LoadInt64(&statFails) >= maxFails }

// slots: solver processes that run at the same time
var slots = make(chan bool, 8)

// A query goes to z3's default core for a short time, then to its newer one (another search on the same formula), then
// to the first again for the full time.
const (
	coreDefault = iota
	coreNew
	cores
)

var coreOpts = [cores]string{coreNew: " sat.smt=true sat.euf=true"}

var (
	solverPool  = [cores]chan *Solver{make(chan *Solver, 64), make(chan *Solver, 64)}
	statQueries int64
	statNanos   int64
	statMax     int64
	statUnknown int64
	slowMu      sync.Mutex
)

func getSolver(core int) *Solver {
	select {
	case s := <-solverPool[core]:
		return s
	default:
	}
	cmd := exec.Command(solverBin, append(strings.Fields(solverOpts+coreOpts[core]), "-in", "-smt2")...)
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		fatal("cannot start %s: %v", solverBin, err)
	}
	return &Solver{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<16), core: core}
}
func (s *Solver) kill() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}
func putSolver(s *Solver) {
	s.uses++
	if s.uses > 3000 {
		s.kill()
		return
	}
	select {
	case solverPool[s.core] <- s:
	default:
		s.kill()
	}
}

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type printer struct {
	c     *Ctx
	sb    strings.Builder
	done  map[int]string
	apps  map[string]bool
	arrs  map[string]bool
	vars  map[string]*Term
	sels  []*Term
	crcs  []*Term
	names map[int]string
}

func sortOf(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}
func bvlit(v uint64, w int) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", v&mask(w), w)
}
func q(s string) string {
	return "|" + strings.ReplaceAll(strings.ReplaceAll(s, "|", "!"), "\\", "/") + "|"
}

func (p *printer) term(t *Term) string {
	if t.op == OConst {
		return bvlit(t.k, t.w)
	}
	if s, ok := p.done[t.id]; ok {
		return s
	}
	var as []string
	for _, a := range t.args {
		as = append(as, p.term(a))
	}
	j := strings.Join(as, " ")
	var e string
	switch t.op {
	case OVar:
		n := q(t.name)
		if p.vars[t.name] == nil {
			p.vars[t.name] = t
			fmt.Fprintf(&p.sb, "(declare-fun %s () %s)\n", n, sortOf(t.w))
		}
		p.done[t.id] = n
		return n
	case OSel:
		n := q("A:" + t.arr.name)
		if !p.arrs[t.arr.name] {
			p.arrs[t.arr.name] = true
			fmt.Fprintf(&p.sb, "(declare-fun %s () (Array (_ BitVec 64) (_ BitVec %d)))\n", n, t.arr.ew)
		}
		e = "(select " + n + " " + j + ")"
	case OApp:
		n := q("F:" + t.name)
		if !p.apps[t.name] {
			p.apps[t.name] = true
			var ss []string
			for _, a := range t.args {
				ss = append(ss, sortOf(a.w))
			}
			fmt.Fprintf(&p.sb, "(declare-fun %s (%s) %s)\n", n, strings.Join(ss, " "), sortOf(t.w))
		}
		if len(as) == 0 {
			e = n
		} else {
			e = "(" + n + " " + j + ")"
		}
	case OCrc:
		n := fmt.Sprintf("crc!%d", t.id)
		fmt.Fprintf(&p.sb, "(declare-fun %s () (_ BitVec 16))\n", n)
		p.done[t.id] = n
		return n
	case OLin:
		var ps []string
		for i, a := range as {
			if t.coef[i] == 1 {
				ps = append(ps, a)
			} else if t.coef[i] == mask(t.w) {
				ps = append(ps, "(bvneg "+a+")")
			} else {
				ps = append(ps, fmt.Sprintf("(bvmul %s %s)", bvlit(t.coef[i], t.w), a))
			}
		}
		if t.k != 0 {
			ps = append(ps, bvlit(t.k, t.w))
		}
		e = ps[0]
		for _, x := range ps[1:] {
			e = "(bvadd " + e + " " + x + ")"
		}
	case OExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", t.k>>8, t.k&0xff, j)
	case OZext:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, j)
	case OSext:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, j)
	default:
		n := map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat"}[t.op]
		e = "(" + n + " " + j + ")"
	}
	n := fmt.Sprintf("t%d", t.id)
	fmt.Fprintf(&p.sb, "(define-fun %s () %s %s)\n", n, sortOf(t.w), e)
	p.done[t.id] = n
	return n
}

// collect visits all subterms once.
type collector struct {
	seenT map[int]bool
	sels  []*Term
	apps  []*Term
	crcs  []*Term
	vars  []*Term
	dite  bool
}

func (co *collector) visit(t *Term) {
	if co.seenT[t.id] {
		return
	}
	co.seenT[t.id] = true
	for _, a := range t.args {
		co.visit(a)
	}
	switch t.op {
	case OSel:
		co.sels = append(co.sels, t)
	case OApp:
		co.apps = append(co.apps, t)
	case OCrc:
		co.crcs = append(co.crcs, t)
	case OVar:
		co.vars = append(co.vars, t)
	case OIte:
		if t.args[0].dummy {
			co.dite = true
		}
	}
}

func (c *Ctx) factTriggers(f *Fact) {
	if f.init {
		return
	}
	f.init = true
	if f.manual {
		return
	}
	d := c.Var("?trig", 64)
	b := f.body(d)
	if f.trig != nil {
		b = f.trig(d)
	}
	co := &collector{seenT: map[int]bool{}}
	co.visit(b)
	f.expand = f.hi.isConst() && int64(f.hi.k) > 0 && f.hi.k <= 512 && (co.dite || len(co.sels)+len(co.apps) == 0)
	for _, s := range co.sels {
		if !s.dummy {
			continue
		}
		r := c.Sub(s.args[0], d)
		if !r.dummy {
			f.trigs = append(f.trigs, trig{arr: s.arr, rest: r})
		}
	}
	for _, a := range co.apps {
		for i, x := range a.args {
			if x == d {
				f.trigs = append(f.trigs, trig{app: a.name, argi: i})
			}
		}
	}
}

func (c *Ctx) factInst(f *Fact, k *Term) *Term {
	r := c.Implies(c.And(c.Sle(f.lo, k), c.Slt(k, f.hi)), f.body(k))
	if f.guard != nil {
		r = c.Implies(f.guard, r)
	}
	return r
}

type Query struct {
	asserts []*Term
	facts   []*Fact
	hints   []*Term // instances for manual facts
	timeout int     // ms
	want    []*Term // values wanted in a model
	cone    *Term   // keep only the hypotheses near this goal (which can only make a query weaker)
}
type Answer struct {
	res     Result
	vals    []uint64
	model   *Model
	dur     time.Duration
	trivial bool
}
type Model struct {
	Vars map[string]uint64
	Arrs map[string]map[uint64]uint64
}

var dumpSlow = os.Getenv("GOCV_DUMP")

// relevantFacts leaves out quantified facts that the query does not mention, and the halves of the
// definitions of those whose truth value is known
func (c *Ctx) relevantFacts(qr *Query) (out []*Term, facts []*Fact) {
	defs := map[*Term]*Fact{}
	for _, f := range qr.facts {
		if f.def != nil {
			defs[f.def] = f
		}
	}
	if len(defs) == 0 {
		return append([]*Term{}, qr.asserts...), append([]*Fact{}, qr.facts...)
	}
	known := map[*Term]bool{}
	co := &collector{seenT: map[int]bool{}}
	var top func(t *Term)
	top = func(t *Term) {
		known[t] = true
		if t.op == OAnd {
			for _, a := range t.args {
				top(a)
			}
		}
	}
	for _, t := range qr.asserts {
		if defs[t] == nil {
			top(t)
			co.visit(t)
		}
	}
	used := map[*Term]bool{}
	for _, v := range co.vars {
		used[v] = true
	}
	skip := map[*Term]bool{}
	for _, f := range qr.facts {
		switch {
		case f.def == nil:
			facts = append(facts, f)
		case known[f.guard]:
			skip[f.def] = true
			facts = append(facts, f)
		case known[c.Not(f.guard)]:
		case !used[f.guard]:
			skip[f.def] = true
		default:
			facts = append(facts, f)
		}
	}
	for _, t := range qr.asserts {
		if !skip[t] {
			out = append(out, t)
		}
	}
	return out, facts
}

// closeAxioms adds ground instances of facts and spec axioms until a fixpoint (bounded rounds).
func (c *Ctx) closeAxioms(qr *Query) []*Term {
	out, facts := c.relevantFacts(qr)
	out = c.crcNames(out)
	co := &collector{seenT: map[int]bool{}}
	for _, t := range out {
		co.visit(t)
	}
	seenInst := map[string]bool{}
	add := func(t *Term) {
		if t.isTrue() {
			return
		}
		out = append(out, t)
		co.visit(t)
	}
	unfolded := map[int]int{} // crc id -> fuel
	doneWit := map[int]bool{}
	var hints []*Term
	hints = append(hints, qr.hints...)
	ns, na, nc := 0, 0, 0
	pairDone := map[[2]int]bool{}
	nf := 0
	rounds := c.rounds
	if rounds == 0 {
		rounds = 6
	}
	for round := 0; round < rounds; round++ {
		changed := false
		// witnesses present
		apps := co.apps
		for _, a := range apps {
			if w, ok := c.wit[a]; ok && !doneWit[a.id] && !a.dummy {
				doneWit[a.id] = true
				changed = true
				if !w.last {
					emp := c.Not(c.Slt(w.lo, w.hi))
					add(c.Or(c.And(emp, c.Eq(a, w.hi)), c.And(c.Not(emp), c.Sle(w.lo, a), c.Sle(a, w.hi))))
					add(c.Implies(c.And(c.Slt(w.lo, w.hi), c.Slt(a, w.hi)), w.P(a)))
				} else {
					emp := c.Not(c.Slt(w.lo, w.hi))
					add(c.Or(c.And(emp, c.Eq(a, c.AddK(w.lo, -1))), c.And(c.Not(emp), c.Sle(c.AddK(w.lo, -1), a), c.Slt(a, w.hi))))
					add(c.Implies(c.And(c.Slt(w.lo, w.hi), c.Sle(w.lo, a)), w.P(a)))
				}
				facts = append(facts, w.fact)
			}
		}
		// definitions of opaque functions
		for _, a := range apps {
			if def, ok := c.opq[a.name]; ok && !doneWit[a.id] && !a.dummy {
				doneWit[a.id] = true
				changed = true
				add(c.Eq(a, def(a.args[0])))
			}
		}
		// facts
		sels := co.sels
		apps = co.apps
		for fi := 0; fi < len(facts); fi++ {
			f := facts[fi]
			c.factTriggers(f)
			inst := func(k *Term) {
				key := fmt.Sprintf("%p:%d", f, k.id)
				if seenInst[key] {
					return
				}
				seenInst[key] = true
				changed = true
				add(c.factInst(f, k))
			}
			if f.manual {
				for _, h := range hints {
					inst(h)
				}
				for _, h := range f.insts {
					inst(h)
				}
				continue
			}
			if f.expand {
				for k := int64(0); k < int64(f.hi.k); k++ {
					inst(c.I(k))
				}
				for _, v := range co.vars {
					if strings.HasPrefix(v.name, "cex:") && !v.dummy {
						inst(v)
					}
				}
			}
			for _, tr := range f.trigs {
				if tr.arr != nil {
					for _, s := range sels {
						if s.arr == tr.arr && !s.dummy {
							inst(c.Sub(s.args[0], tr.rest))
						}
					}
				} else {
					for _, a := range apps {
						if a.name == tr.app && !a.dummy && a.args[tr.argi].w == 64 {
							inst(a.args[tr.argi])
						}
					}
				}
			}
			if len(out) > 20000 {
				break
			}
		}
		// crc axioms
		crcs := co.crcs
		for _, t := range crcs {
			if t.dummy {
				continue
			}
			f, ok := unfolded[t.id]
			if !ok {
				f = 2
				unfolded[t.id] = -1
			}
			if f > 0 {
				unfolded[t.id] = -1
				seed, off, n := t.args[0], t.args[1], t.args[2]
				isz := c.Eq(n, c.I(0))
				n1 := c.AddK(n, -1)
				prev := c.Crc(seed, t.arr, off, n1)
				if n1.isK(0) {
					prev = seed
				}
				if prev.op == OCrc {
					if _, ok := unfolded[prev.id]; !ok && !c.crcAbove(prev, crcs) {
						unfolded[prev.id] = f - 2 // one level only
					}
				}
				step := c.CrcStep(prev, c.Sel(t.arr, c.Add(off, n1)))
				add(c.Ite(isz, c.Eq(t, seed), c.Eq(t, step)))
				add(c.Or(isz, c.Eq(t, c.CrcSerial(prev, c.Sel(t.arr, c.Add(off, n1))))))
				if prev.op == OCrc && c.crcAbove(prev, crcs) {
					// several steps at once
					ok := isz
					var run func(n *Term) *Term
					run = func(n *Term) *Term {
						p := c.Crc(seed, t.arr, off, n)
						if p.op != OCrc || !c.crcAbove(p, crcs) {
							return p
						}
						ok = c.Or(ok, c.Eq(n, c.I(0)))
						n1 := c.AddK(n, -1)
						return c.CrcStep(run(n1), c.Sel(t.arr, c.Add(off, n1)))
					}
					full := c.CrcStep(run(n1), c.Sel(t.arr, c.Add(off, n1)))
					add(c.Or(ok, c.Eq(t, full)))
				}
				changed = true
			}
		}
		crcs = co.crcs
		for i := 0; i < len(crcs); i++ {
			for j := 0; j < i; j++ {
				a, b := crcs[i], crcs[j]
				if a.dummy || b.dummy || pairDone[[2]int{i, j}] || a == b {
					continue
				}
				pairDone[[2]int{i, j}] = true
				changed = true
				w := c.Var(fmt.Sprintf("crcw!%d!%d", a.id, b.id), 64)
				add(c.Or(c.Eq(a, b), c.Ne(a.args[0], b.args[0]), c.Ne(a.args[2], b.args[2]),
					c.And(c.Ult(w, a.args[2]), c.Ne(c.Sel(a.arr, c.Add(a.args[1], w)), c.Sel(b.arr, c.Add(b.args[1], w))))))
			}
		}
		if len(out) > 20000 {
			break
		}
		if !changed && len(co.sels) == ns && len(co.apps) == na && len(co.crcs) == nc && len(facts) == nf {
			break
		}
		ns, na, nc, nf = len(co.sels), len(co.apps), len(co.crcs), len(facts)
	}
	return out
}

// crcNames writes the crc term for a variable that is one
func (c *Ctx) crcNames(as []*Term) []*Term {
	for i, t := range as {
		if t.op != OEq {
			continue
		}
		v, k := t.args[0], t.args[1]
		if v.op == OCrc {
			v, k = k, v
		}
		if v.op != OVar || k.op != OCrc || v.w != 16 {
			continue
		}
		r := make([]*Term, len(as))
		for j, a := range as {
			r[j] = a
			if j != i {
				r[j] = c.Subst(a, v, k)
			}
		}
		as = r
	}
	return as
}

// crcAbove: t is a few bytes longer than another term of the query over the same bytes
func (c *Ctx) crcAbove(t *Term, crcs []*Term) bool {
	for _, u := range crcs {
		if u != t && !u.dummy && u.arr == t.arr && u.args[1] == t.args[1] {
			if d := c.Sub(t.args[2], u.args[2]); d.isConst() && d.k >= 1 && d.k <= 8 {
				return true
			}
		}
	}
	return false
}

// smt prints the query with its instantiated axioms; done is set when it is trivially unsatisfiable
func (c *Ctx) smt(qr *Query) (body string, as []*Term, p *printer, wn []string, done bool) {
	for _, a := range qr.asserts {
		if a.isFalse() {
			return "", nil, nil, nil, true
		}
	}
	as = c.closeAxioms(qr)
	if qr.cone != nil {
		as = c.coneOf(as, qr.cone)
	}
	p = &printer{c: c, done: map[int]string{}, apps: map[string]bool{}, arrs: map[string]bool{}, vars: map[string]*Term{}}
	var names []string
	for _, a := range as {
		if a.isFalse() {
			return "", nil, nil, nil, true
		}
		if a.isTrue() {
			continue
		}
		names = append(names, p.term(a))
	}
	for _, t := range qr.want {
		wn = append(wn, p.term(t))
	}
	var sb strings.Builder
	sb.WriteString(p.sb.String())
	for _, n := range names {
		fmt.Fprintf(&sb, "(assert %s)\n", n)
	}
	sb.WriteString("(check-sat)\n")
	return sb.String(), as, p, wn, false
}

// coneOf drops hypotheses that share no rare atom with the goal, directly or through one other
func (c *Ctx) coneOf(as []*Term, goal *Term) []*Term {
	var flat []*Term
	var fl func(t *Term)
	fl = func(t *Term) {
		if t.op == OAnd {
			for _, a := range t.args {
				fl(a)
			}
			return
		}
		flat = append(flat, t)
	}
	for _, a := range as {
		fl(a)
	}
	atoms := func(t *Term) []int {
		co := &collector{seenT: map[int]bool{}}
		co.visit(t)
		var r []int
		for _, l := range [][]*Term{co.sels, co.apps, co.crcs, co.vars} {
			for _, a := range l {
				r = append(r, a.id)
			}
		}
		return r
	}
	at := make([][]int, len(flat))
	freq := map[int]int{}
	for i, a := range flat {
		at[i] = atoms(a)
		for _, k := range at[i] {
			freq[k]++
		}
	}
	lim := len(flat) / 4
	if lim < 12 {
		lim = 12
	}
	reach := map[int]bool{}
	for _, k := range atoms(goal) {
		if freq[k] <= lim {
			reach[k] = true
		}
	}
	keep := make([]bool, len(flat))
	for i := range flat {
		rare := false
		for _, k := range at[i] {
			if freq[k] <= lim {
				rare = true
			}
		}
		keep[i] = !rare
	}
	for round := 0; round < 2; round++ {
		add := map[int]bool{}
		for i := range flat {
			if keep[i] || len(at[i]) > 40 {
				continue
			}
			for _, k := range at[i] {
				if reach[k] {
					keep[i] = true
					for _, j := range at[i] {
						if freq[j] <= lim {
							add[j] = true
						}
					}
					break
				}
			}
		}
		for k := range add {
			reach[k] = true
		}
	}
	var out []*Term
	for i, a := range flat {
		if keep[i] {
			out = append(out, a)
		}
	}
	return out
}

// CheckWith decides the query with a one-shot process of another solver
func (c *Ctx) CheckWith(qr *Query, bin string) *Answer {
	c.mu.Lock()
	body, _, _, _, done := c.smt(qr)
	c.mu.Unlock()
	if done {
		return &Answer{res: Unsat, trivial: true}
	}
	slots <- true
	defer func() { <-slots }()
	if outOfTime() || enough() {
		return &Answer{res: Unknown}
	}
	to := qr.timeout
	if to == 0 {
		to = 10000
	}
	var cmd *exec.Cmd
	switch bin {
	case "cvc5":
		cmd = exec.Command("cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", to))
		body = "(set-logic ALL)\n" + body
	default:
		cmd = exec.Command(bin, "-in", "-smt2", fmt.Sprintf("-T:%d", (to+999)/1000))
	}
	cmd.Stdin = strings.NewReader(body)
	t0 := time.Now()
	out, _ := cmd.Output()
	d := time.Since(t0)
	atomic.AddInt64(&statQueries, 1)
	atomic.AddInt64(&statNanos, int64(d))
	ans := &Answer{dur: d, res: Unknown}
	l, _, _ := strings.Cut(string(out), "\n")
	switch strings.TrimSpace(l) {
	case "unsat":
		ans.res = Unsat
	case "sat":
		ans.res = Sat
	}
	return ans
}

func (c *Ctx) Check(qr *Query, wantModel bool) *Answer {
	return c.prepare(qr, wantModel)()
}

// prepare builds the text of the query; the result asks the solver and touches no shared state unless a model is wanted
func (c *Ctx) prepare(qr *Query, wantModel bool) func() *Answer {
	c.mu.Lock()
	body, as, p, wn, done := c.smt(qr)
	c.mu.Unlock()
	return func() *Answer {
		if done {
			return &Answer{res: Unsat}
		}
		if outOfTime() {
			return &Answer{res: Unknown}
		}
		return c.solve(qr, wantModel, body, as, p, wn)
	}
}

func (c *Ctx) solve(qr *Query, wantModel bool, body string, as []*Term, p *printer, wn []string) *Answer {
	slots <- true
	defer func() { <-slots }()
	to := qr.timeout
	if to == 0 {
		to = 10000
	}
	const short = 2000
	if to <= short {
		return c.solveOn(coreDefault, to, wantModel, body, as, p, wn)
	}
	ans := c.solveOn(coreDefault, short, wantModel, body, as, p, wn)
	if ans.res == Unknown {
		ans = c.solveOn(coreNew, to, wantModel, body, as, p, wn)
	}
	if ans.res == Unknown && to >= 10000 && !outOfTime() && !failing() {
		ans = c.solveOn(coreDefault, to, wantModel, body, as, p, wn)
	}
	return ans
}

func (c *Ctx) solveOn(core, to int, wantModel bool, body string, as []*Term, p *printer, wn []string) *Answer {
	var sb strings.Builder
	fmt.Fprintf(&sb, "(reset)\n(set-option :timeout %d)\n", to)
	sb.WriteString(body)
	s := getSolver(core)
	t0 := time.Now()
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		fatal("solver pipe: %v", err)
	}
	line := s.readLine()
	d := time.Since(t0)
	atomic.AddInt64(&statQueries, 1)
	atomic.AddInt64(&statNanos, int64(d))
	for {
		m := atomic.LoadInt64(&statMax)
		if int64(d) <= m || atomic.CompareAndSwapInt64(&statMax, m, int64(d)) {
			break
		}
	}
	ans := &Answer{dur: d}
	switch line {
	case "unsat":
		ans.res = Unsat
	case "sat":
		ans.res = Sat
	default:
		ans.res = Unknown
		atomic.AddInt64(&statUnknown, 1)
		if strings.HasPrefix(line, "(error") {
			fmt.Fprintln(os.Stderr, "solver:", line)
			os.WriteFile("/tmp/gocv-error.smt2", []byte(sb.String()), 0644)
			s.kill()
			return ans
		}
	}
	if dumpSlow != "" && (dumpAll || d > 500*time.Millisecond || ans.res == Unknown) {
		slowMu.Lock()
		os.WriteFile(fmt.Sprintf("%s/q%d-%s.smt2", dumpSlow, statQueries, ans.res), []byte(sb.String()), 0644)
		slowMu.Unlock()
	}
	if ans.res == Sat && len(wn) > 0 {
		ans.vals = s.getValues(wn)
	}
	if ans.res == Sat && wantModel {
		co := &collector{seenT: map[int]bool{}}
		for _, a := range as {
			co.visit(a)
		}
		m := &Model{Vars: map[string]uint64{}, Arrs: map[string]map[uint64]uint64{}}
		var ns []string
		for _, v := range co.vars {
			ns = append(ns, p.done[v.id])
		}
		vals := s.getValues(ns)
		for i, v := range co.vars {
			if i < len(vals) {
				m.Vars[v.name] = vals[i]
			}
		}
		ns = nil
		for _, v := range co.sels {
			ns = append(ns, p.term(v), p.term(v.args[0]))
		}
		vals = s.getValues(ns)
		for i, v := range co.sels {
			if 2*i+1 < len(vals) {
				if m.Arrs[v.arr.name] == nil {
					m.Arrs[v.arr.name] = map[uint64]uint64{}
				}
				m.Arrs[v.arr.name][vals[2*i+1]] = vals[2*i]
			}
		}
		ns = nil
		var as2 []*Term
		for _, a := range co.apps {
			as2 = append(as2, a)
			ns = append(ns, p.done[a.id])
		}
		vals = s.getValues(ns)
		for i, a := range as2 {
			if i < len(vals) {
				m.Vars[a.str(4)] = vals[i]
			}
		}
		ans.model = m
	}
	putSolver(s)
	return ans
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "unknown"
	}
	return strings.TrimSpace(l)
}

func (s *Solver) getValues(ns []string) []uint64 {
	if len(ns) == 0 {
		return nil
	}
	fmt.Fprintf(s.in, "(get-value (%s))\n(echo \"done\")\n", strings.Join(ns, " "))
	var sb strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return nil
		}
		if strings.TrimSpace(l) == "done" {
			break
		}
		sb.WriteString(l)
	}
	toks := tokenizeSexp(sb.String())
	// structure: ( (expr val) (expr val) ... )
	pos := 0
	var skip func()
	skip = func() {
		if pos < len(toks) && toks[pos] == "(" {
			pos++
			for pos < len(toks) && toks[pos] != ")" {
				skip()
			}
		}
		pos++
	}
	var out []uint64
	pos = 1
	for pos < len(toks) && toks[pos] == "(" {
		pos++
		skip()
		v := uint64(0)
		t := toks[pos]
		switch {
		case t == "true":
			v = 1
		case t == "false":
			v = 0
		case strings.HasPrefix(t, "#x"):
			v, _ = strconv.ParseUint(t[2:], 16, 64)
		case strings.HasPrefix(t, "#b"):
			v, _ = strconv.ParseUint(t[2:], 2, 64)
		case t == "(" && pos+2 < len(toks) && toks[pos+1] == "_":
			v, _ = strconv.ParseUint(strings.TrimPrefix(toks[pos+2], "bv"), 10, 64)
		}
		out = append(out, v)
		skip()
		pos++ // )
	}
	return out
}

func tokenizeSexp(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		ch := s[i]
		switch {
		case ch == '(' || ch == ')':
			out = append(out, string(ch))
			i++
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
			i++
		case ch == '|':
			j := strings.IndexByte(s[i+1:], '|')
			out = append(out, s[i:i+j+2])
			i += j + 2
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "gocv: "+f+"\n", a...)
	os.Exit(3)
}

var dumpAll = os.Getenv("GOCV_DUMPALL") != ""
