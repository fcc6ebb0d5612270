package main

// Terms: hash-consed bit-vector/boolean terms (width 0 = bool), functional byte-array values,
// and a light simplifier. All rewriting rules are width-exact (modular) identities.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
	"sync"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OLin // k + sum coef_i*arg_i
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	OConcat
	OExtract // k = hi<<8|lo
	OZext
	OSext
	OSel // base array read; arr = base
	OApp // uninterpreted function
	OCrc // crc(seed, arr, off, n)
)

type Term struct {
	op    Op
	w     int
	args  []*Term
	coef  []uint64
	k     uint64
	name  string
	arr   *Arr
	id    int
	dummy bool // contains a quantifier dummy
}

type AKind uint8

const (
	ABase AKind = iota
	AConst
	AStore
	ACopy
	AIte
)

type Arr struct {
	kind      AKind
	ew        int
	name      string
	a, b      *Arr  // AStore: a ; ACopy: a=dst b=src ; AIte: a,b
	i, v      *Term // AStore ; AConst: v ; AIte: v=cond
	do, so, n *Term
	id        int
	dummy     bool
}

type Ctx struct {
	rounds  int        // instantiation depth (0: the default)
	mu      sync.Mutex // term construction while queries run in parallel
	terms   map[string]*Term
	arrs    map[string]*Arr
	nt, na  int
	T, F    *Term
	fresh   map[string]int
	selMemo map[[2]int]*Term
	wit     map[*Term]*Witness
	opq     map[string]func(k *Term) *Term // definitions of opaque functions
}

func NewCtx() *Ctx {
	c := &Ctx{terms: map[string]*Term{}, arrs: map[string]*Arr{}, fresh: map[string]int{}, selMemo: map[[2]int]*Term{}, wit: map[*Term]*Witness{}, opq: map[string]func(k *Term) *Term{}}
	c.T = c.mk(&Term{op: OConst, w: 0, k: 1})
	c.F = c.mk(&Term{op: OConst, w: 0, k: 0})
	return c
}

func (c *Ctx) mk(t *Term) *Term {
	var sb strings.Builder
	sb.Grow(32)
	fmt.Fprintf(&sb, "%d:%d:%d:%s", t.op, t.w, t.k, t.name)
	for i, a := range t.args {
		sb.WriteByte(',')
		sb.WriteString(itoa(a.id))
		if t.coef != nil {
			sb.WriteByte('*')
			sb.WriteString(fmt.Sprint(t.coef[i]))
		}
		if a.dummy {
			t.dummy = true
		}
	}
	if t.arr != nil {
		sb.WriteString("@")
		sb.WriteString(itoa(t.arr.id))
		if t.arr.dummy {
			t.dummy = true
		}
	}
	if t.op == OVar && strings.HasPrefix(t.name, "?") {
		t.dummy = true
	}
	k := sb.String()
	if o, ok := c.terms[k]; ok {
		return o
	}
	c.nt++
	t.id = c.nt
	c.terms[k] = t
	return t
}

func itoa(i int) string { return fmt.Sprint(i) }

func (c *Ctx) mka(a *Arr) *Arr {
	id := func(x *Arr) int {
		if x == nil {
			return -1
		}
		if x.dummy {
			a.dummy = true
		}
		return x.id
	}
	tid := func(x *Term) int {
		if x == nil {
			return -1
		}
		if x.dummy {
			a.dummy = true
		}
		return x.id
	}
	k := fmt.Sprintf("%d:%d:%s:%d:%d:%d:%d:%d:%d:%d", a.kind, a.ew, a.name, id(a.a), id(a.b), tid(a.i), tid(a.v), tid(a.do), tid(a.so), tid(a.n))
	if o, ok := c.arrs[k]; ok {
		return o
	}
	c.na++
	a.id = c.na
	c.arrs[k] = a
	return a
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << uint(w)) - 1
}

func (c *Ctx) BV(v uint64, w int) *Term { return c.mk(&Term{op: OConst, w: w, k: v & mask(w)}) }
func (c *Ctx) I(v int64) *Term          { return c.BV(uint64(v), 64) }
func (c *Ctx) B(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}
func (c *Ctx) Var(name string, w int) *Term { return c.mk(&Term{op: OVar, w: w, name: name}) }
func (c *Ctx) Fresh(prefix string, w int) *Term {
	c.fresh[prefix]++
	return c.Var(fmt.Sprintf("%s!%d", prefix, c.fresh[prefix]), w)
}
func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.k == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.k == 0 }
func (t *Term) isK(v uint64) bool {
	return t.op == OConst && t.w > 0 && t.k == v&mask(t.w)
}
func sx(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

func (c *Ctx) Not(a *Term) *Term {
	if a.isConst() {
		return c.B(a.k == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return c.mk(&Term{op: ONot, args: []*Term{a}})
}

func (c *Ctx) nary(op Op, xs []*Term) *Term {
	unit, zero := c.T, c.F
	if op == OOr {
		unit, zero = c.F, c.T
	}
	var out []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[x.id] {
			return true
		}
		n := c.Not(x)
		if seen[n.id] {
			return false
		}
		seen[x.id] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{op: op, args: out})
}
func (c *Ctx) And(xs ...*Term) *Term    { return c.nary(OAnd, xs) }
func (c *Ctx) Or(xs ...*Term) *Term     { return c.nary(OOr, xs) }
func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g.isTrue() {
		return a
	}
	if g.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if g.op == ONot {
		return c.Ite(g.args[0], b, a)
	}
	if a.w != b.w {
		panic(fmt.Sprintf("ite width %d %d", a.w, b.w))
	}
	if a.w == 0 {
		if a.isTrue() {
			return c.Or(g, b)
		}
		if a.isFalse() {
			return c.And(c.Not(g), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(g), a)
		}
		if b.isFalse() {
			return c.And(g, a)
		}
	}
	if a.op == OIte && a.args[0] == g {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == g {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return c.mk(&Term{op: OIte, w: a.w, args: []*Term{g, a, b}})
}

// linear forms
type lin struct {
	m map[*Term]uint64
	k uint64
}

func (c *Ctx) toLin(t *Term, coef uint64, l *lin) {
	switch t.op {
	case OConst:
		l.k += coef * t.k
	case OLin:
		l.k += coef * t.k
		for i, a := range t.args {
			l.m[a] += coef * t.coef[i]
		}
	default:
		l.m[t] += coef
	}
}
func (c *Ctx) fromLin(l *lin, w int) *Term {
	mk := mask(w)
	k := l.k & mk
	var as []*Term
	for a, co := range l.m {
		if co&mk != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return c.BV(k, w)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && k == 0 && l.m[as[0]]&mk == 1 {
		return as[0]
	}
	co := make([]uint64, len(as))
	for i, a := range as {
		co[i] = l.m[a] & mk
	}
	return c.mk(&Term{op: OLin, w: w, args: as, coef: co, k: k})
}
func (c *Ctx) lin2(a, b *Term, cb uint64) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch in add: %d %d", a.w, b.w))
	}
	if b.isK(0) {
		return a
	}
	// push constant additions into ite with constant branches
	l := &lin{m: map[*Term]uint64{}}
	c.toLin(a, 1, l)
	c.toLin(b, cb, l)
	return c.fromLin(l, a.w)
}
func (c *Ctx) Add(a, b *Term) *Term { return c.lin2(a, b, 1) }
func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.BV(0, a.w)
	}
	return c.lin2(a, b, ^uint64(0))
}
func (c *Ctx) AddK(a *Term, k int64) *Term { return c.Add(a, c.BV(uint64(k), a.w)) }
func (c *Ctx) Neg(a *Term) *Term           { return c.Sub(c.BV(0, a.w), a) }
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		l := &lin{m: map[*Term]uint64{}}
		c.toLin(a, b.k, l)
		return c.fromLin(l, a.w)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OMul, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width %d vs %d: %s = %s", a.w, b.w, a, b))
	}
	if a.isConst() && b.isConst() {
		return c.B(a.k == b.k)
	}
	if a.w == 0 {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
		if a == c.Not(b) {
			return c.F
		}
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() && a.w > 0 {
		switch b.op {
		case OIte:
			if b.args[1].isConst() || b.args[2].isConst() {
				return c.Ite(b.args[0], c.Eq(a, b.args[1]), c.Eq(a, b.args[2]))
			}
		case OZext:
			if a.k > mask(b.args[0].w) {
				return c.F
			}
			return c.Eq(c.BV(a.k, b.args[0].w), b.args[0])
		case OConcat:
			lo := b.args[1]
			hi := b.args[0]
			return c.And(c.Eq(c.BV(a.k>>uint(lo.w), hi.w), hi), c.Eq(c.BV(a.k, lo.w), lo))
		}
	}
	if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w {
		return c.Eq(a.args[0], b.args[0])
	}
	if a.op == OConcat && b.op == OConcat && a.args[0].w == b.args[0].w {
		return c.And(c.Eq(a.args[0], b.args[0]), c.Eq(a.args[1], b.args[1]))
	}
	if a.w > 0 && (a.op == OLin || b.op == OLin) {
		d := c.Sub(a, b)
		if d.isConst() {
			return c.B(d.k == 0)
		}
		if d.op == OLin && len(d.args) == 1 && d.coef[0]&1 == 1 {
			if d.coef[0] == 1 {
				return c.mkEq(d.args[0], c.BV(-d.k, d.w))
			}
			if d.coef[0] == mask(d.w) {
				return c.mkEq(d.args[0], c.BV(d.k, d.w))
			}
		}
	}
	return c.mkEq(a, b)
}
func (c *Ctx) mkEq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.isConst() && b.isConst() {
		return c.B(a.k == b.k)
	}
	if a.op == OZext || b.op == OZext {
		if b.isConst() {
			a, b = b, a
		}
		if a.isConst() {
			if a.k > mask(b.args[0].w) {
				return c.F
			}
			return c.Eq(c.BV(a.k, b.args[0].w), b.args[0])
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OEq, args: []*Term{a, b}})
}
func (c *Ctx) Ne(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }

// urange: an unsigned upper bound of t known syntactically
func umax(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OZext:
		return umax(t.args[0])
	case OIte:
		a, b := umax(t.args[1]), umax(t.args[2])
		if a > b {
			return a
		}
		return b
	case OBAnd:
		a, b := umax(t.args[0]), umax(t.args[1])
		if a < b {
			return a
		}
		return b
	case OLin:
		m := mask(t.w)
		s := t.k
		for i, a := range t.args {
			if t.coef[i] > 1<<20 {
				return m
			}
			u := umax(a)
			h, l := bits.Mul64(u, t.coef[i])
			if h != 0 {
				return m
			}
			n := s + l
			if n < s {
				return m
			}
			s = n
		}
		if s > m {
			return m
		}
		return s
	}
	return mask(t.w)
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("ult width %d vs %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.B(a.k < b.k)
	}
	if a == b || b.isK(0) {
		return c.F
	}
	if b.isConst() && umax(a) < b.k {
		return c.T
	}
	if a.isConst() && umax(b) <= a.k {
		return c.F
	}
	if a.isConst() && b.op == OIte && b.args[1].isConst() && b.args[2].isConst() {
		return c.Ite(b.args[0], c.Ult(a, b.args[1]), c.Ult(a, b.args[2]))
	}
	return c.mk(&Term{op: OUlt, args: []*Term{a, b}})
}
func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }
func (c *Ctx) Slt(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("slt width %d vs %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.B(sx(a.k, a.w) < sx(b.k, b.w))
	}
	if a == b {
		return c.F
	}
	h := mask(a.w) >> 1
	ua, ub := umax(a), umax(b)
	if ua <= h && ub <= h {
		return c.Ult(a, b)
	}
	if b.isK(0) && ua <= h {
		return c.F
	}
	if ub <= h && a.isConst() && sx(a.k, a.w) < 0 {
		return c.T
	}
	return c.mk(&Term{op: OSlt, args: []*Term{a, b}})
}
func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func (c *Ctx) bin(op Op, a, b *Term) *Term {
	return c.mk(&Term{op: op, w: a.w, args: []*Term{a, b}})
}
func (c *Ctx) BAnd(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() && b.isConst() {
		return c.BV(a.k&b.k, a.w)
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		if b.k == mask(b.w) {
			return a
		}
		// low mask
		if b.k&(b.k+1) == 0 {
			n := bits.Len64(b.k)
			return c.Zext(c.Extract(a, n-1, 0), a.w)
		}
	}
	if a == b {
		return a
	}
	return c.bin(OBAnd, a, b)
}

// byte-lane decomposition helps `x | y<<8` become concat
func (c *Ctx) BOr(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() && b.isConst() {
		return c.BV(a.k|b.k, a.w)
	}
	if b.isConst() && b.k == 0 {
		return a
	}
	if b.isConst() && b.k == mask(b.w) {
		return b
	}
	if a == b {
		return a
	}
	if r := c.mergeDisjoint(a, b); r != nil {
		return r
	}
	if r := c.mergeDisjoint(b, a); r != nil {
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.bin(OBOr, a, b)
}

// lowZeros: number of low bits known zero
func lowZeros(t *Term) int {
	switch t.op {
	case OConst:
		if t.k == 0 {
			return t.w
		}
		return bits.TrailingZeros64(t.k)
	case OConcat:
		z := lowZeros(t.args[1])
		if z == t.args[1].w {
			return z + lowZeros(t.args[0])
		}
		return z
	}
	return 0
}
func (c *Ctx) mergeDisjoint(lo, hi *Term) *Term {
	z := lowZeros(hi)
	if z == 0 || z >= hi.w {
		return nil
	}
	if umax(lo) <= mask(z) {
		return c.Concat(c.Extract(hi, hi.w-1, z), c.Extract(lo, z-1, 0))
	}
	return nil
}
func (c *Ctx) BXor(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() && b.isConst() {
		return c.BV(a.k^b.k, a.w)
	}
	if b.isConst() && b.k == 0 {
		return a
	}
	if a == b {
		return c.BV(0, a.w)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.bin(OBXor, a, b)
}
func (c *Ctx) BNot(a *Term) *Term { return c.BXor(a, c.BV(mask(a.w), a.w)) }

// Shl etc: shift amount b has the same width as a (already clamped by caller)
func (c *Ctx) Shl(a, b *Term) *Term {
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if b.k >= uint64(a.w) {
			return c.BV(0, a.w)
		}
		n := int(b.k)
		return c.Concat(c.Extract(a, a.w-1-n, 0), c.BV(0, n))
	}
	return c.bin(OShl, a, b)
}
func (c *Ctx) Lshr(a, b *Term) *Term {
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if b.k >= uint64(a.w) {
			return c.BV(0, a.w)
		}
		n := int(b.k)
		return c.Zext(c.Extract(a, a.w-1, n), a.w)
	}
	return c.bin(OLshr, a, b)
}
func (c *Ctx) Ashr(a, b *Term) *Term {
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		n := b.k
		if n >= uint64(a.w) {
			n = uint64(a.w) - 1
		}
		return c.Sext(c.Extract(a, a.w-1, int(n)), a.w)
	}
	return c.bin(OAshr, a, b)
}
func (c *Ctx) div(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.k != 0 {
		switch op {
		case OUdiv:
			return c.BV(a.k/b.k, a.w)
		case OUrem:
			return c.BV(a.k%b.k, a.w)
		case OSdiv:
			if sx(b.k, b.w) != -1 {
				return c.BV(uint64(sx(a.k, a.w)/sx(b.k, b.w)), a.w)
			}
		case OSrem:
			if sx(b.k, b.w) != -1 {
				return c.BV(uint64(sx(a.k, a.w)%sx(b.k, b.w)), a.w)
			}
		}
	}
	return c.bin(op, a, b)
}
func (c *Ctx) Concat(hi, lo *Term) *Term {
	w := hi.w + lo.w
	if hi.isConst() && lo.isConst() && w <= 64 {
		return c.BV(hi.k<<uint(lo.w)|lo.k, w)
	}
	if hi.isConst() && hi.k == 0 {
		return c.Zext(lo, w)
	}
	if lo.op == OZext && false {
		return nil
	}
	if hi.op == OExtract && lo.op == OExtract && hi.args[0] == lo.args[0] && int(hi.k&0xff) == int(lo.k>>8)+1 {
		return c.Extract(hi.args[0], int(hi.k>>8), int(lo.k&0xff))
	}
	// right-nest: concat(concat(a,b),c) -> concat(a, concat(b,c))
	if hi.op == OConcat {
		return c.Concat(hi.args[0], c.Concat(hi.args[1], lo))
	}
	if hi.op == OExtract && lo.op == OConcat && lo.args[0].op == OExtract && lo.args[0].args[0] == hi.args[0] && int(hi.k&0xff) == int(lo.args[0].k>>8)+1 {
		return c.Concat(c.Extract(hi.args[0], int(hi.k>>8), int(lo.args[0].k&0xff)), lo.args[1])
	}
	return c.mk(&Term{op: OConcat, w: w, args: []*Term{hi, lo}})
}
func (c *Ctx) Extract(a *Term, hi, lo int) *Term {
	if hi == a.w-1 && lo == 0 {
		return a
	}
	w := hi - lo + 1
	switch a.op {
	case OConst:
		return c.BV(a.k>>uint(lo), w)
	case OExtract:
		l := int(a.k & 0xff)
		return c.Extract(a.args[0], hi+l, lo+l)
	case OConcat:
		lw := a.args[1].w
		if hi < lw {
			return c.Extract(a.args[1], hi, lo)
		}
		if lo >= lw {
			return c.Extract(a.args[0], hi-lw, lo-lw)
		}
		return c.Concat(c.Extract(a.args[0], hi-lw, 0), c.Extract(a.args[1], lw-1, lo))
	case OZext:
		iw := a.args[0].w
		if hi < iw {
			return c.Extract(a.args[0], hi, lo)
		}
		if lo >= iw {
			return c.BV(0, w)
		}
		return c.Zext(c.Extract(a.args[0], iw-1, lo), w)
	case OSext:
		iw := a.args[0].w
		if hi < iw {
			return c.Extract(a.args[0], hi, lo)
		}
	case OIte:
		return c.Ite(a.args[0], c.Extract(a.args[1], hi, lo), c.Extract(a.args[2], hi, lo))
	case OBAnd, OBOr, OBXor:
		x, y := c.Extract(a.args[0], hi, lo), c.Extract(a.args[1], hi, lo)
		switch a.op {
		case OBAnd:
			return c.BAnd(x, y)
		case OBOr:
			return c.BOr(x, y)
		default:
			return c.BXor(x, y)
		}
	case OLin:
		if lo == 0 {
			l := &lin{m: map[*Term]uint64{}, k: a.k}
			for i, x := range a.args {
				c.toLin(c.Extract(x, hi, 0), a.coef[i], l)
			}
			return c.fromLin(l, w)
		}
	}
	return c.mk(&Term{op: OExtract, w: w, args: []*Term{a}, k: uint64(hi)<<8 | uint64(lo)})
}
func (c *Ctx) Zext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return c.Extract(a, w-1, 0)
	}
	if a.isConst() {
		return c.BV(a.k, w)
	}
	if a.op == OZext {
		return c.Zext(a.args[0], w)
	}
	if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
		return c.Ite(a.args[0], c.Zext(a.args[1], w), c.Zext(a.args[2], w))
	}
	return c.mk(&Term{op: OZext, w: w, args: []*Term{a}})
}
func (c *Ctx) Sext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return c.Extract(a, w-1, 0)
	}
	if a.isConst() {
		return c.BV(uint64(sx(a.k, a.w)), w)
	}
	if a.op == OZext {
		return c.Zext(a.args[0], w)
	}
	return c.mk(&Term{op: OSext, w: w, args: []*Term{a}})
}
func (c *Ctx) App(name string, w int, args ...*Term) *Term {
	return c.mk(&Term{op: OApp, w: w, name: name, args: args})
}

// arrays
func (c *Ctx) Base(name string, ew int) *Arr { return c.mka(&Arr{kind: ABase, ew: ew, name: name}) }
func (c *Ctx) FreshArr(prefix string, ew int) *Arr {
	c.fresh[prefix]++
	return c.Base(fmt.Sprintf("%s!%d", prefix, c.fresh[prefix]), ew)
}
func (c *Ctx) ConstArr(v *Term) *Arr { return c.mka(&Arr{kind: AConst, ew: v.w, v: v}) }
func (c *Ctx) Store(a *Arr, i, v *Term) *Arr {
	if v.w != a.ew {
		panic(fmt.Sprintf("store width %d into %d", v.w, a.ew))
	}
	if a.kind == AStore && a.i == i {
		return c.Store(a.a, i, v)
	}
	return c.mka(&Arr{kind: AStore, ew: a.ew, a: a, i: i, v: v})
}
func (c *Ctx) CopyArr(dst *Arr, do *Term, src *Arr, so, n *Term) *Arr {
	if n.isK(0) {
		return dst
	}
	return c.mka(&Arr{kind: ACopy, ew: dst.ew, a: dst, do: do, b: src, so: so, n: n})
}
func (c *Ctx) Sel(a *Arr, i *Term) *Term {
	if i.w != 64 {
		panic("index width")
	}
	key := [2]int{a.id, i.id}
	if r, ok := c.selMemo[key]; ok {
		return r
	}
	r := c.sel(a, i)
	c.selMemo[key] = r
	return r
}
func (c *Ctx) sel(a *Arr, i *Term) *Term {
	for {
		switch a.kind {
		case ABase:
			return c.mk(&Term{op: OSel, w: a.ew, args: []*Term{i}, arr: a})
		case AConst:
			return a.v
		case AStore:
			e := c.Eq(a.i, i)
			if e.isTrue() {
				return a.v
			}
			if e.isFalse() {
				a = a.a
				continue
			}
			return c.Ite(e, a.v, c.Sel(a.a, i))
		case ACopy:
			rel := c.Sub(i, a.do)
			in := c.Ult(rel, a.n)
			if in.isFalse() {
				a = a.a
				continue
			}
			if in.isTrue() {
				i = c.Add(rel, a.so)
				a = a.b
				continue
			}
			return c.Ite(in, c.Sel(a.b, c.Add(rel, a.so)), c.Sel(a.a, i))
		case AIte:
			return c.Ite(a.v, c.Sel(a.a, i), c.Sel(a.b, i))
		}
	}
}

func crcStep(acc uint16, b byte) uint16 {
	t := b ^ byte(acc)
	t ^= t << 4
	return acc>>8 ^ uint16(t)<<8 ^ uint16(t)<<3 ^ uint16(t)>>4
}

// crcSerial is the definition: CRC-16/MCRF4XX, reflected polynomial 0x8408, one bit at a time
func crcSerial(acc uint16, b byte) uint16 {
	x := acc ^ uint16(b)
	for i := 0; i < 8; i++ {
		lsb := x & 1
		x >>= 1
		if lsb == 1 {
			x ^= 0x8408
		}
	}
	return x
}

var crcStepChecked sync.Once

// CrcStep is crcStep as a term; that crcStep is the definition is checked for every argument
func (c *Ctx) CrcStep(acc, b *Term) *Term {
	crcStepChecked.Do(func() {
		for a := 0; a < 1<<16; a++ {
			for b := 0; b < 1<<8; b++ {
				if crcStep(uint16(a), byte(b)) != crcSerial(uint16(a), byte(b)) {
					panic("crcStep")
				}
			}
		}
	})
	t := c.BXor(b, c.Extract(acc, 7, 0))
	t = c.BXor(t, c.Shl(t, c.BV(4, 8)))
	w := c.Zext(t, 16)
	x := c.BXor(c.Lshr(acc, c.BV(8, 16)), c.Shl(w, c.BV(8, 16)))
	return c.BXor(c.BXor(x, c.Shl(w, c.BV(3, 16))), c.Lshr(w, c.BV(4, 16)))
}

// CrcSerial is the same in the other form
func (c *Ctx) CrcSerial(acc, b *Term) *Term {
	x := c.BXor(acc, c.Zext(b, 16))
	for i := 0; i < 8; i++ {
		lsb := c.Eq(c.Extract(x, 0, 0), c.BV(1, 1))
		sh := c.Lshr(x, c.BV(1, 16))
		x = c.BXor(sh, c.Ite(lsb, c.BV(0x8408, 16), c.BV(0, 16)))
	}
	return x
}

// Crc over n bytes of a starting at off. Normal form: nested crc is flattened (append lemma).
func (c *Ctx) Crc(seed *Term, a *Arr, off, n *Term) *Term {
	if n.isK(0) {
		return seed
	}
	if seed.op == OCrc {
		so, sn := seed.args[1], seed.args[2]
		zero := c.I(0)
		arr := seed.arr // only its bytes [0,sn) matter; bytes from sn on are overwritten below
		if !so.isK(0) {
			arr = c.CopyArr(c.ConstArr(c.BV(0, 8)), zero, seed.arr, so, sn)
		}
		arr = c.CopyArr(arr, sn, a, off, n)
		return c.Crc(seed.args[0], arr, zero, c.Add(sn, n))
	}
	return c.mk(&Term{op: OCrc, w: 16, args: []*Term{seed, off, n}, arr: a})
}

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d == 0 {
		return "…"
	}
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.k == 1)
		}
		if t.w == 64 {
			return fmt.Sprint(int64(t.k))
		}
		return fmt.Sprintf("%d", t.k)
	case OVar:
		return t.name
	case OSel:
		return t.arr.name + "[" + t.args[0].str(d-1) + "]"
	case OLin:
		var p []string
		for i, a := range t.args {
			co := sx(t.coef[i], t.w)
			s := a.str(d - 1)
			if co != 1 {
				s = fmt.Sprintf("%d*%s", co, s)
			}
			p = append(p, s)
		}
		if t.k != 0 {
			p = append(p, fmt.Sprint(sx(t.k, t.w)))
		}
		return "(" + strings.Join(p, "+") + ")"
	case OCrc:
		return fmt.Sprintf("crc(%s,A%d,%s,%s)", t.args[0].str(d-1), t.arr.id, t.args[1].str(d-1), t.args[2].str(d-1))
	}
	names := map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "u<", OUle: "u<=", OSlt: "<", OSle: "<=", OMul: "*", OBAnd: "&", OBOr: "|", OBXor: "^", OShl: "<<", OLshr: ">>", OAshr: "a>>", OConcat: "cat", OExtract: "ext", OZext: "zx", OSext: "sx", OUdiv: "u/", OUrem: "u%", OSdiv: "/", OSrem: "%"}
	n := names[t.op]
	if t.op == OApp {
		n = t.name
	}
	if t.op == OExtract {
		n = fmt.Sprintf("ext%d:%d", t.k>>8, t.k&0xff)
	}
	var p []string
	for i, a := range t.args {
		if i > 12 {
			p = append(p, "...")
			break
		}
		p = append(p, a.str(d-1))
	}
	return n + "(" + strings.Join(p, " ") + ")"
}

// substitution of a variable in a term; everything is rebuilt through the simplifying constructors
type subster struct {
	c  *Ctx
	d  *Term
	k  *Term
	mt map[int]*Term
	ma map[int]*Arr
}

func (c *Ctx) Subst(t, d, k *Term) *Term {
	if !t.dummy {
		return t
	}
	s := &subster{c: c, d: d, k: k, mt: map[int]*Term{}, ma: map[int]*Arr{}}
	return s.term(t)
}
func (s *subster) term(t *Term) *Term {
	if !t.dummy {
		return t
	}
	if t == s.d {
		return s.k
	}
	if r, ok := s.mt[t.id]; ok {
		return r
	}
	c := s.c
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = s.term(a)
	}
	var r *Term
	switch t.op {
	case OVar:
		r = t
	case ONot:
		r = c.Not(as[0])
	case OAnd:
		r = c.And(as...)
	case OOr:
		r = c.Or(as...)
	case OIte:
		r = c.Ite(as[0], as[1], as[2])
	case OEq:
		r = c.Eq(as[0], as[1])
	case OUlt:
		r = c.Ult(as[0], as[1])
	case OUle:
		r = c.Ule(as[0], as[1])
	case OSlt:
		r = c.Slt(as[0], as[1])
	case OSle:
		r = c.Sle(as[0], as[1])
	case OLin:
		l := &lin{m: map[*Term]uint64{}, k: t.k}
		for i, a := range as {
			c.toLin(a, t.coef[i], l)
		}
		r = c.fromLin(l, t.w)
	case OMul:
		r = c.Mul(as[0], as[1])
	case OUdiv, OUrem, OSdiv, OSrem:
		r = c.div(t.op, as[0], as[1])
	case OBAnd:
		r = c.BAnd(as[0], as[1])
	case OBOr:
		r = c.BOr(as[0], as[1])
	case OBXor:
		r = c.BXor(as[0], as[1])
	case OShl:
		r = c.Shl(as[0], as[1])
	case OLshr:
		r = c.Lshr(as[0], as[1])
	case OAshr:
		r = c.Ashr(as[0], as[1])
	case OConcat:
		r = c.Concat(as[0], as[1])
	case OExtract:
		r = c.Extract(as[0], int(t.k>>8), int(t.k&0xff))
	case OZext:
		r = c.Zext(as[0], t.w)
	case OSext:
		r = c.Sext(as[0], t.w)
	case OSel:
		r = c.Sel(s.arr(t.arr), as[0])
	case OApp:
		r = c.App(t.name, t.w, as...)
	case OCrc:
		r = c.Crc(as[0], s.arr(t.arr), as[1], as[2])
	default:
		panic(fmt.Sprintf("subst op %d", t.op))
	}
	s.mt[t.id] = r
	return r
}
func (s *subster) arr(a *Arr) *Arr {
	if a == nil || !a.dummy {
		return a
	}
	if r, ok := s.ma[a.id]; ok {
		return r
	}
	c := s.c
	var r *Arr
	switch a.kind {
	case AConst:
		r = c.ConstArr(s.term(a.v))
	case AStore:
		r = c.Store(s.arr(a.a), s.term(a.i), s.term(a.v))
	case ACopy:
		r = c.CopyArr(s.arr(a.a), s.term(a.do), s.arr(a.b), s.term(a.so), s.term(a.n))
	case AIte:
		r = c.mka(&Arr{kind: AIte, ew: a.ew, a: s.arr(a.a), b: s.arr(a.b), v: s.term(a.v)})
	default:
		r = a
	}
	s.ma[a.id] = r
	return r
}
