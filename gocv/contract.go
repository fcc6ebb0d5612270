package main

// Contract files: parsing. See DESIGN.md for the notation.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Clause struct {
	kind string
	tags []string
	text string
	expr ast.Expr
	cond ast.Expr // returns: the condition under which the result has the form
	name string   // let/ghost/cases: bound name
	alts []string
	rule *EventRule
	line int
}
type EventRule struct {
	event   string
	params  []string
	guard   ast.Expr
	actions []action
}
type action struct {
	kind string // assert assume set havoc
	tags []string
	name string
	lhs  ast.Expr
	expr ast.Expr
	text string
}
type meta struct{ name, typ string }
type LoopTmpl struct {
	text  string
	metas []meta
	expr  ast.Expr
	ct    *Contract
	tags  []string
	inner bool // for loops within loops
}
type Contract struct {
	pkg, fn  string
	params   []string
	rets     []string
	ptypes   []string // lemmas
	clauses  []*Clause
	loops    []*LoopTmpl
	modular  bool
	watch    bool
	lemma    bool
	optional bool
	props    []string
	safety   []string
	file     string
	line     int
	ssa      *ssa.Function
	missing  string
	special  string // message targets generated from the layout
	layout   *MsgLayout
	noframe  bool
	abstract string
	opts     map[string]bool
	rounds   int
}

func (c *Contract) name() string { return c.pkg + ":" + c.fn }

func (c *Contract) allTags() []string {
	m := map[string]bool{}
	for _, p := range c.props {
		m[p] = true
	}
	for _, cl := range c.clauses {
		for _, t := range cl.tags {
			m[t] = true
		}
		if cl.rule != nil {
			for _, a := range cl.rule.actions {
				for _, t := range a.tags {
					m[t] = true
				}
			}
		}
	}
	return sortedKeys(m)
}

type Macro struct {
	params []string
	expr   ast.Expr
	text   string
	opaque bool
}

// Confined: only functions that were executed under a contract of the property touch these fields
type Confined struct {
	pkg, typ string
	fields   []string
	tags     []string
}

type Specs struct {
	confined  []*Confined
	macros    map[string]*Macro
	contracts []*Contract
	byFn      map[*ssa.Function]*Contract
	layouts   map[string]*MsgLayout // pkg.Type
	dialects  map[string]*DialectLayout
}

var metaRe = regexp.MustCompile(`\?([a-zA-Z]\w*)`)

func parseExpr(s, where string) ast.Expr {
	e, err := parser.ParseExpr(metaRe.ReplaceAllString(s, "META_$1"))
	if err != nil {
		fatal("%s: %v in %q", where, err, s)
	}
	return e
}

var tagRe = regexp.MustCompile(`^\[([A-Z0-9, ]*)\]\s*`)

func takeTags(s string) ([]string, string) {
	m := tagRe.FindStringSubmatch(s)
	if m == nil {
		return nil, s
	}
	var t []string
	for _, x := range strings.Split(m[1], ",") {
		t = append(t, strings.TrimSpace(x))
	}
	return t, s[len(m[0]):]
}

var clauseKw = map[string]bool{"requires": true, "ensures": true, "modifies": true, "cases": true, "let": true, "ghost": true, "on": true, "loop": true, "modular": true, "props": true, "safety": true, "axiom": true, "watch": true, "func": true, "package": true, "def": true, "lemma": true, "assume": true, "returns": true, "noframe": true, "invariant": true, "opt": true, "exitlet": true, "hint": true, "optional": true, "weaken": true, "rounds": true, "opaque": true, "protocol": true, "use": true, "confined": true}

func loadSpecs(dir string) *Specs {
	sp := &Specs{macros: map[string]*Macro{}, byFn: map[*ssa.Function]*Contract{}, layouts: map[string]*MsgLayout{}, dialects: map[string]*DialectLayout{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		sp.parseFile(f)
	}
	sp.loadLayouts(dir)
	return sp
}

func (sp *Specs) parseFile(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	sp.parseText(filepath.Base(file), string(b))
}

func (sp *Specs) parseText(file, text string) {
	type raw struct {
		text string
		line int
	}
	var rs []raw
	for i, l := range strings.Split(text, "\n") {
		if k := strings.Index(l, "//"); k >= 0 {
			l = l[:k]
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		w := l
		if k := strings.IndexAny(l, " \t("); k >= 0 {
			w = l[:k]
		}
		if clauseKw[w] {
			rs = append(rs, raw{l, i + 1})
		} else {
			if len(rs) == 0 {
				fatal("%s:%d: text outside a clause", file, i+1)
			}
			rs[len(rs)-1].text += " " + l
		}
	}
	// protocols: clauses shared by several contracts
	protos := map[string][]raw{}
	in := ""
	var flat []raw
	for _, r := range rs {
		kw, rest, _ := strings.Cut(r.text, " ")
		rest = strings.TrimSpace(rest)
		switch {
		case kw == "protocol":
			in = rest
			protos[in] = []raw{}
		case kw == "func" || kw == "confined" || kw == "lemma" || kw == "package" || kw == "def" || kw == "opaque":
			in = ""
			flat = append(flat, r)
		case in != "":
			protos[in] = append(protos[in], r)
		case kw == "use":
			p, ok := protos[rest]
			if !ok {
				fatal("%s:%d: protocol %s", file, r.line, rest)
			}
			flat = append(flat, p...)
		default:
			flat = append(flat, r)
		}
	}
	rs = flat
	pkg := "."
	var cur *Contract
	for _, r := range rs {
		where := fmt.Sprintf("%s:%d", filepath.Base(file), r.line)
		kw, rest, _ := strings.Cut(r.text, " ")
		rest = strings.TrimSpace(rest)
		switch kw {
		case "package":
			pkg = rest
			continue
		case "def", "opaque":
			h, body, ok := strings.Cut(rest, ":=")
			if !ok {
				fatal("%s: def without :=", where)
			}
			name, ps := splitHead(strings.TrimSpace(h), where)
			sp.macros[name] = &Macro{params: ps, expr: parseExpr(strings.TrimSpace(body), where), text: body, opaque: kw == "opaque"}
			continue
		case "confined":
			// confined [tags] Type: field, field
			tags, rest := takeTags(rest)
			t, fs, ok := strings.Cut(rest, ":")
			if !ok {
				fatal("%s: confined without :", where)
			}
			cf := &Confined{pkg: pkg, typ: strings.TrimSpace(t), tags: tags}
			for _, x := range strings.Split(fs, ",") {
				cf.fields = append(cf.fields, strings.TrimSpace(x))
			}
			sp.confined = append(sp.confined, cf)
			continue
		case "func", "lemma":
			// Type.Method(a, b) (r0, r1)
			h := rest
			var rets []string
			if k := strings.Index(h, ")"); k >= 0 {
				rr := strings.TrimSpace(h[k+1:])
				h = h[:k+1]
				rr = strings.Trim(rr, "()")
				for _, x := range strings.Split(rr, ",") {
					if x = strings.TrimSpace(x); x != "" {
						rets = append(rets, x)
					}
				}
			}
			name, ps := splitHead(h, where)
			var pts []string
			if kw == "lemma" {
				for i := range ps {
					ps[i], h, _ = strings.Cut(ps[i], " ")
					pts = append(pts, strings.TrimSpace(h))
				}
			}
			cur = &Contract{pkg: pkg, fn: name, params: ps, ptypes: pts, rets: rets, file: filepath.Base(file), line: r.line, lemma: kw == "lemma", opts: map[string]bool{}}
			sp.contracts = append(sp.contracts, cur)
			continue
		}
		if cur == nil {
			fatal("%s: clause outside a function", where)
		}
		cl := &Clause{kind: kw, line: r.line}
		cl.tags, rest = takeTags(rest)
		cl.text = rest
		switch kw {
		case "modular":
			cur.modular = true
			continue
		case "optional":
			cur.optional = true
			continue
		case "watch":
			cur.watch = true
			continue
		case "noframe":
			cur.noframe = true
			continue
		case "opt":
			cur.opts[rest] = true
			continue
		case "rounds":
			fmt.Sscan(rest, &cur.rounds)
			continue
		case "weaken":
			for _, f := range strings.Fields(strings.ReplaceAll(rest, ",", " ")) {
				cur.opts["weaken:"+f] = true
			}
			continue
		case "props":
			cur.props = strings.Fields(strings.ReplaceAll(rest, ",", " "))
			continue
		case "safety":
			cur.safety = strings.Fields(strings.ReplaceAll(rest, ",", " "))
			continue
		case "requires", "ensures", "axiom", "assume", "invariant", "hint":
			cl.expr = parseExpr(rest, where)
		case "let", "ghost", "exitlet":
			n, e, ok := strings.Cut(rest, "=")
			if !ok {
				fatal("%s: %s without =", where, kw)
			}
			cl.name = strings.TrimSpace(n)
			cl.expr = parseExpr(strings.TrimSpace(e), where)
		case "returns":
			n, e, ok := strings.Cut(rest, "=")
			if !ok {
				fatal("%s: returns without =", where)
			}
			cl.name = strings.TrimSpace(n)
			e, cond, ok := strings.Cut(e, " if ")
			if ok {
				cl.cond = parseExpr(strings.TrimSpace(cond), where)
			}
			cl.expr = parseExpr(strings.TrimSpace(e), where)
		case "modifies":
			if rest != "nothing" {
				cl.expr = parseExpr("f("+rest+")", where)
			}
		case "cases":
			n, e, _ := strings.Cut(rest, "=")
			cl.name = strings.TrimSpace(n)
			for _, a := range strings.Split(e, "|") {
				cl.alts = append(cl.alts, strings.TrimSpace(a))
			}
		case "loop":
			m, e, ok := strings.Cut(rest, "::")
			if !ok {
				fatal("%s: loop without ::", where)
			}
			lt := &LoopTmpl{text: strings.TrimSpace(rest), expr: parseExpr(strings.TrimSpace(e), where), ct: cur, tags: cl.tags}
			for _, x := range strings.Fields(m) {
				if x == "inner" {
					lt.inner = true
					continue
				}
				n, t, _ := strings.Cut(strings.TrimPrefix(x, "?"), ":")
				lt.metas = append(lt.metas, meta{n, t})
			}
			cur.loops = append(cur.loops, lt)
			continue
		case "on":
			h, acts, ok := strings.Cut(rest, "::")
			if !ok {
				fatal("%s: on without ::", where)
			}
			rule := &EventRule{}
			h = strings.TrimSpace(h)
			if i := strings.Index(h, ") if "); i >= 0 {
				rule.guard = parseExpr(h[i+5:], where)
				h = h[:i+1]
			}
			rule.event, rule.params = splitHead(h, where)
			for _, a := range splitTop(acts, ';') {
				a = strings.TrimSpace(a)
				if a == "" {
					continue
				}
				k, e, _ := strings.Cut(a, " ")
				ac := action{kind: k}
				ac.tags, e = takeTags(strings.TrimSpace(e))
				ac.text = e
				switch k {
				case "assert", "assume", "check":
					ac.expr = parseExpr(e, where)
				case "set":
					n, x, _ := strings.Cut(e, "=")
					ac.name = strings.TrimSpace(n)
					ac.expr = parseExpr(strings.TrimSpace(x), where)
				case "abstract":
					l, x, ok := strings.Cut(e, " by ")
					if !ok {
						fatal("%s: abstract without by", where)
					}
					ac.lhs = parseExpr("f("+l+")", where)
					ac.expr = parseExpr(x, where)
				case "havoc":
					ac.lhs = parseExpr(e, where)
				default:
					fatal("%s: action %q", where, k)
				}
				rule.actions = append(rule.actions, ac)
			}
			cl.rule = rule
		default:
			fatal("%s: clause %q", where, kw)
		}
		cur.clauses = append(cur.clauses, cl)
	}
}

func splitTop(s string, sep byte) []string {
	d := 0
	var out []string
	last := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case sep:
			if d == 0 {
				out = append(out, s[last:i])
				last = i + 1
			}
		}
	}
	return append(out, s[last:])
}

func splitHead(h, where string) (string, []string) {
	k := strings.Index(h, "(")
	if k < 0 {
		return strings.TrimSpace(h), nil
	}
	name := strings.TrimSpace(h[:k])
	e := strings.LastIndex(h, ")")
	if e < k {
		fatal("%s: bad head %q", where, h)
	}
	var ps []string
	for _, p := range strings.Split(h[k+1:e], ",") {
		if p = strings.TrimSpace(p); p != "" {
			ps = append(ps, p)
		}
	}
	return name, ps
}

// resolve binds contracts to the functions of the loaded program
func (sp *Specs) resolve(p *Program) {
	for _, c := range sp.contracts {
		if c.lemma {
			continue
		}
		f, err := p.lookup(c.pkg, c.fn)
		if a := p.funcAlias[c.pkg+":"+c.fn]; err != nil && a != "" {
			f, err = p.lookup(c.pkg, a)
		}
		if err != nil {
			c.missing = err.Error()
			continue
		}
		c.ssa = f
		sp.byFn[f] = c
	}
}

// base: the name of the function without its receiver
func (c *Contract) base() string { return c.fn[strings.LastIndexByte(c.fn, '.')+1:] }

func (c *Contract) find(kind string) []*Clause {
	var r []*Clause
	for _, cl := range c.clauses {
		if cl.kind == kind {
			r = append(r, cl)
		}
	}
	return r
}
