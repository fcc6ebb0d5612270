package main

// Wire layouts of the messages and tables of the dialects (contracts/*.layout), and the contracts
// that are instantiated from them (contracts/message.tmpl, contracts/dialect.tmpl).

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"text/template"
)

type LField struct {
	Name string
	Typ  string // uint8, int16, float32 ..., [n]T
	Off  int64
	Ext  bool
	Text bool // has text accessors
}
type MsgLayout struct {
	Pkg, T    string
	ID, Extra int64
	Min, Max  int64
	Ext       bool
	Special   bool // variable-length extension message: own contracts
	Fields    []LField
}
type Row struct {
	ID, Extra, Min, Max int64
	T                   string // pkg.Type
}
type DialectLayout struct {
	Pkg, Name string
	Rows      []Row
}

func (l *MsgLayout) key() string { return l.Pkg + "." + l.T }

func (sp *Specs) loadLayouts(dir string) {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.layout"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			fatal("%v", err)
		}
		var m *MsgLayout
		var d *DialectLayout
		for n, line := range strings.Split(string(b), "\n") {
			if k := strings.Index(line, "#"); k >= 0 {
				line = line[:k]
			}
			w := strings.Fields(line)
			if len(w) == 0 {
				continue
			}
			kv := func(k string) string {
				for _, x := range w[1:] {
					if strings.HasPrefix(x, k+"=") {
						return x[len(k)+1:]
					}
				}
				fatal("%s:%d: no %s", f, n+1, k)
				return ""
			}
			num := func(k string) int64 {
				v, err := strconv.ParseInt(kv(k), 0, 64)
				if err != nil {
					fatal("%s:%d: %v", f, n+1, err)
				}
				return v
			}
			switch w[0] {
			case "message":
				pk, t, _ := strings.Cut(w[1], ".")
				m = &MsgLayout{Pkg: pk, T: t, ID: num("id"), Extra: num("extra"), Min: num("min"), Max: num("max"), Ext: kv("ext") == "true"}
				m.Special = len(w) > 7 && w[7] == "special"
				sp.layouts[m.key()] = m
			case "field":
				o, _ := strconv.ParseInt(w[3], 10, 64)
				fl := LField{Name: w[1], Typ: w[2], Off: o}
				for _, x := range w[4:] {
					switch x {
					case "ext":
						fl.Ext = true
					case "text":
						fl.Text = true
					}
				}
				m.Fields = append(m.Fields, fl)
			case "dialect":
				d = &DialectLayout{Pkg: w[1], Name: kv("name")}
				sp.dialects[d.Pkg] = d
			case "row":
				d.Rows = append(d.Rows, Row{ID: num("id"), Extra: num("extra"), Min: num("min"), Max: num("max"), T: kv("type")})
			default:
				fatal("%s:%d: %q", f, n+1, line)
			}
		}
	}
	// instantiate the templates
	inst := func(file string, data interface{}, label string, layout *MsgLayout) {
		b, err := os.ReadFile(filepath.Join(dir, file))
		if err != nil {
			fatal("%v", err)
		}
		t, err := template.New(file).Funcs(template.FuncMap{
			"arrlen": func(s string) string { n, _, _ := strings.Cut(strings.TrimPrefix(s, "["), "]"); return n },
			"isarr":  func(s string) bool { return strings.HasPrefix(s, "[") },
		}).Parse(string(b))
		if err != nil {
			fatal("%v", err)
		}
		var out bytes.Buffer
		if err := t.Execute(&out, data); err != nil {
			fatal("%v", err)
		}
		n0 := len(sp.contracts)
		sp.parseText(file+":"+label, out.String())
		for _, c := range sp.contracts[n0:] {
			c.layout = layout
		}
	}
	var ks []string
	for k := range sp.layouts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if l := sp.layouts[k]; l.Special {
			inst("message_special.tmpl", l, k, l)
		} else {
			inst("message.tmpl", l, k, l)
		}
	}
	ks = nil
	for k := range sp.dialects {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		inst("dialect.tmpl", sp.dialects[k], k, nil)
	}
}

// relType: a type as written in the layout files
func relType(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), relType(u.Elem()))
	case *types.Basic:
		return types.Typ[u.Kind()].String()
	}
	return t.String()
}

func (e *SpecEnv) msgOf(v SV, n ast.Node) (StructV, *types.Struct, *MsgLayout) {
	if i, ok := v.v.(IfaceV); ok {
		v = SV{i.v, i.typ}
	}
	var s StructV
	var t types.Type
	switch a := v.v.(type) {
	case PtrV:
		if a.obj == nil {
			e.bad(n, "wire form of nil")
		}
		s, _ = e.h.load(a).(StructV)
		t = a.typ
	case StructV:
		s, t = a, a.typ
	}
	nt, ok := types.Unalias(t).(*types.Named)
	if !ok || s.f == nil {
		e.bad(n, "message expected, got %T", v.v)
	}
	pk := strings.TrimPrefix(strings.TrimPrefix(nt.Obj().Pkg().Path(), modPath), "/")
	l := e.x.tgt.sp.layouts[pk+"."+nt.Obj().Name()]
	if l == nil {
		e.bad(n, "no layout for %s", t)
	}
	return s, nt.Underlying().(*types.Struct), l
}

func (e *SpecEnv) eachField(v SV, n ast.Node, f func(lf LField, v Val, t types.Type)) *MsgLayout {
	s, st, l := e.msgOf(v, n)
	for _, lf := range l.Fields {
		found := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == lf.Name {
				if relType(st.Field(i).Type()) != lf.Typ {
					e.bad(n, "field %s.%s is %s, the definition says %s", l.key(), lf.Name, st.Field(i).Type(), lf.Typ)
				}
				found = true
				f(lf, s.f[i], st.Field(i).Type())
			}
		}
		if !found {
			e.bad(n, "field %s.%s is missing", l.key(), lf.Name)
		}
	}
	return l
}

// wire: the full encoding prescribed by the definition (base and extension fields)
func (e *SpecEnv) wire(v SV, n ast.Node) SV {
	c := e.x.c
	b := &byteBuilder{x: e.x, arr: c.ConstArr(c.BV(0, 8))}
	l := e.eachField(v, n, func(lf LField, fv Val, t types.Type) {
		b.off = lf.Off
		b.value(fv, t)
		if b.bad {
			e.bad(n, "field %s cannot be encoded", lf.Name)
		}
	})
	return SV{SeqV{arr: b.arr, off: c.I(0), len: c.I(l.Max), elem: types.Typ[types.Uint8]}, nil}
}

// decoded: every field of the message has the value that its position in s holds
func (e *SpecEnv) decoded(v SV, s SeqV, n ast.Node) *Term {
	c := e.x.c
	r := c.T
	e.eachField(v, n, func(lf LField, fv Val, t types.Type) {
		var un bool
		w := e.x.decodeVal(t, s.arr, c.AddK(s.off, lf.Off), false, &un, nil)
		r = c.And(r, e.reify(e.x.eqParts(fv, w)))
	})
	return r
}

// quieted: every field of b equals that of a, with signalling float32 NaNs quieted
func (e *SpecEnv) quieted(a, b SV, n ast.Node) *Term {
	c := e.x.c
	bs := map[string]Val{}
	e.eachField(b, n, func(lf LField, fv Val, t types.Type) { bs[lf.Name] = fv })
	r := c.T
	e.eachField(a, n, func(lf LField, fv Val, t types.Type) {
		r = c.And(r, e.reify(e.x.eqParts(quietVal(e.x, fv, t), bs[lf.Name])))
	})
	return r
}

// quietedBase: base fields come back, extension fields are zero
func (e *SpecEnv) quietedBase(a, b SV, n ast.Node) *Term {
	bs := map[string]Val{}
	e.eachField(b, n, func(lf LField, fv Val, t types.Type) { bs[lf.Name] = fv })
	r := e.x.c.T
	e.eachField(a, n, func(lf LField, fv Val, t types.Type) {
		w := quietVal(e.x, fv, t)
		if lf.Ext {
			w = e.x.zero(t)
		}
		r = e.x.c.And(r, e.reify(e.x.eqParts(w, bs[lf.Name])))
	})
	return r
}

func quietVal(x *Exec, v Val, t types.Type) Val {
	if isFloat(t) {
		if w, _, _ := width(t); w == 32 {
			return q32(x.c, v.(*Term))
		}
	}
	if a, ok := t.Underlying().(*types.Array); ok && isFloat(a.Elem()) {
		if w, _, _ := width(a.Elem()); w == 32 {
			r := x.c.ConstArr(x.c.BV(0, 32))
			for i := int64(0); i < a.Len(); i++ {
				r = x.c.Store(r, x.c.I(i), q32(x.c, x.arrayElem(v, x.c.I(i)).(*Term)))
			}
			return ArrV{arr: r, n: x.c.I(a.Len()), elem: a.Elem()}
		}
	}
	return v
}

// dialect tables as specification functions
func (e *SpecEnv) table(fn string, pkg string, id *Term, v SV, n ast.Node) SV {
	c := e.x.c
	d := e.x.tgt.sp.dialects[pkg]
	id = e.st.known(id)
	if d == nil {
		e.bad(n, "no dialect %s", pkg)
	}
	switch fn {
	case "inDialect":
		r := c.F
		for _, row := range d.Rows {
			r = c.Or(r, c.Eq(id, c.I(row.ID)))
		}
		return SV{r, boolType}
	case "dialectType":
		r := c.F
		for _, row := range d.Rows {
			t := e.typeIs(v, row.T)
			if t.isFalse() {
				continue
			}
			r = c.Or(r, c.And(c.Eq(id, c.I(row.ID)), t))
		}
		return SV{r, boolType}
	}
	r := c.I(0)
	for _, row := range d.Rows {
		k := row.Min
		switch fn {
		case "dialectExtra":
			k = row.Extra
		case "dialectMax":
			k = row.Max
		}
		r = c.Ite(c.Eq(id, c.I(row.ID)), c.I(k), r)
	}
	return SV{r, intType}
}

// ---- generating the layout files (once, from the tree the definitions were checked against)

func dumpLayouts(p *Program, dir string) {
	for rel, pk := range p.pkgs {
		if rel == "." || rel == "util" || rel == "cmd" {
			continue
		}
		var out strings.Builder
		fmt.Fprintf(&out, "# wire definitions of the messages in %s\n", rel)
		sc := pk.Pkg.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok || st.NumFields() == 0 {
				continue
			}
			var off int64
			var fs []string
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if f.Name() == "HasExtensionFieldValues" || f.Name() == "PayloadLength" && nm == "V2Extension" {
					continue
				}
				txt := ""
				if _, err := p.lookup(rel, nm+".Set"+f.Name()); err == nil {
					txt = " text"
				}
				fs = append(fs, fmt.Sprintf("  field %s %s %d%s", f.Name(), relType(f.Type()), off, txt))
				off += fixedSize(f.Type())
			}
			fmt.Fprintf(&out, "message %s.%s max=%d\n%s\n", rel, nm, off, strings.Join(fs, "\n"))
		}
		os.WriteFile(filepath.Join(dir, rel+".layout.raw"), []byte(out.String()), 0644)
	}
}

// known: the value of t when the path condition fixes it
func (st *State) known(t *Term) *Term {
	c := st.x.c
	for _, p := range st.pc {
		if p.op != OEq {
			continue
		}
		a, b := p.args[0], p.args[1]
		if a.isConst() {
			a, b = b, a
		}
		if !b.isConst() {
			continue
		}
		if a == t {
			return b
		}
		if t.op == OZext && t.args[0] == a {
			return c.Zext(b, t.w)
		}
	}
	return t
}
