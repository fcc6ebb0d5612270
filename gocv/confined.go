package main

// Confinement: which functions touch which fields, decided on the SSA of the whole module.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (sp *Specs) checkConfined(p *Program, prop string) []*TResult {
	var out []*TResult
	for _, cf := range sp.confined {
		if !has(cf.tags, prop) {
			continue
		}
		nt := p.namedType(cf.pkg, cf.typ)
		r := &TResult{t: &Target{prop: prop}, name: cf.pkg + ":" + cf.typ}
		out = append(out, r)
		if nt == nil {
			r.obls = append(r.obls, &Obl{Name: "the type exists", Tags: []string{"reach"}, ans: &Answer{res: Unknown}})
			continue
		}
		is := func(t types.Type) bool {
			if q, ok := t.Underlying().(*types.Pointer); ok {
				t = q.Elem()
			}
			return types.Identical(t, nt)
		}
		bad := map[string]map[string]bool{}
		note := func(fn *ssa.Function, what string) {
			if _, ok := p.visited.Load(fn); ok {
				return
			}
			if bad[what] == nil {
				bad[what] = map[string]bool{}
			}
			bad[what][fn.String()] = true
		}
		field := func(fn *ssa.Function, i int) {
			for _, f := range cf.fields {
				if p.fieldIndex(nt, f) == i {
					note(fn, f)
				}
			}
		}
		for _, fn := range p.allFuncs() {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch i := in.(type) {
					case *ssa.FieldAddr:
						if is(i.X.Type()) {
							field(fn, i.Field)
						}
					case *ssa.Field:
						if is(i.X.Type()) {
							field(fn, i.Field)
						}
					case *ssa.Store:
						if types.Identical(i.Val.Type(), nt) {
							note(fn, "the whole value")
						}
					case *ssa.Convert, *ssa.ChangeType:
						v := i.(ssa.Value)
						for _, o := range in.Operands(nil) {
							if *o != nil && is((*o).Type()) && !is(v.Type()) {
								note(fn, "the value, converted")
							}
						}
					}
				}
			}
		}
		for _, f := range append(append([]string(nil), cf.fields...), "the whole value", "the value, converted") {
			o := &Obl{Name: fmt.Sprintf("only functions under contract touch %s", f), Tags: cf.tags}
			if !strings.HasPrefix(f, "the ") && p.fieldIndex(nt, f) < 0 {
				o.note = "there is no such field"
				o.ans = &Answer{res: Unknown}
			} else if len(bad[f]) == 0 {
				o.static, o.ok, o.solver = true, true, "ssa scan"
			} else {
				o.note = fmt.Sprint(sortedKeys(bad[f]))
				o.ans = &Answer{res: Unknown}
			}
			r.obls = append(r.obls, o)
		}
	}
	return out
}
