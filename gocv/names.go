package main

// Names of the pinned commit. A contract names unexported fields and functions; where the source no longer has one of
// them, the one new field (of the same type) or function (same receiver and signature) that takes its place is meant. This
// only chooses what a contract is checked against: every obligation is still generated from the source at hand.

import (
	"encoding/json"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type nameTable struct {
	Fields map[string][][2]string `json:"fields"` // type -> name, type
	Funcs  map[string][][2]string `json:"funcs"`  // package:receiver -> name, signature
}

var namedPkgs = []string{".", "util"}

func (p *Program) names() *nameTable {
	nt := &nameTable{map[string][][2]string{}, map[string][][2]string{}}
	qual := func(q *types.Package) string { return q.Path() }
	sig := func(s *types.Signature) string {
		// without parameter names
		strip := func(t *types.Tuple) *types.Tuple {
			var vs []*types.Var
			for i := 0; i < t.Len(); i++ {
				vs = append(vs, types.NewVar(0, nil, "", t.At(i).Type()))
			}
			return types.NewTuple(vs...)
		}
		return types.TypeString(types.NewSignatureType(nil, nil, nil, strip(s.Params()), strip(s.Results()), s.Variadic()), qual)
	}
	for _, pkg := range namedPkgs {
		sp := p.pkgs[pkg]
		if sp == nil {
			continue
		}
		for name, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				if m.Synthetic == "" {
					nt.Funcs[pkg+":"] = append(nt.Funcs[pkg+":"], [2]string{name, sig(m.Signature)})
				}
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				if st, ok := n.Underlying().(*types.Struct); ok {
					k := pkg + ":" + name
					for i := 0; i < st.NumFields(); i++ {
						nt.Fields[k] = append(nt.Fields[k], [2]string{st.Field(i).Name(), types.TypeString(st.Field(i).Type(), qual)})
					}
				}
				for i := 0; i < n.NumMethods(); i++ {
					k := pkg + ":" + name
					nt.Funcs[k] = append(nt.Funcs[k], [2]string{n.Method(i).Name(), sig(n.Method(i).Type().(*types.Signature))})
				}
			}
		}
	}
	for _, l := range nt.Funcs {
		sort.Slice(l, func(i, j int) bool { return l[i][0] < l[j][0] })
	}
	return nt
}

func dumpNames(p *Program, dir string) {
	b, _ := json.MarshalIndent(p.names(), "", " ")
	if err := os.WriteFile(filepath.Join(dir, "names.json"), append(b, '\n'), 0644); err != nil {
		fatal("%v", err)
	}
}

// loadAliases compares the names with those of the pinned commit
func (p *Program) loadAliases(dir string) {
	p.fieldAlias, p.funcAlias = map[string]string{}, map[string]string{}
	b, err := os.ReadFile(filepath.Join(dir, "names.json"))
	if err != nil {
		fatal("%v", err)
	}
	var old nameTable
	if err := json.Unmarshal(b, &old); err != nil {
		fatal("names.json: %v", err)
	}
	now := p.names()
	match := func(o, n [][2]string, loose bool) map[string]string {
		has := func(l [][2]string, s string) bool {
			for _, x := range l {
				if x[0] == s {
					return true
				}
			}
			return false
		}
		gone, added := map[string][]string{}, map[string][]string{}
		var goneT, addedT []string
		for _, x := range o {
			if !has(n, x[0]) {
				if gone[x[1]] == nil {
					goneT = append(goneT, x[1])
				}
				gone[x[1]] = append(gone[x[1]], x[0])
			}
		}
		for _, x := range n {
			if !has(o, x[0]) {
				if added[x[1]] == nil {
					addedT = append(addedT, x[1])
				}
				added[x[1]] = append(added[x[1]], x[0])
			}
		}
		r := map[string]string{}
		for _, t := range goneT {
			if g, a := gone[t], added[t]; len(g) == len(a) && (loose || len(g) == 1) {
				for i := range g {
					r[g[i]] = a[i]
				}
				delete(gone, t)
				delete(added, t)
			}
		}
		if loose && len(gone) == 1 && len(added) == 1 {
			for _, g := range gone {
				for _, a := range added {
					if len(g) == 1 && len(a) == 1 {
						r[g[0]] = a[0]
					}
				}
			}
		}
		return r
	}
	for k, o := range old.Fields {
		for g, a := range match(o, now.Fields[k], true) {
			p.fieldAlias[k+"."+g] = a
		}
	}
	for k, o := range old.Funcs {
		pkg, recv, _ := strings.Cut(k, ":")
		if recv != "" {
			recv += "."
		}
		for g, a := range match(o, now.Funcs[k], false) {
			p.funcAlias[pkg+":"+recv+g] = recv + a
		}
	}
}

// fieldIndex: the field that a contract calls name, or -1
func (p *Program) fieldIndex(t types.Type, name string) int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return -1
	}
	pkg := strings.TrimPrefix(strings.TrimPrefix(n.Obj().Pkg().Path(), modPath), "/")
	if pkg == "" {
		pkg = "."
	}
	if a, ok := p.fieldAlias[pkg+":"+n.Obj().Name()+"."+name]; ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == a {
				return i
			}
		}
	}
	return -1
}
