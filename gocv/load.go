package main

// Loading: /repo's current source -> typed AST -> go/ssa. Nothing is cached between runs.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/botlink/go-mavlink2"

type Program struct {
	prog                  *ssa.Program
	visited               sync.Map                // functions executed for a contract of the property
	pkgs                  map[string]*ssa.Package // by path relative to the module
	loops                 map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	constG                map[*ssa.Global]bool
	repo                  string
	broken                map[string]string
	pkgTypes              map[string]*types.Package
	fieldAlias, funcAlias map[string]string // names.go
}

func (p *Program) inModule(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

func loadProgram(repo string) *Program {
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps | packages.NeedExportFile | packages.NeedTypesSizes, Dir: repo, Env: os.Environ()}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		fatal("load: %v", err)
	}
	P := &Program{pkgs: map[string]*ssa.Package{}, repo: repo, broken: map[string]string{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, constG: map[*ssa.Global]bool{}, pkgTypes: map[string]*types.Package{}}
	prog, sp := ssautil.Packages(pk, 0)
	prog.Build()
	P.prog = prog
	for i, p := range pk {
		rel := strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, modPath), "/")
		if rel == "" {
			rel = "."
		}
		if len(p.Errors) > 0 || sp[i] == nil {
			msg := "does not build"
			if len(p.Errors) > 0 {
				msg = p.Errors[0].Error()
			}
			P.broken[rel] = msg
			continue
		}
		P.pkgs[rel] = sp[i]
	}
	P.analyseGlobals()
	return P
}

// allFuncs: every function of the module with a body
func (p *Program) allFuncs() []*ssa.Function {
	var out []*ssa.Function
	for f := range ssautil.AllFunctions(p.prog) {
		if f.Blocks != nil && f.Pkg != nil && p.inModule(f.Pkg.Pkg.Path()) {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func isInitFn(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Synthetic == "package initializer" || strings.HasPrefix(f.Name(), "init#") || f.Name() == "init"
}

// analyseGlobals finds package variables that nothing but package initialisation changes.
func (p *Program) analyseGlobals() {
	mut := map[*ssa.Global]bool{}
	for _, f := range p.allFuncs() {
		initf := isInitFn(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if initf {
						continue
					}
					if v, ok := in.(ssa.Value); ok && readOnlyUse(v, g, 0) {
						continue
					}
					mut[g] = true
				}
			}
		}
	}
	// variables captured by function literals that run later
	shared := map[*ssa.Package]bool{}
	for _, f := range p.allFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && len(mc.Bindings) > 0 && isInitFn(f) {
					shared[f.Pkg] = true
				}
			}
		}
	}
	for _, sp := range p.pkgs {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				p.constG[g] = !mut[g] && !shared[sp]
			}
		}
	}
}

// readOnlyUse: v is derived from a global only by loads/addresses and is never written through
func readOnlyUse(v ssa.Value, from ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch in := v.(type) {
	case *ssa.UnOp:
		if in.X != from {
			return false
		}
		// loaded value: scalars/ifaces are copies; maps/slices/pointers alias
		switch v.Type().Underlying().(type) {
		case *types.Interface:
			// what is behind it may change when its methods are called
			return types.Identical(v.Type(), types.Universe.Lookup("error").Type())
		case *types.Map, *types.Slice, *types.Pointer:
			for _, r := range *v.Referrers() {
				switch ri := r.(type) {
				case *ssa.Lookup:
					if ri.X != v {
						return false
					}
				case *ssa.Range, *ssa.DebugRef:
				case *ssa.IndexAddr:
					if !readOnlyUse(ri, v, d+1) {
						return false
					}
				case *ssa.FieldAddr:
					if !readOnlyUse(ri, v, d+1) {
						return false
					}
				case *ssa.Call:
					if b, ok := ri.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap" || b.Name() == "copy" && ri.Call.Args[0] != v) {
						continue
					}
					return false
				default:
					return false
				}
			}
		}
		return true
	case *ssa.IndexAddr, *ssa.FieldAddr:
		for _, r := range *v.Referrers() {
			rv, ok := r.(ssa.Value)
			if !ok {
				if _, dbg := r.(*ssa.DebugRef); dbg {
					continue
				}
				return false
			}
			if !readOnlyUse(rv, v, d+1) {
				return false
			}
		}
		return true
	case *ssa.Slice:
		return false
	}
	return false
}

// natural loops: header -> body blocks
func (p *Program) loopsOf(f *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := p.loops[f]; ok {
		return l
	}
	l := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := l[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					l[s] = body
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if body[x] {
						return
					}
					body[x] = true
					for _, q := range x.Preds {
						add(q)
					}
				}
				add(b)
			}
		}
	}
	p.loops[f] = l
	return l
}

// precompute loops so that targets can run in parallel
func (p *Program) prepare() {
	for _, f := range p.allFuncs() {
		p.loopsOf(f)
	}
}

// function lookup: "pkg:Func", "pkg:Type.Method"
func (p *Program) lookup(pkg, name string) (*ssa.Function, error) {
	sp := p.pkgs[pkg]
	if sp == nil {
		if m, ok := p.broken[pkg]; ok {
			return nil, fmt.Errorf("package %s: %s", pkg, m)
		}
		return nil, fmt.Errorf("package %s not found", pkg)
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		tn, mn := name[:i], name[i+1:]
		m := sp.Members[tn]
		t, ok := m.(*ssa.Type)
		if !ok {
			return nil, fmt.Errorf("type %s.%s not found", pkg, tn)
		}
		for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
			ms := p.prog.MethodSets.MethodSet(tt)
			for k := 0; k < ms.Len(); k++ {
				if ms.At(k).Obj().Name() == mn && len(ms.At(k).Index()) == 1 {
					f := p.prog.MethodValue(ms.At(k))
					if f != nil && f.Synthetic == "" {
						return f, nil
					}
				}
			}
		}
		return nil, fmt.Errorf("method %s.%s not found", pkg, name)
	}
	if f, ok := sp.Members[name].(*ssa.Function); ok {
		return f, nil
	}
	return nil, fmt.Errorf("function %s.%s not found", pkg, name)
}

func (p *Program) namedType(pkg, name string) types.Type {
	sp := p.pkgs[pkg]
	if sp == nil {
		return nil
	}
	if t, ok := sp.Members[name].(*ssa.Type); ok {
		return t.Type()
	}
	return nil
}

func fnKey(f *ssa.Function) string {
	if f.Pkg == nil {
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.String()
		}
		return f.String()
	}
	return strings.ReplaceAll(f.String(), modPath, "m")
}
