package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type OblOut struct {
	Target string `json:"target"`
	Name   string `json:"name"`
	Pos    string `json:"pos,omitempty"`
	Status string `json:"status"`
	Solver string `json:"solver,omitempty"`
	Note   string `json:"note,omitempty"`
	Trail  string `json:"trail,omitempty"`
	Model  *Model `json:"model,omitempty"`
	Count  int    `json:"count,omitempty"`
}
type Report struct {
	Property    string           `json:"property"`
	Functions   []string         `json:"functions_under_contract"`
	Inlined     []string         `json:"inlined_functions"`
	Trusted     []string         `json:"trusted"`
	Notes       []string         `json:"notes"`
	Targets     int              `json:"targets"`
	Obligations int              `json:"obligations"`
	Discharged  int              `json:"discharged"`
	BySolver    map[string]int   `json:"discharged_by"`
	Paths       int              `json:"paths"`
	Failed      []OblOut         `json:"failed"`
	Queries     int64            `json:"solver_queries"`
	SolverS     float64          `json:"solver_seconds"`
	WallS       float64          `json:"wall_seconds"`
	Thorough    map[string]int64 `json:"thorough,omitempty"`
}

func main() {
	debug.SetGCPercent(200)
	if len(os.Args) < 2 {
		fatal("usage: gocv check|run|layout ...")
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	dir := fs.String("contracts", "/verif/contracts", "")
	prop := fs.String("prop", "", "")
	fnre := fs.String("fn", "", "")
	out := fs.String("out", "", "")
	verbose := fs.Bool("v", false, "")
	cands := fs.Bool("cands", false, "")
	par := fs.Int("j", runtime.NumCPU(), "")
	dump := fs.String("slow", "", "")
	fs.BoolVar(&thorough, "thorough", false, "put every discharged query to a second solver too")
	confirm := fs.Int("confirm", 1500, "seconds for second opinions")
	seed := fs.Int("seed", 1, "the solver's random seed (1: its default)")
	limit := fs.Int("deadline", 0, "seconds after which nothing more is attempted")
	fs.Parse(os.Args[2:])
	if *limit > 0 {
		deadline = time.Now().Add(time.Duration(*limit) * time.Second)
	}
	confirmUntil = time.Now().Add(time.Duration(*confirm) * time.Second)
	if *seed != 1 {
		solverOpts += fmt.Sprintf(" smt.random_seed=%d sat.random_seed=%d", *seed, *seed)
	}
	if thorough {
		timeoutMS *= 3
	}
	if v := os.Getenv("GOCV_TIMEOUT"); v != "" {
		fmt.Sscan(v, &timeoutMS)
	}
	slots = make(chan bool, *par)
	if pf := os.Getenv("GOCV_PROFILE"); pf != "" {
		w, _ := os.Create(pf)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	debugCands = *cands
	dumpSlow = *dump
	t0 := time.Now()
	p := loadProgram(*repo)
	if os.Args[1] == "layout" {
		dumpLayouts(p, *dir)
		return
	}
	if os.Args[1] == "names" {
		dumpNames(p, *dir)
		return
	}
	p.loadAliases(*dir)
	sp := loadSpecs(*dir)
	sp.resolve(p)
	p.prepare()
	cts := sp.selectFor(*prop)
	if *fnre != "" {
		re := regexp.MustCompile(*fnre)
		var n []*Contract
		for _, c := range cts {
			if re.MatchString(c.name()) {
				n = append(n, c)
			}
		}
		cts = n
	}
	if *verbose {
		fmt.Fprintf(os.Stderr, "loaded in %.1fs\n", time.Since(t0).Seconds())
	}
	var rs []*TResult
	have := map[*Contract]bool{}
	for next := cts; len(next) > 0; {
		var ts []*Target
		for _, c := range next {
			have[c] = true
			for _, t := range sp.targetsOf(c) {
				t.prop, t.own = *prop, has(c.allTags(), *prop)
				ts = append(ts, t)
			}
		}
		n := runAll(p, ts, *par, *verbose)
		rs = append(rs, n...)
		next = nil
		if *fnre != "" {
			break
		}
		// contracts that the proofs rest on are proved too
		for _, r := range n {
			for c := range r.applied {
				if !have[c] {
					have[c] = true
					next = append(next, c)
					cts = append(cts, c)
				}
			}
		}
		sort.Slice(next, func(i, j int) bool { return next[i].name() < next[j].name() })
	}
	if *fnre == "" && *prop != "" {
		rs = append(rs, sp.checkConfined(p, *prop)...)
	}
	rep := sp.report(*prop, cts, rs)
	rep.WallS = time.Since(t0).Seconds()
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		if err := os.WriteFile(*out, b, 0644); err != nil {
			fatal("%v", err)
		}
	}
	fmt.Printf("gocv: property=%s functions=%d targets=%d paths=%d obligations=%d discharged=%d solver=%.1fs wall=%.1fs\n", *prop, len(rep.Functions), rep.Targets, rep.Paths, rep.Obligations, rep.Discharged, rep.SolverS, rep.WallS)
	for _, o := range rep.Failed {
		fmt.Printf("  %s: %s: %s  %s %s x%d\n", strings.ToUpper(o.Status), o.Target, o.Name, o.Pos, o.Note, o.Count)
		if *verbose && o.Trail != "" {
			fmt.Printf("     path: %s\n", o.Trail)
		}
	}
	if len(rep.Failed) > 0 {
		os.Exit(1)
	}
}

func runAll(p *Program, ts []*Target, par int, verbose bool) []*TResult {
	rs := make([]*TResult, len(ts))
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= len(ts) {
					return
				}
				r := runTarget(p, ts[i])
				rs[i] = r
				r.applied = r.x.applied
				if !debugCands {
					r.x = nil
				}
				if verbose {
					ok := 0
					for _, o := range r.obls {
						if o.ok {
							ok++
						}
					}
					fmt.Fprintf(os.Stderr, "  %-60s %3d/%3d paths=%d runs=%d %.2fs\n", r.name, ok, len(r.obls), r.returns, r.runs, r.dur.Seconds())
				}
				for _, o := range r.obls {
					o.q, o.parts = nil, nil
				}
			}
		}()
	}
	wg.Wait()
	return rs
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// selectFor: the contracts that state the property, and the modular contracts their proofs use
func (sp *Specs) selectFor(prop string) []*Contract {
	if prop == "" {
		return sp.contracts
	}
	sel := map[*Contract]bool{}
	var work []*Contract
	add := func(c *Contract) {
		if !sel[c] {
			sel[c] = true
			work = append(work, c)
		}
	}
	for _, c := range sp.contracts {
		if has(c.allTags(), prop) {
			add(c)
		}
	}
	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		if c.ssa == nil {
			continue
		}
		for _, m := range sp.modularCallees(c.ssa) {
			add(m)
		}
	}
	var out []*Contract
	for _, c := range sp.contracts {
		if sel[c] {
			out = append(out, c)
		}
	}
	return out
}

// modularCallees: modular contracts reachable through static calls
func (sp *Specs) modularCallees(f *ssa.Function) []*Contract {
	seen := map[*ssa.Function]bool{}
	var out []*Contract
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || len(seen) > 400 {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil {
						continue
					}
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if c := sp.byFn[g]; c != nil && c.modular {
						out = append(out, c)
						continue
					}
					if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
						visit(g)
					}
				}
			}
		}
	}
	visit(f)
	return out
}

func isProp(s string) bool { return len(s) == 3 && s[0] == 'C' && s[1] >= '0' && s[1] <= '9' }

// relevant: an obligation belongs to the property if it is tagged with it or with no property
func relevantTags(tags []string, prop string, own bool) bool {
	if prop == "" || !own {
		return true
	}
	any := false
	for _, t := range tags {
		if t == prop {
			return true
		}
		if isProp(t) {
			any = true
		}
	}
	return !any
}

func (sp *Specs) report(prop string, cts []*Contract, rs []*TResult) *Report {
	rep := &Report{Property: prop, BySolver: map[string]int{}, Failed: []OblOut{}}
	in, tr, no := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, c := range cts {
		rep.Functions = append(rep.Functions, c.name())
	}
	idx := map[string]int{}
	skipped := 0
	for _, r := range rs {
		rep.Targets++
		rep.Paths += r.returns
		for _, s := range r.inlined {
			in[s] = true
		}
		for _, s := range r.trusted {
			tr[s] = true
		}
		for _, s := range r.notes {
			no[s] = true
		}
		for _, o := range r.obls {
			if !relevantTags(o.Tags, prop, r.t.own) {
				continue
			}
			rep.Obligations++
			if o.ok {
				rep.Discharged++
				s := o.solver
				if s == "" {
					s = "simplifier"
				}
				rep.BySolver[s]++
				continue
			}
			if o.skipped {
				skipped++
				continue
			}
			k := r.name + "|" + o.Name + "|" + o.Pos
			if j, ok := idx[k]; ok {
				rep.Failed[j].Count++
				if rep.Failed[j].Model == nil && o.ans != nil {
					rep.Failed[j].Model = o.ans.model
				}
				if o.status() == "failed" {
					rep.Failed[j].Status = "failed"
				}
				continue
			}
			idx[k] = len(rep.Failed)
			oo := OblOut{Target: r.name, Name: o.Name, Pos: o.Pos, Status: o.status(), Solver: o.solver, Note: o.note, Trail: strings.Join(o.trail, "; "), Count: 1}
			if o.ans != nil {
				oo.Model = o.ans.model
			}
			rep.Failed = append(rep.Failed, oo)
		}
	}
	if skipped > 0 {
		why := "others had failed"
		if outOfTime() {
			why = "the time limit was reached"
		}
		rep.Failed = append(rep.Failed, OblOut{Target: "*", Name: fmt.Sprintf("%d obligations were not attempted: %s", skipped, why), Status: "unknown", Count: skipped})
	}
	rep.Inlined, rep.Trusted, rep.Notes = sortedKeys(in), sortedKeys(tr), sortedKeys(no)
	sort.Strings(rep.Functions)
	if thorough {
		rep.Thorough = map[string]int64{"confirmed_by_second_solver": statConfirmed, "second_solver_no_answer": statUnconfirmed}
	}
	rep.Queries = atomic.LoadInt64(&statQueries)
	rep.SolverS = float64(atomic.LoadInt64(&statNanos)) / 1e9
	return rep
}
