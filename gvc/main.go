package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

type FnResult struct {
	Name      string   `json:"name"`
	Kind      string   `json:"kind"`
	Obls      []*OblR  `json:"obligations"`
	Inlined   []string `json:"inlined,omitempty"`
	Uses      []string `json:"uses,omitempty"`
	Invs      []string `json:"invariants,omitempty"`
	Ms        int64    `json:"ms"`
	elsewhere []string
}
type OblR struct {
	Name   string `json:"name"`
	Kind   string `json:"kind"`
	Pos    string `json:"pos"`
	Status string `json:"status"`
	Solver string `json:"solver"`
	Ms     int64  `json:"ms"`
	Out    string `json:"out,omitempty"`
	Expect string `json:"expect,omitempty"`
}
type Result struct {
	Property  string         `json:"property"`
	Functions []*FnResult    `json:"functions"`
	Assumed   []string       `json:"assumed"`
	Axioms    []AxR          `json:"axioms"`
	Trusted   []string       `json:"trusted_contracts"`
	Failed    []string       `json:"failed"`
	Total     int            `json:"total"`
	Proved    int            `json:"proved"`
	Solvers   map[string]int `json:"by_solver"`
	SolverMs  int64          `json:"solver_ms"`
	Missing   []string       `json:"contracts_without_function"`
	Elsewhere []string       `json:"discharged_by_other_checks"`
	Error     string         `json:"error,omitempty"`
}
type AxR struct {
	Name, Kind, Pos string
}

func main() {
	repo := flag.String("repo", "/repo", "")
	specs := flag.String("specs", "/verif/contracts", "")
	prop := flag.String("prop", "", "property id (tag); empty = everything")
	tagsF := flag.String("tags", "", "comma separated active tags (default: the property)")
	fnRe := flag.String("fn", "", "only contracts matching")
	out := flag.String("out", "", "")
	verbose := flag.Bool("v", false, "")
	fast := flag.Int("t1", 4000, "first timeout ms")
	slow := flag.Int("t2", 20000, "second timeout ms")
	dump := flag.String("dump", "", "")
	flag.BoolVar(&coverMode, "cover", false, "report unreachable blocks (assumption audit)")
	safety := flag.Bool("safety", false, "check absence of panics")
	leanT := flag.String("lean", "", "Lean file whose --@stmt and --@def markers are filled from the contracts")
	leanO := flag.String("leanout", "", "")
	listFns := flag.Bool("list", false, "")
	only := flag.Bool("only", false, "do not follow used contracts")
	flag.BoolVar(&debugInfer, "di", false, "")
	flag.Parse()
	if *leanT != "" {
		sp, err := ParseSpecs(*specs)
		if err == nil {
			err = EmitLean(sp, *leanT, *leanO)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return
	}
	dumpDir = *dump
	t0 := time.Now()
	var err error
	scratch, err = os.MkdirTemp("", "gvc")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(scratch)
	res := &Result{Property: *prop, Solvers: map[string]int{}}
	finish := func(code int) {
		os.RemoveAll(scratch)
		if *out != "" {
			b, _ := json.MarshalIndent(res, "", " ")
			os.WriteFile(*out, b, 0o644)
		}
		os.Exit(code)
	}
	e, err := Load(*repo)
	if err != nil {
		res.Error = "load: " + err.Error()
		fmt.Fprintln(os.Stderr, res.Error)
		finish(2)
	}
	if *listFns {
		var ns []string
		for n := range e.funcs {
			if !strings.HasPrefix(n, "grammar.") {
				ns = append(ns, n)
			}
		}
		sort.Strings(ns)
		fmt.Println(strings.Join(ns, "\n"))
		finish(0)
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				res.Error = fmt.Sprint("contract syntax: ", x)
			}
		}()
		e.spec, err = ParseSpecs(*specs)
		if err != nil {
			res.Error = err.Error()
		}
	}()
	if res.Error != "" {
		fmt.Fprintln(os.Stderr, res.Error)
		finish(2)
	}
	// contracts on functions the repository no longer has (or has with another shape) fall away;
	// what those functions did is then part of the bodies of their callers
	var order []*Contract
	for _, c := range e.spec.Order {
		if !c.IsLemma && !c.Abstract && !c.Trusted {
			fn := e.funcs[c.Name]
			if fn == nil || len(fn.Params) != len(c.Params) || fn.Signature.Results().Len() != len(c.Results) {
				res.Missing = append(res.Missing, c.Name)
				delete(e.spec.Contracts, c.Name)
				continue
			}
		}
		order = append(order, c)
	}
	e.spec.Order = order
	e.refinements()
	loadT := time.Since(t0)
	e.computeModsets()
	infT := time.Since(t0)
	var tags map[string]bool
	if *tagsF != "" || *prop != "" {
		tags = map[string]bool{}
		l := *tagsF
		if l == "" {
			l = *prop
		}
		for _, t := range strings.Split(l, ",") {
			tags[t] = true
		}
	}
	var re *regexp.Regexp
	if *fnRe != "" {
		re = regexp.MustCompile(*fnRe)
	}
	// roots
	byName := map[string]*Contract{}
	for _, c := range e.spec.Order {
		byName[c.Name] = c
	}
	queue := []*Contract{}
	inq := map[string]bool{}
	push := func(c *Contract) {
		if c != nil && !inq[c.Name] {
			inq[c.Name] = true
			queue = append(queue, c)
		}
	}
	for _, c := range e.spec.Order {
		if re != nil {
			if re.MatchString(c.Name) {
				push(c)
			}
			continue
		}
		if tags == nil {
			push(c)
			continue
		}
		root := *safety
		for _, t := range c.Tags {
			if tags[t] {
				root = true
			}
		}
		cl := append(append([]*Clause{}, c.Ensures...), c.Requires...)
		for _, s := range c.Steps {
			if s.C != nil {
				cl = append(cl, s.C)
			}
		}
		for _, q := range cl {
			for _, t := range q.Tags {
				if tags[t] && (*prop == "" || t == *prop) {
					root = true
				}
			}
		}
		if root {
			push(c)
		}
	}
	axUsed := map[string]bool{}
	trusted := map[string]bool{}
	for i := 0; i < len(queue); i++ {
		c := queue[i]
		if c.Inline {
			continue
		}
		if c.Trusted {
			trusted[c.Name+" ("+c.Pos+")"] = true
			continue
		}
		if c.Abstract {
			continue
		}
		fr := e.verify(c, tags, *safety, *fast, *slow)
		res.Functions = append(res.Functions, fr)
		for _, u := range fr.Uses {
			if strings.HasPrefix(u, "axiom:") || strings.HasPrefix(u, "lemma:") {
				axUsed[u[6:]] = true
				continue
			}
			if !*only && re == nil || !*only {
				push(byName[u])
			}
		}
		res.Elsewhere = append(res.Elsewhere, fr.elsewhere...)
		nf := 0
		for _, o := range fr.Obls {
			res.Total++
			if o.Status == "proved" {
				res.Proved++
				sv := o.Solver
				res.Solvers[sv]++
			} else {
				nf++
				res.Failed = append(res.Failed, fr.Name+": "+o.Name+" ["+o.Kind+" "+o.Pos+"] "+o.Out)
			}
			res.SolverMs += o.Ms
			if *verbose && (o.Status != "proved" || o.Ms > 2000) {
				fmt.Printf("    %-7s %s [%s %s] %s %dms %s\n", o.Status, o.Name, o.Kind, o.Pos, o.Solver, o.Ms, o.Out)
			}
		}
		if *verbose {
			fmt.Printf("%-60s %d obligations, %d failed, %d ms\n", fr.Name, len(fr.Obls), nf, fr.Ms)
		}
	}
	for a := range e.assumed {
		res.Assumed = append(res.Assumed, a)
	}
	sort.Strings(res.Assumed)
	for _, a := range e.spec.Axioms {
		if axUsed[a.Name] {
			res.Axioms = append(res.Axioms, AxR{a.Name, a.Kind, a.Pos})
		}
	}
	for n, a := range e.spec.Lemmas {
		if axUsed[n] {
			res.Axioms = append(res.Axioms, AxR{a.Name, a.Kind, a.Pos})
		}
	}
	sort.Slice(res.Axioms, func(i, j int) bool { return res.Axioms[i].Name < res.Axioms[j].Name })
	for t := range trusted {
		res.Trusted = append(res.Trusted, t)
	}
	sort.Strings(res.Trusted)
	if *verbose {
		fmt.Printf("load %v infer %v total %v; %d/%d proved; solver ms %d\n", loadT, infT-loadT, time.Since(t0), res.Proved, res.Total, res.SolverMs)
		for _, f := range res.Failed {
			fmt.Println("FAILED", f)
		}
	}
	if res.Total == 0 {
		res.Failed = append(res.Failed, "no obligation was generated")
	}
	if len(res.Failed) > 0 {
		finish(1)
	}
	finish(0)
}

var debugDrop = os.Getenv("GVC_DROP")

func (e *Engine) verify(c *Contract, tags map[string]bool, safety bool, fast, slow int) *FnResult {
	t0 := time.Now()
	fr := &FnResult{Name: c.Name, Kind: "function"}
	if c.IsLemma {
		fr.Kind = "scenario"
	}
	// first with little time for the invariant candidates; if that leaves an obligation open, with all of it
	quick := []int{fast}
	if fast <= 5000 && fast > 1600 {
		quick = []int{1600, fast}
	}
	var r *Run
	var inv map[string]bool
	for _, t := range quick {
		r, inv = e.attempt(c, tags, safety, t, fast, slow, t0)
		open := 0
		for _, o := range r.obls {
			if o.Status != "proved" {
				open++
			}
		}
		if open == 0 {
			break
		}
	}
	for k := range inv {
		fr.Invs = append(fr.Invs, k)
	}
	sort.Strings(fr.Invs)
	for _, o := range r.obls {
		fr.Obls = append(fr.Obls, &OblR{o.Name, o.Kind, o.Pos, o.Status, o.Solver, o.Ms, o.Model, o.Expect})
	}
	for k := range r.inlined {
		fr.Inlined = append(fr.Inlined, k)
	}
	for k := range r.usedContracts {
		fr.Uses = append(fr.Uses, k)
	}
	fr.elsewhere = r.elsewhere
	sort.Strings(fr.Inlined)
	sort.Strings(fr.Uses)
	fr.Ms = time.Since(t0).Milliseconds()
	return fr
}

// attempt drops the invariant candidates that cannot be shown (each solver run given cand/2), then decides every obligation.
func (e *Engine) attempt(c *Contract, tags map[string]bool, safety bool, cand, fast, slow int, t0 time.Time) (*Run, map[string]bool) {
	dropped := map[string]bool{}
	var r *Run
	gen := func() {
		r = NewRun(e, c.Name, tags)
		r.safety = safety
		r.dropped = dropped
		if c.IsLemma {
			r.verifyScenario(c)
		} else {
			r.verifyFunc(c)
		}
		r.flushComps()
	}
	for round := 0; round < 12; round++ {
		gen()
		var cs []*Obl
		for _, o := range r.obls {
			if o.Cand != "" {
				cs = append(cs, o)
			}
		}
		if len(cs) == 0 {
			break
		}
		r.trySolve(cs, cand/2, 0)
		n := 0
		for _, o := range cs {
			if o.Status != "proved" && !dropped[o.Cand] {
				dropped[o.Cand] = true
				n++
				if debugDrop != "" && strings.Contains(o.Cand, debugDrop) {
					fmt.Println("dropped in round", round, o.Name, o.Cand, o.Model)
				}
			}
		}
		if debugDrop != "" {
			fmt.Println("round", round, "candidates", len(cs), "dropped", n, "after", time.Since(t0).Round(time.Millisecond))
		}
		if n == 0 {
			break
		}
	}
	var rest []*Obl
	inv := map[string]bool{}
	for _, o := range r.obls {
		if o.Cand != "" {
			inv[strings.TrimPrefix(strings.TrimPrefix(o.Name, "loop invariant preserved: "), "loop invariant established: ")+" {"+o.Cand+"}"] = true
		}
		rest = append(rest, o)
	}
	r.trySolve(rest, fast, slow)
	return r, inv
}

func (r *Run) trySolve(obls []*Obl, ms1, ms2 int) {
	defer func() {
		if x := recover(); x != nil {
			if s, ok := x.(specErr); ok {
				r.obls = append(r.obls, &Obl{Name: "contract error: " + s.msg, Kind: "unsupported", Status: "failed", Fn: r.name})
				return
			}
			panic(x)
		}
	}()
	r.solveAll(obls, ms1, ms2)
}

var _ = filepath.Join
