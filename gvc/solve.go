package main

// SMT-LIB generation and solver portfolio.

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type axInfo struct {
	name string
	t    *Term
	syms map[string]bool
}

// specAxioms evaluates the non-parametric axioms of the specification.
func (r *Run) specAxioms() []axInfo {
	var out []axInfo
	for _, a := range r.e.spec.Axioms {
		env := &Env{r: r, vars: map[string]SVal{}, st: r.init, pkg: a.Pkg, inUse: true}
		t := env.bool(a.E)
		out = append(out, axInfo{a.Name, t, symsOf(t)})
	}
	return out
}

func symsOf(t *Term) map[string]bool {
	m := map[string]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if strings.HasPrefix(t.op, "f:") || strings.HasPrefix(t.op, "c:f:") {
			m[strings.TrimPrefix(t.op, "c:")] = true
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				rec(x)
			}
		}
	}
	rec(t)
	return m
}

// smtText renders the obligation as an SMT-LIB script (unsat = proved).
func (r *Run) smtText(o *Obl, axs []axInfo) string {
	var asserts []*Term
	for _, f := range o.Facts {
		asserts = append(asserts, f)
	}
	if o.Guard != nil && o.Guard != TTrue {
		asserts = append(asserts, o.Guard)
	}
	if o.Goal != TFalse || o.Expect != "sat" {
		asserts = append(asserts, Not(o.Goal))
	}
	return renderSMT(r, asserts, axs)
}

func renderSMT(r *Run, asserts []*Term, axs []axInfo) string {
	// relevant axioms
	have := map[string]bool{}
	used := make([]bool, len(axs))
	addSyms := func(m map[string]bool) bool {
		ch := false
		for k := range m {
			if !have[k] {
				have[k] = true
				ch = true
			}
		}
		return ch
	}
	for _, a := range asserts {
		addSyms(symsOf(a))
	}
	for {
		ch := false
		for i, a := range axs {
			if used[i] {
				continue
			}
			hit := len(a.syms) == 0
			for k := range a.syms {
				if have[k] {
					hit = true
				}
			}
			if hit {
				used[i] = true
				addSyms(a.syms)
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	var all []*Term
	for i, a := range axs {
		if used[i] {
			all = append(all, a.t)
			r.usedContracts["axiom:"+a.name] = true
		}
	}
	all = append(all, asserts...)
	p := NewPrinter()
	for _, t := range all {
		p.scan(t)
	}
	// built-in theory of strings, boxes
	extra := r.builtinAxioms(p)
	for _, t := range extra {
		p.scan(t)
	}
	all = append(extra, all...)
	for i := 0; i < len(p.carr); i++ { // scanning may find nested ones
		t := p.carr[i]
		c := Const(p.carrName[t], t.sort)
		is, _ := arrayParts(t.sort)
		x := BV("i", is)
		ax := Forall([]*Term{x}, Eq(mk("select", t.args[0].sort, c, x), t.args[0]), []*Term{mk("select", t.args[0].sort, c, x)})
		p.scan(ax)
		all = append([]*Term{ax}, all...)
	}
	var sb strings.Builder
	sb.WriteString("(set-option :smt.auto-config false)\n(set-option :smt.mbqi false)\n")
	sb.WriteString("(declare-sort Ref 0)\n(declare-sort Str 0)\n(declare-sort Any 0)\n(declare-sort Float 0)\n")
	for _, d := range dtOrder {
		fmt.Fprintf(&sb, "(declare-datatypes ((%s 0)) (((%s", d.Name, d.Ctor)
		for i, f := range d.Fields {
			fmt.Fprintf(&sb, " (%s %s)", symName(d.Name+"."+f), d.Sorts[i])
		}
		sb.WriteString("))))\n")
	}
	for _, c := range p.order {
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", symName(c.op[2:]), c.sort)
	}
	var lits []string
	for l := range p.lits {
		lits = append(lits, l.op)
	}
	sort.Strings(lits)
	for _, l := range lits {
		fmt.Fprintf(&sb, "(declare-const %s Str)\n", symName(l))
	}
	if len(lits) > 1 {
		sb.WriteString("(assert (distinct")
		for _, l := range lits {
			sb.WriteString(" " + symName(l))
		}
		sb.WriteString("))\n")
	}
	var fs []string
	for f := range p.funs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		t := p.funs[f]
		fmt.Fprintf(&sb, "(declare-fun %s (", symName(f))
		for i, a := range t.args {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(a.sort)
		}
		fmt.Fprintf(&sb, ") %s)\n", t.sort)
	}
	var body strings.Builder
	for _, t := range all {
		s := p.str(t)
		if p.defs.Len() > 0 {
			body.WriteString(p.defs.String())
			p.defs.Reset()
		}
		body.WriteString("(assert " + s + ")\n")
	}
	sb.WriteString(body.String())
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

func (r *Run) builtinAxioms(p *Printer) []*Term {
	var out []*Term
	has := func(op string) bool { return p.funs[op] != nil }
	x, y, z := BV("x", "Str"), BV("y", "Str"), BV("z", "Str")
	var lits []*Term
	for l := range p.lits {
		lits = append(lits, l)
	}
	sort.Slice(lits, func(i, j int) bool { return lits[i].op < lits[j].op })
	if has("slt") {
		s := func(a, b *Term) *Term { return mk("slt", "Bool", a, b) }
		out = append(out, Forall([]*Term{x}, Not(s(x, x)), []*Term{s(x, x)}))
		out = append(out, Forall([]*Term{x, y, z}, Implies(And(s(x, y), s(y, z)), s(x, z)), []*Term{s(x, y), s(y, z)}))
		out = append(out, Forall([]*Term{x, y}, Or(s(x, y), s(y, x), Eq(x, y)), []*Term{s(x, y)}))
		for _, a := range lits {
			for _, b := range lits {
				if a != b && litVal[a.op] < litVal[b.op] {
					out = append(out, s(a, b))
				}
			}
		}
	}
	if has("slen") || has("scat") {
		l := func(a *Term) *Term { return App("slen", "Int", a) }
		out = append(out, Forall([]*Term{x}, And(Le(Int(0), l(x)), Implies(Eq(l(x), Int(0)), Eq(x, tEmptyStr))), []*Term{l(x)}))
		for _, a := range lits {
			out = append(out, Eq(l(a), Int(int64(len(litVal[a.op])))))
		}
		if has("scat") {
			c := mk("scat", "Str", x, y)
			out = append(out, Forall([]*Term{x, y}, Eq(l(c), Add(l(x), l(y))), []*Term{c}))
		}
	}
	if has("itoa") || has("atoiOk") || has("atoiVal") {
		n := BV("n", "Int")
		ok := func(a *Term) *Term { return App("atoiOk", "Bool", a) }
		av := func(a *Term) *Term { return App("atoiVal", "Int", a) }
		out = append(out, Forall([]*Term{n}, And(ok(itoa(n)), Eq(av(itoa(n)), n)), []*Term{itoa(n)}))
		for _, a := range lits {
			if v, good := atoiLit(litVal[a.op]); good {
				out = append(out, ok(a), Eq(av(a), Int(v)))
				if fmt.Sprint(v) == litVal[a.op] {
					out = append(out, Eq(itoa(Int(v)), a))
				}
			} else {
				out = append(out, Not(ok(a)))
			}
		}
		out = append(out, Not(ok(tEmptyStr)))
	}
	// boxes
	anyV := BV("a", "Any")
	tagOf := func(a *Term) *Term { return App("tag", "Int", a) }
	keys := map[string]*Term{}
	for op, t := range p.funs {
		if strings.HasPrefix(op, "box:") {
			keys[op[4:]] = t.args[0]
		}
		if strings.HasPrefix(op, "unbox:") {
			if keys[op[6:]] == nil {
				keys[op[6:]] = t
			}
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) > 0 || has("tag") || has("boxref") {
		out = append(out, Eq(tagOf(tNilAny), Int(0)))
	}
	for _, k := range ks {
		s := keys[k].sort
		v := BV("v", s)
		b := App("box:"+k, "Any", v)
		tg := Int(int64(r.e.tagIds[k]))
		if r.e.tagIds[k] == 0 {
			r.e.tagIds[k] = len(r.e.tagIds) + 1
			tg = Int(int64(r.e.tagIds[k]))
		}
		ub := func(a *Term) *Term { return App("unbox:"+k, s, a) }
		out = append(out, Forall([]*Term{v}, And(Eq(tagOf(b), tg), Eq(ub(b), v)), []*Term{b}))
		out = append(out, Forall([]*Term{anyV}, Implies(Eq(tagOf(anyV), tg), Eq(App("box:"+k, "Any", ub(anyV)), anyV)), []*Term{ub(anyV)}))
	}
	if has("boxref") {
		v := BV("v", "Ref")
		b := App("boxref", "Any", v)
		out = append(out, Forall([]*Term{v}, And(Eq(App("unboxref", "Ref", b), v), Eq(Eq(b, tNilAny), Eq(v, tNil))), []*Term{b}))
	}
	return out
}

// --- running solvers ---

type solverCfg struct {
	name string
	args func(file string, ms int) []string
}

var solvers = []solverCfg{
	{"z3-new", func(f string, ms int) []string {
		return []string{"z3-new", "smt.solve_eqs=false", fmt.Sprintf("-t:%d", ms), f}
	}},
	{"z3", func(f string, ms int) []string { return []string{"z3", fmt.Sprintf("-t:%d", ms), f} }},
	{"cvc5", func(f string, ms int) []string {
		return []string{"cvc5", "--quiet", fmt.Sprintf("--tlimit=%d", ms), f}
	}},
	{"z3-new", func(f string, ms int) []string {
		return []string{"z3-new", "smt.solve_eqs=false", "smt.qi.eager_threshold=3", fmt.Sprintf("-t:%d", ms), f}
	}},
	{"z3-new", func(f string, ms int) []string {
		return []string{"z3-new", "smt.solve_eqs=false", "smt.phase_selection=0", "smt.qi.eager_threshold=30", fmt.Sprintf("-t:%d", ms), f}
	}},
}

var scratch string

type memoRes struct {
	out  string
	name string
	ms   int64
}

var memo = map[string]memoRes{}
var memoMu sync.Mutex
var sem = make(chan struct{}, 8)
var solverMs = map[string]int64{}
var solverCount = map[string]int{}

func runSolver(ctx context.Context, s solverCfg, file string, ms int) (string, int64) {
	sem <- struct{}{}
	defer func() { <-sem }()
	if ctx.Err() != nil {
		return "cancelled", 0
	}
	a := s.args(file, ms)
	c2, cancel := context.WithTimeout(ctx, time.Duration(ms+3000)*time.Millisecond)
	defer cancel()
	t0 := time.Now()
	cmd := exec.CommandContext(c2, a[0], a[1:]...)
	b, _ := cmd.CombinedOutput()
	dt := time.Since(t0).Milliseconds()
	out := strings.TrimSpace(string(b))
	memoMu.Lock()
	solverMs[s.name] += dt
	solverCount[s.name]++
	memoMu.Unlock()
	for _, ln := range strings.Split(out, "\n") {
		ln = strings.TrimSpace(ln)
		if ln == "sat" || ln == "unsat" || ln == "unknown" {
			if strings.Contains(out, "(error") {
				return "error: " + out, dt
			}
			return ln, dt
		}
	}
	if strings.Contains(out, "error") {
		return "error: " + out, dt
	}
	return "timeout", dt
}

var fileN int

func writeQuery(txt string) string {
	memoMu.Lock()
	fileN++
	f := filepath.Join(scratch, fmt.Sprintf("q%d.smt2", fileN))
	memoMu.Unlock()
	os.WriteFile(f, []byte(txt), 0o644)
	return f
}

// decide returns status ("unsat", "sat", "unknown"...) with the deciding solver.
func decide(txt string, ms1, ms2 int, mid bool) (string, string, int64) {
	memoMu.Lock()
	if m, ok := memo[txt]; ok && (m.out == "unsat" || m.out == "sat") {
		memoMu.Unlock()
		return m.out, m.name, m.ms
	}
	memoMu.Unlock()
	file := writeQuery(txt)
	defer os.Remove(file)
	type res struct {
		out, name string
		dt        int64
	}
	race := func(ms int, runs ...func(ctx context.Context, ch chan res)) (res, []string) {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		ch := make(chan res, len(runs))
		for _, f := range runs {
			go f(ctx, ch)
		}
		var outs []string
		best := res{out: "unknown"}
		for range runs {
			rr := <-ch
			outs = append(outs, rr.name+":"+rr.out)
			if rr.out == "unsat" || rr.out == "sat" && rr.name != "z3" {
				return rr, outs
			}
			if strings.HasPrefix(rr.out, "error") {
				best.out = rr.out
			}
		}
		return best, outs
	}
	one := func(si int, name, file string, ms int) func(ctx context.Context, ch chan res) {
		return func(ctx context.Context, ch chan res) {
			o, d := runSolver(ctx, solvers[si], file, ms)
			ch <- res{o, name, d}
		}
	}
	rr, outs := race(ms1, one(0, "z3-new", file, ms1), one(1, "z3", file, ms1))
	if rr.out != "unsat" && mid {
		var o1 []string
		rr, o1 = race(ms1, one(3, "z3-new-eager", file, ms1), one(4, "z3-new-phase", file, ms1))
		outs = append(outs, o1...)
	}
	if rr.out != "unsat" && ms2 > 0 {
		// cvc5 does not know z3 options
		ctxt := strings.Replace(strings.Replace(txt, "(set-option :smt.auto-config false)\n", "(set-logic ALL)\n", 1), "(set-option :smt.mbqi false)\n", "", 1)
		cfile := writeQuery(ctxt)
		mfile := writeQuery(strings.Replace(txt, "(set-option :smt.mbqi false)\n", "", 1))
		defer os.Remove(cfile)
		defer os.Remove(mfile)
		var o2 []string
		rr, o2 = race(ms2, one(2, "cvc5", cfile, ms2), one(0, "z3-new-mbqi", mfile, ms2), one(1, "z3", file, ms2))
		outs = append(outs, o2...)
	}
	out, name, dt := rr.out, rr.name, rr.dt
	if out != "unsat" && out != "sat" {
		name = strings.Join(outs, " ")
		if ms2 > 0 {
			out = "unknown"
		}
	}
	memoMu.Lock()
	memo[txt] = memoRes{out, name, dt}
	memoMu.Unlock()
	return out, name, dt
}

func (r *Run) solveAll(obls []*Obl, ms1, ms2 int) {
	axs := r.specAxioms()
	var wg sync.WaitGroup
	texts := make([]string, len(obls))
	for i, o := range obls {
		if o.Status != "" {
			continue
		}
		o.Facts = r.facts[:o.NFacts]
		texts[i] = r.smtText(o, axs)
	}
	lim := make(chan struct{}, 8)
	for i, o := range obls {
		if o.Status != "" {
			continue
		}
		wg.Add(1)
		go func(i int, o *Obl) {
			defer wg.Done()
			lim <- struct{}{}
			defer func() { <-lim }()
			if o.Strings {
				txt, ok := o.strSMT()
				if !ok {
					o.Status, o.Model = "failed", "text outside the string fragment"
					return
				}
				f := writeQuery(txt)
				defer os.Remove(f)
				out, dt := runSolver(context.Background(), solverCfg{"cvc5", func(f string, ms int) []string {
					return []string{"cvc5", "--quiet", "--strings-exp", "--produce-models", fmt.Sprintf("--tlimit=%d", ms), f}
				}}, f, ms1+ms2)
				o.Ms, o.Solver = dt, "cvc5 (strings)"
				o.Status, o.Model = "failed", out
				if out == "unsat" {
					o.Status = "proved"
				}
				return
			}
			if o.Expect == "sat" {
				out, name, dt := decide(texts[i], 1500, 0, false)
				o.Ms = dt
				o.Solver = name
				if out == "unsat" {
					o.Status = "failed"
				} else if strings.HasPrefix(out, "error") {
					o.Status = "failed"
					o.Model = out
				} else {
					o.Status = "proved"
				}
				return
			}
			out, name, dt := decide(texts[i], ms1, ms2, ms2 > 0 || strings.Contains(o.Cand, "/pool"))
			o.Ms = dt
			o.Solver = name
			switch {
			case out == "unsat":
				o.Status = "proved"
			default:
				o.Status = "failed"
				o.Model = out
			}
			if dumpDir != "" && o.Status != "proved" {
				os.WriteFile(filepath.Join(dumpDir, sanitize(r.name+"__"+o.Name)+fmt.Sprintf("_%d.smt2", i)), []byte("; "+o.Name+" "+o.Pos+"\n"+texts[i]), 0o644)
			}
		}(i, o)
	}
	wg.Wait()
}

var dumpDir string
