package main

// Verification-condition generation state: facts, obligations, symbolic states.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Name    string
	Kind    string // safety pre post inv-init inv-keep frame lemma vacuity unsupported
	Tags    []string
	Pos     string
	NFacts  int
	Guard   *Term
	Goal    *Term
	Facts   []*Term // snapshot
	Cand    string  // invariant candidate key
	Expect  string  // "" = unsat expected, "sat" for vacuity
	Hard    bool
	Strings bool // decided in the theory of strings
	// result
	Status string // proved failed unknown
	Solver string
	Ms     int64
	Model  string
	Fn     string
}

type State struct {
	m     map[string]*Term
	guard *Term
}

func (s *State) clone() *State {
	n := &State{m: make(map[string]*Term, len(s.m)), guard: s.guard}
	for k, v := range s.m {
		n.m[k] = v
	}
	return n
}

type Run struct {
	reads         map[string]bool // memory read while a hidden definition is evaluated
	e             *Engine
	name          string
	tags          map[string]bool // obligations to discharge: untagged ones and those with one of these tags (nil = all)
	elsewhere     []string        // clauses other checks discharge
	facts         []*Term
	obls          []*Obl
	nf            int
	collect       []map[string]bool
	dry           int
	nosafe        int // an expression is evaluated where the program does not: nothing follows from that
	pure          int
	compSort      map[string]Sort
	compGo        map[string]types.Type // element Go type for closedness
	init          *State
	topC          *Contract
	topEnv        map[string]SVal
	oldState      *State
	stack         []*ssa.Function
	dropped       map[string]bool // dropped invariant candidates
	loopN         map[string]int
	prefix        string
	safety        bool
	fieldTypes    map[string]types.Type
	uses          []string
	curPos        token.Pos
	loopStates    []*loopCtx
	arrInfo       map[*Term]*arrTrack
	lemmaMode     bool
	usedContracts map[string]bool
	inlined       map[string]bool
}

type arrTrack struct{}

func NewRun(e *Engine, name string, tags map[string]bool) *Run {
	freshRef = map[*Term]int{}
	r := &Run{e: e, name: name, tags: tags, compSort: map[string]Sort{}, compGo: map[string]types.Type{}, dropped: map[string]bool{}, loopN: map[string]int{}, fieldTypes: map[string]types.Type{}, usedContracts: map[string]bool{}, inlined: map[string]bool{}}
	r.init = &State{m: map[string]*Term{}, guard: TTrue}
	return r
}

type unsupported struct{ msg string }

func (r *Run) unsup(format string, a ...any) {
	panic(unsupported{fmt.Sprintf(format, a...) + " at " + r.posStr(r.curPos)})
}

func (r *Run) posStr(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := r.e.prog.Fset.Position(p)
	f := ps.Filename
	if i := strings.Index(f, "/pkg/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (r *Run) fresh(name string, s Sort) *Term {
	r.nf++
	return Const(fmt.Sprintf("%s!%d", sanitize(name), r.nf), s)
}

func (r *Run) assume(st *State, f *Term) {
	if f == TTrue {
		return
	}
	r.facts = append(r.facts, Implies(st.guard, f))
}

func (r *Run) fact(f *Term) {
	if f != TTrue {
		r.facts = append(r.facts, f)
	}
}

func (r *Run) oblige(st *State, kind, name string, tags []string, goal *Term) *Obl {
	if r.dry > 0 || r.pure > 0 {
		return &Obl{}
	}
	if !r.mine(tags) {
		r.elsewhere = append(r.elsewhere, r.name+": "+name+" ["+strings.Join(tags, ",")+"]")
		return &Obl{}
	}
	o := &Obl{Name: name, Kind: kind, Tags: tags, Pos: r.posStr(r.curPos), NFacts: len(r.facts), Guard: st.guard, Goal: goal, Fn: r.name}
	o.Strings = mentions(goal, "startsWith")
	if goal == TTrue || st.guard == TFalse {
		o.Status = "proved"
		o.Solver = "syntactic"
	}
	r.obls = append(r.obls, o)
	return o
}

// safe: obligation that execution cannot panic here; assumed afterwards.
func (r *Run) safe(st *State, what string, goal *Term) {
	if goal == TTrue || r.nosafe > 0 {
		return
	}
	if r.safety {
		r.oblige(st, "safety", r.prefix+what, nil, goal)
	}
	r.assume(st, goal)
}

func (r *Run) noteComp(name string, s Sort, gt types.Type) {
	if _, ok := r.compSort[name]; !ok {
		r.compSort[name] = s
		r.compGo[name] = gt
	}
}

// get current version of comp
func (r *Run) get(st *State, name string) *Term {
	if r.reads != nil {
		r.reads[name] = true
	}
	if t, ok := st.m[name]; ok {
		return t
	}
	if t, ok := r.init.m[name]; ok {
		return t
	}
	s, ok := r.compSort[name]
	if !ok {
		panic("unknown comp " + name)
	}
	t := Const(name+"@0", s)
	r.init.m[name] = t
	r.fact(r.closed(name, t, r.now0()))
	return t
}

func (r *Run) now0() *Term { return Const("now@0", "Int") }

func (r *Run) now(st *State) *Term {
	if t, ok := st.m["now"]; ok {
		return t
	}
	return r.now0()
}

func (r *Run) set(st *State, name string, t *Term) {
	if r.pure > 0 {
		r.unsup("write to %s in pure context", name)
	}
	st.m[name] = t
	for _, c := range r.collect {
		c[name] = true
	}
}

func birth(x *Term) *Term { return App("birth", "Int", x) }

// closedVal: value invariants: references are allocated before now; slice headers are well-formed.
func (r *Run) closedVal(v *Term, gt types.Type, now *Term) *Term {
	switch v.sort {
	case "Ref":
		return Lt(birth(v), now)
	case "Slice":
		return And(Lt(birth(slArr(v)), now), Le(Int(0), slLen(v)), Le(slLen(v), slCap(v)), Implies(Eq(slArr(v), tNil), Eq(slCap(v), Int(0))))
	case "Int", "Str", "Bool", "Any", "Float":
		if gt != nil && v.sort == "Int" {
			if b, ok := gt.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
				return Le(Int(0), v)
			}
		}
		return TTrue
	}
	if d := dts[v.sort]; d != nil {
		var cs []*Term
		for i := range d.Fields {
			var ft types.Type
			if st := structTypes[d.Name]; st != nil && i < st.NumFields() {
				ft = st.Field(i).Type()
			}
			cs = append(cs, r.closedVal(dtField(d, v, i), ft, now))
		}
		return And(cs...)
	}
	return TTrue
}

func (r *Run) closed(name string, t *Term, now *Term) *Term {
	gt := r.compGo[name]
	switch {
	case strings.HasPrefix(name, "F:"), strings.HasPrefix(name, "P:"):
		x := BV("r", "Ref")
		v := Select(t, x)
		return Forall([]*Term{x}, r.closedVal(v, gt, now), []*Term{v})
	case strings.HasPrefix(name, "E:"):
		x := BV("r", "Ref")
		i := BV("i", "Int")
		v := Select(Select(t, x), i)
		return Forall([]*Term{x, i}, r.closedVal(v, gt, now), []*Term{v})
	case strings.HasPrefix(name, "MV:"):
		x := BV("r", "Ref")
		_, inner := arrayParts(t.sort)
		ks, _ := arrayParts(inner)
		k := BV("k", ks)
		v := Select(Select(t, x), k)
		return Forall([]*Term{x, k}, r.closedVal(v, gt, now), []*Term{v})
	case strings.HasPrefix(name, "S:"), strings.HasPrefix(name, "MD:"):
		x := BV("r", "Ref")
		_, inner := arrayParts(t.sort)
		ks, _ := arrayParts(inner)
		k := BV("k", ks)
		nildom := TTrue
		if strings.HasPrefix(name, "MD:") { // a nil map has no keys
			nv := Select(Select(t, tNil), k)
			nildom = Forall([]*Term{k}, Not(nv), []*Term{nv})
		}
		if ks != "Ref" {
			return nildom
		}
		v := Select(Select(t, x), k)
		return And(nildom, Forall([]*Term{x, k}, Implies(v, r.closedVal(k, nil, now)), []*Term{v}))
	case strings.HasPrefix(name, "G:"):
		return r.closedVal(t, gt, now)
	}
	return TTrue
}

func (r *Run) havoc(st *State, name string) {
	s := r.compSort[name]
	if name == "now" {
		n := r.fresh("now", "Int")
		r.assume(st, Le(r.now(st), n))
		r.set(st, "now", n)
		return
	}
	t := r.fresh(name, s)
	r.set(st, name, t)
}

// join merges states; guards are disjunctive.
func (r *Run) join(sts []*State, label string) *State {
	if len(sts) == 1 {
		return sts[0].clone()
	}
	var gs []*Term
	for _, s := range sts {
		gs = append(gs, s.guard)
	}
	g := Or(gs...)
	out := &State{m: map[string]*Term{}}
	if r.pure == 0 && g != TTrue && g != TFalse && len(g.args) > 0 {
		gc := r.fresh("g_"+label, "Bool")
		r.fact(Eq(gc, g))
		// exclusivity is implied by construction
		g = gc
	}
	out.guard = g
	keys := map[string]bool{}
	for _, s := range sts {
		for k := range s.m {
			keys[k] = true
		}
	}
	for _, k := range sortedKeys(keys) {
		var vs []*Term
		same := true
		for _, s := range sts {
			var v *Term
			if k == "now" {
				v = r.now(s)
			} else if strings.HasPrefix(k, "L:") || strings.HasPrefix(k, "I:") {
				v = s.m[k]
				if v == nil { // cell not live on this path
					continue
				}
			} else {
				v = r.get(s, k)
			}
			vs = append(vs, v)
			if v != vs[0] {
				same = false
			}
		}
		if same {
			out.m[k] = vs[0]
			continue
		}
		if len(vs) != len(sts) { // partially live local: drop by using merged over live ones
			vs = nil
			var live []*State
			for _, s := range sts {
				if s.m[k] != nil {
					live = append(live, s)
				}
			}
			out.m[k] = r.mergeVals(live, func(s *State) *Term { return s.m[k] }, k)
			continue
		}
		out.m[k] = r.mergeVals(sts, func(s *State) *Term {
			if k == "now" {
				return r.now(s)
			}
			if t, ok := s.m[k]; ok {
				return t
			}
			return r.get(s, k)
		}, k)
	}
	return out
}

func (r *Run) mergeVals(sts []*State, f func(*State) *Term, name string) *Term {
	first := f(sts[0])
	same := true
	for _, s := range sts {
		if f(s) != first {
			same = false
		}
	}
	if same {
		return first
	}
	if r.pure > 0 || first.sort == "Bool" || first.sort == "Int" && false {
		t := f(sts[len(sts)-1])
		for i := len(sts) - 2; i >= 0; i-- {
			t = Ite(sts[i].guard, f(sts[i]), t)
		}
		if r.pure > 0 {
			return t
		}
		if len(t.args) == 0 {
			return t
		}
		c := r.fresh(name, first.sort)
		for _, s := range sts {
			r.fact(Implies(s.guard, Eq(c, f(s))))
		}
		return c
	}
	if first.sort == "Str" {
		// texts stay visible: concatenation distributes over the choice
		n := 0
		for _, s := range sts {
			n += strLeaves(f(s))
		}
		if n <= 8 {
			t := f(sts[len(sts)-1])
			for i := len(sts) - 2; i >= 0; i-- {
				t = Ite(sts[i].guard, f(sts[i]), t)
			}
			return t
		}
	}
	c := r.fresh(name, first.sort)
	for _, s := range sts {
		r.fact(Implies(s.guard, Eq(c, f(s))))
	}
	return c
}

// strLeaves: between how many texts a text chooses.
func strLeaves(t *Term) int {
	if t.op == "ite" {
		return strLeaves(t.args[1]) + strLeaves(t.args[2])
	}
	return 1
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}

// alloc returns a fresh reference; the comps given are asserted zero at it.
func (r *Run) alloc(st *State, hint string) *Term {
	if r.pure > 0 {
		r.unsup("allocation in pure context")
	}
	ref := r.fresh("new_"+hint, "Ref")
	freshRef[ref] = r.nf
	now := r.now(st)
	r.fact(Ne(ref, tNil))
	r.assume(st, Eq(birth(ref), now))
	r.set(st, "now", Add(now, Int(1)))
	return ref
}

func (r *Run) assumeZero(st *State, comp string, ref *Term) {
	t := r.get(st, comp)
	_, vs := arrayParts(t.sort)
	r.assume(st, Eq(Select(t, ref), r.e.zero(vs)))
}

// mentions: op occurs in t.
func mentions(t *Term, op string) bool {
	if t == nil {
		return false
	}
	if t.op == op {
		return true
	}
	for _, a := range t.args {
		if mentions(a, op) {
			return true
		}
	}
	return t.bound != nil && false
}
