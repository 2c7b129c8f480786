package main

// Applying contracts at call sites, verifying bodies against contracts, loop invariants.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// every clause is part of its contract, whatever property it is tagged with
func (r *Run) active(tags []string) bool { return true }

func (r *Run) mine(tags []string) bool {
	if r.tags == nil || len(tags) == 0 {
		return true
	}
	for _, t := range tags {
		if r.tags[t] {
			return true
		}
	}
	return false
}

func (e *Engine) sigOf(c *Contract) (params []types.Type, results []types.Type, fn *ssa.Function) {
	if c.Abstract {
		i := strings.LastIndex(c.Name, ".")
		it := e.goTypeByName(c.Pkg, c.Name[:i])
		iface := it.Underlying().(*types.Interface)
		for j := 0; j < iface.NumMethods(); j++ {
			if iface.Method(j).Name() == c.Name[i+1:] {
				sig := iface.Method(j).Type().(*types.Signature)
				params = append(params, it)
				for k := 0; k < sig.Params().Len(); k++ {
					params = append(params, sig.Params().At(k).Type())
				}
				for k := 0; k < sig.Results().Len(); k++ {
					results = append(results, sig.Results().At(k).Type())
				}
				return
			}
		}
		specFail("no method %s", c.Name)
	}
	fn = e.funcs[c.Name]
	if fn == nil && c.Trusted {
		fn = e.libFunc(c.Name)
	}
	if fn == nil {
		specFail("no function %s in the repository", c.Name)
	}
	if len(fn.Params) == 0 && fn.Signature.Recv() == nil {
		for k := 0; k < fn.Signature.Params().Len(); k++ {
			params = append(params, fn.Signature.Params().At(k).Type())
		}
	} else {
		for _, p := range fn.Params {
			params = append(params, p.Type())
		}
	}
	rs := fn.Signature.Results()
	for k := 0; k < rs.Len(); k++ {
		results = append(results, rs.At(k).Type())
	}
	return
}

// libFunc: a function of a library package, for which only a trusted contract can be given.
func (e *Engine) libFunc(name string) *ssa.Function {
	i := strings.Index(name, ".")
	if i < 0 {
		return nil
	}
	tp := e.tpkgs[name[:i]]
	if tp == nil {
		return nil
	}
	if o, ok := tp.Scope().Lookup(name[i+1:]).(*types.Func); ok {
		return e.prog.FuncValue(o)
	}
	return nil
}

func (r *Run) bindEnv(c *Contract, args []*Term, ptypes []types.Type) map[string]SVal {
	vars := map[string]SVal{}
	for i, n := range c.Params {
		if i < len(args) {
			vars[n] = SVal{args[i], r.e.stypeOf(ptypes[i])}
		}
	}
	return vars
}

func (r *Run) bindResults(c *Contract, vars map[string]SVal, res []*Term, rtypes []types.Type) {
	for i, n := range c.Results {
		if i < len(res) && n != "_" {
			vars[n] = SVal{res[i], r.e.stypeOf(rtypes[i])}
		}
	}
	if len(c.Results) == 0 && len(res) == 1 {
		vars["result"] = SVal{res[0], r.e.stypeOf(rtypes[0])}
	}
}

func (e *Env) lets(c *Contract) {
	for _, l := range c.Lets {
		e.vars[l.Name] = e.eval(l.E)
	}
}

// modComps lists the components a call of c may change (explicit + inferred).
func (r *Run) modComps(c *Contract) map[string]*ModItem {
	out := map[string]*ModItem{}
	for k := range r.e.modset[c.Name] {
		out[k] = nil
	}
	for i := range c.Mods {
		m := &c.Mods[i]
		if strings.HasPrefix(m.Comp, "auto:") {
			for k := range r.e.autoMods(m.Comp[5:]) {
				if k != "now" {
					out[k] = &ModItem{Comp: k, Any: true}
				}
			}
			continue
		}
		name := m.Comp
		if t := r.e.spec.Ghosts[m.Comp]; t != nil {
			name = "G:ghost." + m.Comp
			r.noteComp(name, r.e.stype(c.Pkg, t).sort, nil)
			out[name] = &ModItem{Comp: name, Any: true}
			continue
		}
		if !strings.Contains(name, "G:") {
			name, _ = r.compByName(m.Comp)
		}
		out[name] = m
	}
	return out
}

// autoMods: union of the inferred modification sets of all implementations of an interface method.
func (e *Engine) autoMods(spec string) map[string]bool {
	out := map[string]bool{}
	i := strings.LastIndex(spec, ".")
	it := e.goTypeByName("world", spec[:i])
	n := it.(*types.Named)
	for _, im := range e.impls[n] {
		sel := e.prog.MethodSets.MethodSet(im).Lookup(n.Obj().Pkg(), spec[i+1:])
		fn := e.prog.MethodValue(sel)
		for k := range e.inferMods(fn) {
			out[k] = true
		}
		if m := e.inferBroken[shortFn(fn)]; m != "" {
			specFail("what %s modifies is unknown: %s", shortFn(fn), m)
		}
	}
	return out
}

func (r *Run) applyContract(c *Contract, args []Val, st *State) ([]Val, *State) {
	if r.pure > 0 && !c.Pure && c.Injective == "" {
		r.unsup("call of %s in a pure context", c.Name)
	}
	r.usedContracts[c.Name] = true
	ptypes, rtypes, _ := r.e.sigOf(c)
	var ats []*Term
	for i, a := range args {
		ats = append(ats, r.term(a, ptypes[i], st))
	}
	env := &Env{r: r, vars: r.bindEnv(c, ats, ptypes), st: st, old: st, pkg: c.Pkg}
	var logical []*Term
	for _, v := range c.Vars { // the postconditions hold for every value of a logical variable
		ty := r.e.stype(c.Pkg, v.Type)
		t := BV(v.Name, ty.sort)
		logical = append(logical, t)
		env.vars[v.Name] = SVal{t, ty}
	}
	env.lets(c)
	var trig []*Term
	for _, x := range c.Trigger {
		trig = append(trig, env.eval(x).t)
	}
	for _, q := range c.Requires {
		if !r.active(q.Tags) {
			continue
		}
		g := env.bool(q.E)
		r.oblige(st, "pre", r.prefix+"precondition of "+c.Name+": "+q.Name, q.Tags, g)
		r.assume(st, g)
	}
	old := st.clone()
	ns := st.clone()
	mods := r.modComps(c)
	names := map[string]bool{}
	for k := range mods {
		names[k] = true
	}
	for k := range mods {
		if k != "now" && !strings.HasPrefix(k, "L:") {
			r.ensureComp(k)
		}
	}
	nowOld := r.now(st)
	if (len(mods) > 0 || c.Trusted || c.Abstract) && r.pure == 0 {
		n := r.fresh("now", "Int")
		r.assume(st, Le(nowOld, n))
		r.set(ns, "now", n)
	}
	for _, k := range sortedKeys(names) {
		if k == "now" {
			continue
		}
		m := mods[k]
		was := r.get(old, k)
		t := r.fresh(k, r.compSort[k])
		r.set(ns, k, t)
		r.assume(st, r.closed(k, t, r.now(ns)))
		if m != nil && m.Any {
			continue
		}
		r.assume(st, r.frameFact(k, was, t, m, env, nowOld))
	}
	env2 := &Env{r: r, vars: env.vars, st: ns, old: old, pkg: c.Pkg}
	var res []Val
	var rts []*Term
	for i, rt := range rtypes {
		t := r.fresh("res"+fmt.Sprint(i), r.e.sortOf(rt))
		if c.Injective != "" {
			t = App("f:"+c.Injective, r.e.sortOf(rt), ats...)
		} else if c.Pure && !c.Abstract {
			t = App(fmt.Sprintf("pure:%s.%d", c.Name, i), r.e.sortOf(rt), ats...)
		}
		r.assume(st, r.closedVal(t, rt, r.now(ns)))
		res = append(res, t)
		rts = append(rts, t)
	}
	r.bindResults(c, env2.vars, rts, rtypes)
	for _, q := range c.Ensures {
		if !r.active(q.Tags) {
			continue
		}
		g := env2.bool(q.E)
		if len(logical) > 0 && len(g.fbv) > 0 {
			g = Forall(logical, g, trig)
		}
		r.assume(st, g)
	}
	return res, ns
}

// ensureComp registers the sort of an inferred component known from another run.
func (r *Run) ensureComp(k string) {
	if _, ok := r.compSort[k]; ok {
		return
	}
	if s, ok := r.e.compReg[k]; ok {
		r.compSort[k] = s.sort
		r.compGo[k] = s.gt
		return
	}
	r.unsup("unknown component %s", k)
}

// frameFact: pre-existing objects keep their value in component k except at the listed references.
func (r *Run) frameFact(k string, was, is *Term, m *ModItem, env *Env, nowOld *Term) *Term {
	if was == is {
		return TTrue
	}
	if strings.HasPrefix(k, "G:") {
		if m != nil && m.Any {
			return TTrue
		}
		return Eq(was, is)
	}
	x := BV("r", "Ref")
	cond := Lt(birth(x), nowOld)
	if m != nil {
		for _, a := range m.At {
			oe := *env
			oe.st = env.old
			cond = And(cond, Ne(x, oe.coerceNil(oe.eval(a), "Ref")))
		}
	}
	return Forall([]*Term{x}, Implies(cond, Eq(Select(is, x), Select(was, x))), []*Term{Select(is, x)}, []*Term{Select(was, x)})
}

// --- verification of one function ---

func (r *Run) verifyFunc(c *Contract) (err string) {
	defer func() {
		if x := recover(); x != nil {
			switch x := x.(type) {
			case unsupported:
				err = x.msg
			case specErr:
				err = "contract error: " + x.msg
			default:
				panic(x)
			}
			r.obls = append(r.obls, &Obl{Name: "within the verifier's reach: " + err, Kind: "unsupported", Fn: r.name, Status: "failed", Goal: TFalse, Guard: TTrue})
		}
	}()
	ptypes, rtypes, fn := r.e.sigOf(c)
	r.topC = c
	st := &State{m: map[string]*Term{}, guard: TTrue}
	r.fact(Le(Int(0), r.now0()))
	r.fact(Eq(birth(tNil), Int(-1)))
	var ats []*Term
	var args []Val
	for i, pt := range ptypes {
		n := fmt.Sprintf("arg%d", i)
		if i < len(c.Params) {
			n = c.Params[i]
		}
		t := Const(n+"@in", r.e.sortOf(pt))
		ats = append(ats, t)
		args = append(args, t)
		r.fact(r.closedVal(t, pt, r.now0()))
	}
	env := &Env{r: r, vars: r.bindEnv(c, ats, ptypes), st: st, old: st, pkg: c.Pkg}
	for _, v := range c.Vars {
		ty := r.e.stype(c.Pkg, v.Type)
		env.vars[v.Name] = SVal{Const(v.Name+"@in", ty.sort), ty}
	}
	env.lets(c)
	for _, q := range c.Requires {
		if r.active(q.Tags) {
			r.fact(env.bool(q.E))
		}
	}
	for _, u := range c.Uses {
		if u.Name == "pre" && r.active(u.Tags) {
			ue := *env
			ue.inUse = true
			r.fact(ue.bool(u.E))
		}
	}
	r.topEnv = env.vars
	r.oldState = st
	res, out := r.evalFunc(fn, args, nil, st)
	if out == nil {
		r.oblige(st, "vacuity", "the function returns", nil, TFalse)
		return ""
	}
	r.curPos = fn.Pos()
	vo := &Obl{Name: "precondition is satisfiable and the end is reachable", Kind: "vacuity", Fn: r.name, NFacts: len(r.facts), Guard: out.guard, Goal: TFalse, Expect: "sat"}
	r.obls = append(r.obls, vo)
	var rts []*Term
	for i, v := range res {
		rts = append(rts, r.term(v, rtypes[i], out))
	}
	env2 := &Env{r: r, vars: env.vars, st: out, old: st, pkg: c.Pkg}
	if c.Injective != "" {
		r.checkInjective(c, fn, ats, ptypes, rts, out)
		return ""
	}
	r.bindResults(c, env2.vars, rts, rtypes)
	r.checkPosts(c, env2, out)
	// frames
	mods := r.modComps(c)
	for _, k := range sortedKeysT(out.m) {
		if k == "now" || strings.HasPrefix(k, "L:") || strings.HasPrefix(k, "I:") {
			continue
		}
		m := mods[k]
		if m != nil && m.Any {
			continue
		}
		was := r.get(st, k)
		r.oblige(out, "frame", "frame: only declared changes to "+k, nil, r.frameFact(k, was, out.m[k], m, env2, r.now0()))
	}
	return ""
}

func sortedKeysT(m map[string]*Term) []string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	return sortedKeys(b)
}

func (r *Run) checkPosts(c *Contract, env2 *Env, out *State) {
	for _, u := range c.Uses {
		if u.Name == "pre" || !r.active(u.Tags) {
			continue
		}
		ue := *env2
		ue.inUse = true
		if u.Kind == "use" {
			r.assume(out, ue.bool(u.E))
		} else {
			g := ue.bool(u.E)
			r.oblige(out, "assert", "assert "+u.Name, u.Tags, g)
			r.assume(out, g)
		}
	}
	for _, q := range c.Ensures {
		if !r.active(q.Tags) || q.Kind == "defines" {
			continue // "defines" says what a call records in ghost state
		}
		r.oblige(out, "post", "postcondition "+q.Name, q.Tags, env2.bool(q.E))
	}
}

// --- scenarios (lemmas over contracts) ---

func (r *Run) verifyScenario(c *Contract) (err string) {
	defer func() {
		if x := recover(); x != nil {
			switch x := x.(type) {
			case unsupported:
				err = x.msg
			case specErr:
				err = "contract error: " + x.msg
			default:
				panic(x)
			}
			r.obls = append(r.obls, &Obl{Name: "within the verifier's reach: " + err, Kind: "unsupported", Fn: r.name, Status: "failed", Goal: TFalse, Guard: TTrue})
		}
	}()
	r.topC = c
	r.lemmaMode = true
	st := &State{m: map[string]*Term{}, guard: TTrue}
	r.fact(Le(Int(0), r.now0()))
	r.fact(Eq(birth(tNil), Int(-1)))
	env := &Env{r: r, vars: map[string]SVal{}, st: st, old: st, pkg: c.Pkg, labels: map[string]*State{}, inUse: false}
	for _, v := range c.Vars {
		ty := r.e.stype(c.Pkg, v.Type)
		t := Const(v.Name+"@in", ty.sort)
		env.vars[v.Name] = SVal{t, ty}
		r.fact(r.closedVal(t, ty.gt, r.now0()))
	}
	env.lets(c)
	for _, q := range c.Requires {
		if r.active(q.Tags) {
			r.fact(env.bool(q.E))
		}
	}
	r.topEnv = env.vars
	r.oldState = st
	env.labels["S0"] = st.clone()
	for _, s := range c.Steps {
		switch s.Kind {
		case "label":
			env.labels[s.Call] = env.st.clone()
		case "exec":
			var args []Val
			fn := r.e.funcs[s.Call]
			if fn == nil {
				specFail("no function %s", s.Call)
			}
			for i, a := range s.Args {
				v := env.eval(a)
				args = append(args, env.coerceNil(v, r.e.sortOf(fn.Params[i].Type())))
			}
			cur := env.st
			res, out := r.callFn(fn, args, nil, cur)
			if out == nil {
				r.oblige(cur, "vacuity", "call of "+s.Call+" returns", nil, TFalse)
				return ""
			}
			env.st = out
			for i, n := range s.Lhs {
				if n == "_" {
					continue
				}
				rt := fn.Signature.Results().At(i).Type()
				env.vars[n] = SVal{r.term(res[i], rt, out), r.e.stypeOf(rt)}
			}
		case "use":
			if r.active(s.C.Tags) {
				env.inUse = true
				r.assume(env.st, env.bool(s.C.E))
				env.inUse = false
			}
		case "assert", "ensures":
			if r.active(s.C.Tags) {
				g := env.bool(s.C.E)
				r.oblige(env.st, "lemma", s.Kind+" "+s.C.Name, s.C.Tags, g)
				r.assume(env.st, g)
			}
		}
	}
	vo := &Obl{Name: "scenario hypotheses satisfiable and the end is reachable", Kind: "vacuity", Fn: r.name, NFacts: len(r.facts), Guard: env.st.guard, Goal: TFalse, Expect: "sat"}
	r.obls = append(r.obls, vo)
	return ""
}

// --- loop invariant candidates ---

type loopBind struct {
	idxPhi  *ssa.Phi
	idxPlus int64
	seq     Val
	seqT    types.Type
	iter    *MapIter
}

func (f *frame) loopBinders(ctx *loopCtx) *loopBind {
	lb := &loopBind{}
	for _, p := range ctx.phis {
		if f.r.e.sortOf(p.Type()) != "Int" {
			continue
		}
		for b := range ctx.info.back {
			e := p.Edges[predIndex(ctx.info.header, b)]
			if bo, ok := e.(*ssa.BinOp); ok && bo.Op.String() == "+" && bo.X == p {
				if k, ok := bo.Y.(*ssa.Const); ok && k.Int64() == 1 {
					// initial value?
					for i, pr := range ctx.info.header.Preds {
						if !ctx.info.back[pr] {
							if k0, ok := p.Edges[i].(*ssa.Const); ok && k0.Value != nil {
								lb.idxPhi = p
								lb.idxPlus = 0
								if k0.Int64() == -1 {
									lb.idxPlus = 1
								}
								// the slice indexed by it
								f.findSeq(ctx, lb, p, bo)
							}
						}
					}
				}
			}
		}
	}
	for b := range ctx.info.body {
		for _, ins := range b.Instrs {
			if n, ok := ins.(*ssa.Next); ok {
				if it, ok := f.vals[n.Iter].(*MapIter); ok && !it.str && lb.iter == nil && b == ctx.info.header {
					lb.iter = it
				}
			}
		}
	}
	return lb
}

func (f *frame) findSeq(ctx *loopCtx, lb *loopBind, p *ssa.Phi, inc *ssa.BinOp) {
	if lb.seq != nil {
		return
	}
	want := ssa.Value(p)
	if lb.idxPlus == 1 {
		want = inc
	}
	for _, b := range f.order {
		if !ctx.info.body[b] {
			continue
		}
		for _, ins := range b.Instrs {
			if ia, ok := ins.(*ssa.IndexAddr); ok && ia.Index == want {
				if _, isSl := ia.X.Type().Underlying().(*types.Slice); isSl {
					if v, ok := f.atEntry(ctx, ia.X); ok {
						lb.seq = v
						lb.seqT = ia.X.Type()
						return
					}
				}
			}
		}
	}
}

// atEntry is the value an expression of the loop body has when the loop is entered (fields read again in every
// iteration, for example); not every expression has one.
func (f *frame) atEntry(ctx *loopCtx, v ssa.Value) (Val, bool) {
	r := f.r
	ins, isIns := v.(ssa.Instruction)
	if !isIns {
		if _, isParam := v.(*ssa.Parameter); isParam {
			x, ok := f.vals[v]
			return x, ok
		}
		if _, isFree := v.(*ssa.FreeVar); isFree {
			x, ok := f.vals[v]
			return x, ok
		}
		return nil, false
	}
	if !ctx.info.body[ins.Block()] {
		x, ok := f.vals[v]
		return x, ok
	}
	var x ssa.Value
	switch i := v.(type) {
	case *ssa.UnOp:
		if i.Op != token.MUL {
			return nil, false
		}
		x = i.X
	case *ssa.FieldAddr:
		x = i.X
	case *ssa.Field:
		x = i.X
	case *ssa.ChangeType:
		x = i.X
	default:
		return nil, false
	}
	xv, ok := f.atEntry(ctx, x)
	if !ok {
		return nil, false
	}
	wasX, hadX := f.vals[x]
	wasV, hadV := f.vals[v]
	f.vals[x] = xv
	r.dry++
	r.nosafe++
	f.instr(ins, ctx.entry.clone())
	r.nosafe--
	r.dry--
	res := f.vals[v]
	if hadX {
		f.vals[x] = wasX
	} else {
		delete(f.vals, x)
	}
	if hadV {
		f.vals[v] = wasV
	} else {
		delete(f.vals, v)
	}
	return res, true
}

func (r *Run) invCands(f *frame, ctx *loopCtx, entryVals map[*ssa.Phi]Val, writes map[string]bool) []*cand {
	var out []*cand
	lb := f.loopBinders(ctx)
	ord := ctx.ord
	add := func(key, desc string, tags []string, ev func(st *State, phi func(*ssa.Phi) Val) *Term) {
		out = append(out, &cand{key: ord + "/" + key, desc: ord + " " + desc, tags: tags, eval: ev})
	}
	var idxOf func(phi func(*ssa.Phi) Val) *Term
	if lb.idxPhi != nil {
		idxOf = func(phi func(*ssa.Phi) Val) *Term { return Add(phi(lb.idxPhi).(*Term), Int(lb.idxPlus)) }
		add("idx0", "index non-negative", nil, func(st *State, phi func(*ssa.Phi) Val) *Term { return Le(Int(0), idxOf(phi)) })
		// any int value defined outside the loop that bounds the index
		bounds := map[*Term]bool{}
		if s, ok := lb.seq.(*Term); ok {
			bounds[slLen(s)] = true
		}
		for b := range ctx.info.body {
			for _, ins := range b.Instrs {
				if bo, ok := ins.(*ssa.BinOp); ok && bo.Op.String() == "<" {
					if v, ok := f.vals[bo.Y]; ok {
						if t, ok := v.(*Term); ok && t.sort == "Int" && !ctx.info.body[blockOf(bo.Y)] {
							bounds[t] = true
						}
					}
					if k, ok := bo.Y.(*ssa.Const); ok && k.Value != nil {
						bounds[r.constVal(k)] = true
					}
				}
			}
		}
		n := 0
		for _, b := range sortedTerms(bounds) {
			b := b
			n++
			add(fmt.Sprintf("idxle%d", n), "index bounded", nil, func(st *State, phi func(*ssa.Phi) Val) *Term { return Le(idxOf(phi), b) })
		}
	}
	// frames of written heap components
	nowE, now0 := r.now(ctx.entry), r.now0()
	var stored []*Term
	for b := range ctx.info.body {
		for _, ins := range b.Instrs {
			if s, ok := ins.(*ssa.Store); ok {
				if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
					if v, ok := f.vals[ia.X]; ok && !ctx.info.body[blockOf(ia.X)] {
						if t, ok := v.(*Term); ok && t.sort == "Slice" {
							stored = append(stored, slArr(t))
						}
					}
				}
			}
		}
	}
	for _, k := range sortedKeys(writes) {
		k := k
		if k == "now" || strings.HasPrefix(k, "L:") || strings.HasPrefix(k, "I:") || strings.HasPrefix(k, "G:") {
			continue
		}
		entryT := r.get(ctx.entry, k)
		initT := r.get(r.oldStateOr(), k)
		fr := func(ref *Term, bound *Term, except []*Term) func(st *State, phi func(*ssa.Phi) Val) *Term {
			return func(st *State, phi func(*ssa.Phi) Val) *Term {
				cur := r.get(st, k)
				if cur == ref {
					return TTrue
				}
				x := BV("r", "Ref")
				g := Lt(birth(x), bound)
				for _, ex := range except {
					g = And(g, Ne(x, ex))
				}
				return Forall([]*Term{x}, Implies(g, Eq(Select(cur, x), Select(ref, x))), []*Term{Select(cur, x)}, []*Term{Select(ref, x)})
			}
		}
		add("frE:"+k, "objects older than the loop unchanged in "+k, nil, fr(entryT, nowE, nil))
		add("fr0:"+k, "objects older than the call unchanged in "+k, nil, fr(initT, now0, nil))
		if r.topC != nil && r.oldState != nil {
			if m := r.modComps(r.topC)[k]; m != nil && !m.Any && len(m.At) > 0 {
				add("frD:"+k, "only the declared objects changed in "+k, nil, func(st *State, phi func(*ssa.Phi) Val) *Term {
					env := &Env{r: r, vars: r.topEnv, st: st, old: r.oldState, pkg: r.topC.Pkg}
					return r.frameFact(k, initT, r.get(st, k), m, env, now0)
				})
			}
		}
		if len(stored) > 0 && strings.HasPrefix(k, "E:") {
			add("frS:"+k, "other objects older than the loop unchanged in "+k, nil, fr(entryT, nowE, stored))
		}
		if strings.HasPrefix(k, "MD:") || strings.HasPrefix(k, "MV:") {
			var ms []*Term
			for b := range ctx.info.body {
				for _, ins := range b.Instrs {
					var mv ssa.Value
					if mu, ok := ins.(*ssa.MapUpdate); ok {
						mv = mu.Map
					}
					if cl, ok := ins.(*ssa.Call); ok {
						if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
							mv = cl.Call.Args[0]
						}
					}
					if mv == nil {
						continue
					}
					if v, ok := f.vals[mv]; ok && !ctx.info.body[blockOf(mv)] {
						if t, ok := v.(*Term); ok {
							ms = append(ms, t)
						}
					} else if u, ok := mv.(*ssa.UnOp); ok { // reloaded field: take its value at loop entry
						if fa, ok := u.X.(*ssa.FieldAddr); ok {
							if bv, ok := f.vals[fa.X]; ok && !ctx.info.body[blockOf(fa.X)] {
								if bt, ok := bv.(*Term); ok {
									pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
									c, s := r.e.compField(pt, fa.Field)
									r.noteComp(c, s, pt.Underlying().(*types.Struct).Field(fa.Field).Type())
									ms = append(ms, Select(r.get(ctx.entry, c), bt))
								}
							}
						}
					}
				}
			}
			if len(ms) > 0 {
				add("frM:"+k, "other maps unchanged in "+k, nil, fr(entryT, nowE, ms))
			}
		}
	}
	// other counters: where they started bounds them
	for _, p := range ctx.phis {
		p := p
		if bt, ok := p.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 || p == lb.idxPhi {
			continue
		}
		start, ok := entryVals[p].(*Term)
		if !ok || start.sort != "Int" {
			continue
		}
		cur := func(phi func(*ssa.Phi) Val) *Term { return phi(p).(*Term) }
		add("down:"+phiKey(p, ctx), "counter at most its start", nil, func(st *State, phi func(*ssa.Phi) Val) *Term { return Le(cur(phi), start) })
		add("up:"+phiKey(p, ctx), "counter at least its start", nil, func(st *State, phi func(*ssa.Phi) Val) *Term { return Le(start, cur(phi)) })
		add("nat:"+phiKey(p, ctx), "counter not negative", nil, func(st *State, phi func(*ssa.Phi) Val) *Term { return Le(Int(0), cur(phi)) })
	}
	// slices carried by the loop: fresh backing arrays
	for _, p := range ctx.phis {
		p := p
		if r.e.sortOf(p.Type()) == "Slice" {
			add("fresh:"+phiKey(p, ctx), "backing array of loop-carried slice is fresh", nil, func(st *State, phi func(*ssa.Phi) Val) *Term {
				s := phi(p).(*Term)
				return Or(Le(nowE, birth(slArr(s))), Eq(slCap(s), Int(0)))
			})
			add("fresh0:"+phiKey(p, ctx), "backing array of loop-carried slice is new in this call", nil, func(st *State, phi func(*ssa.Phi) Val) *Term {
				s := phi(p).(*Term)
				return Or(Le(now0, birth(slArr(s))), Eq(slCap(s), Int(0)))
			})
			for _, q := range ctx.phis {
				q := q
				if q != p && r.e.sortOf(q.Type()) == "Slice" && phiKey(p, ctx) < phiKey(q, ctx) {
					add("sep:"+phiKey(p, ctx)+phiKey(q, ctx), "loop-carried slices are separate", nil, func(st *State, phi func(*ssa.Phi) Val) *Term {
						a, b := phi(p).(*Term), phi(q).(*Term)
						return Or(Ne(slArr(a), slArr(b)), Eq(slCap(a), Int(0)), Eq(slCap(b), Int(0)))
					})
				}
			}
		}
	}
	// local cells that hold slices (escaping variables)
	if lb.iter != nil {
		it := lb.iter
		add("visdom", "visited keys belong to the map at loop start", nil, func(st *State, phi func(*ssa.Phi) Val) *Term {
			x := BV("k", r.e.sortOf(it.mt.Key()))
			vis := st.m[it.id]
			return Forall([]*Term{x}, Implies(Select(vis, x), Select(it.dom0, x)), []*Term{Select(vis, x)})
		})
	}
	// contract-supplied pool
	if r.topC != nil {
		for ci, c := range r.topC.Invs {
			if !r.active(c.Tags) {
				continue
			}
			r.poolCands(f, ctx, lb, idxOf, entryVals, ci, c, add)
		}
	}
	return out
}

func (r *Run) oldStateOr() *State {
	if r.oldState != nil {
		return r.oldState
	}
	return r.init
}

func phiKey(p *ssa.Phi, ctx *loopCtx) string {
	for i, q := range ctx.phis {
		if q == p {
			return fmt.Sprintf("phi%d", i)
		}
	}
	return "?"
}

func blockOf(v ssa.Value) *ssa.BasicBlock {
	if i, ok := v.(ssa.Instruction); ok {
		return i.Block()
	}
	return nil
}

func sortedTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j].id < out[i].id {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

type binder struct {
	name string
	ty   types.Type
	// options
	get   func(st *State, phi func(*ssa.Phi) Val) SVal
	get0  SVal
	label string
}

func (r *Run) poolCands(f *frame, ctx *loopCtx, lb *loopBind, idxOf func(func(*ssa.Phi) Val) *Term, entryVals map[*ssa.Phi]Val, ci int, c *Clause, add func(string, string, []string, func(*State, func(*ssa.Phi) Val) *Term)) {
	var choices [][]binder
	for _, vd := range c.Vars {
		var opts []binder
		ty := func() *SType {
			defer func() {
				recover()
			}()
			return r.e.stype(r.topC.Pkg, vd.Type)
		}()
		if ty == nil {
			return
		}
		switch vd.Name {
		case "idx":
			if idxOf == nil {
				return
			}
			opts = append(opts, binder{name: "idx", label: "idx", get: func(st *State, phi func(*ssa.Phi) Val) SVal { return SVal{idxOf(phi), intTy} }})
		case "seq":
			s, ok := lb.seq.(*Term)
			if !ok || !types.Identical(lb.seqT.Underlying(), ty.gt.Underlying()) {
				return
			}
			opts = append(opts, binder{name: "seq", label: "seq", get: func(st *State, phi func(*ssa.Phi) Val) SVal { return SVal{s, ty} }})
		case "m":
			if lb.iter == nil || !types.Identical(lb.iter.mt, ty.gt) {
				return
			}
			opts = append(opts, binder{name: "m", label: "m", get: func(st *State, phi func(*ssa.Phi) Val) SVal { return SVal{lb.iter.m, ty} }})
		case "visited":
			if lb.iter == nil || r.compSort[lb.iter.id] != ty.sort {
				return
			}
			opts = append(opts, binder{name: "visited", label: "visited", get: func(st *State, phi func(*ssa.Phi) Val) SVal { return SVal{st.m[lb.iter.id], ty} }})
		default:
			for _, p := range ctx.phis {
				p := p
				if p == lb.idxPhi {
					continue
				}
				if ty.gt != nil && types.Identical(p.Type(), ty.gt) || ty.gt == nil && r.e.sortOf(p.Type()) == ty.sort {
					opts = append(opts, binder{name: vd.Name, label: phiKey(p, ctx), get: func(st *State, phi func(*ssa.Phi) Val) SVal { return SVal{phi(p).(*Term), ty} }, get0: SVal{asTerm(entryVals[p]), ty}})
				}
			}
			// variables living in local cells or escaping cells visible to the loop
			for _, v := range sortedVals(f.vals) {
				al, ok := v.(*ssa.Alloc)
				if !ok || ctx.info.body[al.Block()] || al.Comment == "complit" {
					continue
				}
				et := al.Type().(*types.Pointer).Elem()
				if ty.gt == nil || !types.Identical(et, ty.gt) {
					continue
				}
				av := f.vals[v]
				opts = append(opts, binder{name: vd.Name, label: "cell:" + al.Comment, get: func(st *State, phi func(*ssa.Phi) Val) SVal {
					if a, ok := av.(*Addr); ok {
						return SVal{r.load(a, st), ty}
					}
					return SVal{r.loadRef(av.(*Term), et, st), ty}
				}})
			}
			// values defined before the loop that are references
			seenV := map[*Term]bool{}
			for _, v := range sortedVals(f.vals) {
				if _, isPhi := v.(*ssa.Phi); isPhi && blockOf(v) == ctx.info.header {
					continue
				}
				if al, isA := v.(*ssa.Alloc); isA && !(al.Heap && (al.Comment == "complit" || al.Comment == "new")) {
					continue
				}
				if _, isP := v.(*ssa.Parameter); isP {
					if len(r.stack) < 2 { // the contract names the parameters of its own function
						continue
					}
				} else if blockOf(v) == nil || ctx.info.body[blockOf(v)] {
					continue
				}
				if ty.gt == nil || !types.Identical(v.Type(), ty.gt) {
					continue
				}
				if _, isMap := v.Type().Underlying().(*types.Map); !isMap {
					if _, isSl := v.Type().Underlying().(*types.Slice); !isSl && r.e.sortOf(v.Type()) != "Ref" {
						continue
					}
				}
				if !used(v) {
					continue
				}
				if t, ok := f.vals[v].(*Term); ok {
					if s, ok := lb.seq.(*Term); ok && s == t || seenV[t] {
						continue
					}
					seenV[t] = true
					opts = append(opts, binder{name: vd.Name, label: "val:" + v.Name(), get: func(st *State, phi func(*ssa.Phi) Val) SVal { return SVal{t, ty} }, get0: SVal{t, ty}})
				}
			}
		}
		if len(opts) == 0 {
			return
		}
		choices = append(choices, opts)
	}
	var rec func(i int, cur []binder)
	rec = func(i int, cur []binder) {
		if i == len(choices) {
			bs := append([]binder{}, cur...)
			lab := ""
			for _, b := range bs {
				lab += b.name + "=" + b.label + ","
			}
			ev := func(st *State, phi func(*ssa.Phi) Val) *Term {
				env := &Env{r: r, vars: map[string]SVal{}, st: st, old: r.oldStateOr(), entry: ctx.entry, pkg: r.topC.Pkg, inUse: c.Kind == "hint"}
				for k, v := range r.topEnv {
					env.vars[k] = v
				}
				for _, b := range bs {
					env.vars[b.name] = b.get(st, phi)
					if b.get0.t != nil {
						env.vars[b.name+"0"] = b.get0
					}
				}
				return env.bool(c.E)
			}
			add(fmt.Sprintf("pool%d[%s]", ci, lab), c.Pos, c.Tags, ev)
			return
		}
		for _, b := range choices[i] {
			rec(i+1, append(cur, b))
		}
	}
	rec(0, nil)
}

func asTerm(v Val) *Term {
	t, _ := v.(*Term)
	return t
}

// used: some instruction reads the value
func used(v ssa.Value) bool {
	if v.Referrers() == nil {
		return true
	}
	for _, u := range *v.Referrers() {
		if _, dbg := u.(*ssa.DebugRef); !dbg {
			return true
		}
	}
	return false
}
