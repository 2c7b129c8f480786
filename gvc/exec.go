package main

// Symbolic evaluation of go/ssa functions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type Addr struct {
	comp string     // heap/local/global component
	base *Term      // Ref (heap comps), nil for L:/G:
	idx  *Term      // element index for E: comps
	path []pathElem // into struct value
	typ  types.Type // type of the addressed location
}
type pathElem struct {
	field int
	dt    *DT
	idx   *Term // array index
}
type StructPtr struct { // pointer to a heap struct is just a Ref term; this wraps nothing
}
type Tuple []Val
type Closure struct {
	fn    *ssa.Function
	binds []Val
}
type MapIter struct {
	id    string // state comp of the visited set
	m     *Term
	mt    *types.Map
	dom0  *Term
	str   bool
	total *Term
}

type frame struct {
	r      *Run
	fn     *ssa.Function
	vals   map[ssa.Value]Val
	in     map[*ssa.BasicBlock][]*edgeIn
	rets   []retState
	loops  map[*ssa.BasicBlock]*loopInfo
	id     int
	order  []*ssa.BasicBlock
	active map[*ssa.BasicBlock]*loopCtx
}
type edgeIn struct {
	from *ssa.BasicBlock
	st   *State
}
type retState struct {
	st   *State
	vals []Val
}

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	back   map[*ssa.BasicBlock]bool
}

type loopCtx struct {
	info  *loopInfo
	ord   string
	entry *State
	head  *State
	cands []*cand
	phis  []*ssa.Phi
}

func (r *Run) evalFunc(fn *ssa.Function, args []Val, binds []Val, st *State) ([]Val, *State) {
	if len(fn.Blocks) == 0 {
		r.unsup("call of external function %s", fn.String())
	}
	for _, f := range r.stack {
		if f == fn {
			r.unsup("recursion without a contract: %s", shortFn(fn))
		}
	}
	if len(r.stack) > 40 {
		r.unsup("inlining too deep at %s", fn.String())
	}
	r.stack = append(r.stack, fn)
	defer func() { r.stack = r.stack[:len(r.stack)-1] }()
	savedPos := r.curPos
	defer func() { r.curPos = savedPos }()
	r.nf++
	f := &frame{r: r, fn: fn, vals: map[ssa.Value]Val{}, in: map[*ssa.BasicBlock][]*edgeIn{}, id: r.nf, active: map[*ssa.BasicBlock]*loopCtx{}}
	for i, p := range fn.Params {
		f.vals[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		f.vals[fv] = binds[i]
	}
	f.findLoops()
	f.in[fn.Blocks[0]] = []*edgeIn{{nil, st.clone()}}
	f.runBlocks(f.order)
	if len(f.rets) == 0 {
		return nil, nil
	}
	var sts []*State
	for _, rt := range f.rets {
		sts = append(sts, rt.st)
	}
	out := r.join(sts, "ret_"+fn.Name())
	// drop locals of this frame
	pre := fmt.Sprintf("L:%d:", f.id)
	preI := fmt.Sprintf("I:%d:", f.id)
	for k := range out.m {
		if strings.HasPrefix(k, pre) || strings.HasPrefix(k, preI) {
			delete(out.m, k)
		}
	}
	n := len(f.rets[0].vals)
	res := make([]Val, n)
	for i := 0; i < n; i++ {
		res[i] = r.mergeV(f.rets, i, fn.Signature.Results().At(i).Type(), fmt.Sprintf("ret%d_%s", i, fn.Name()))
	}
	return res, out
}

func (r *Run) mergeV(rets []retState, i int, t types.Type, name string) Val {
	if len(rets) == 1 {
		return rets[0].vals[i]
	}
	var sts []*State
	m := map[*State]*Term{}
	for _, rt := range rets {
		m[rt.st] = r.term(rt.vals[i], t, rt.st)
		sts = append(sts, rt.st)
	}
	return r.mergeVals(sts, func(s *State) *Term { return m[s] }, name)
}

// term coerces a Val to an SMT term.
func (r *Run) term(v Val, t types.Type, st *State) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *Addr:
		if v.base != nil && v.idx == nil && len(v.path) == 0 && strings.HasPrefix(v.comp, "P:") {
			return v.base
		}
		r.unsup("interior pointer used as a value (%s)", v.comp)
	case *Closure:
		r.unsup("function value escapes")
	case nil:
		r.unsup("missing value")
	}
	r.unsup("value of kind %T used as a term", v)
	return nil
}

func (f *frame) findLoops() {
	fn := f.fn
	f.loops = map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := f.loops[s]
				if li == nil {
					li = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}, back: map[*ssa.BasicBlock]bool{}}
					f.loops[s] = li
				}
				li.back[b] = true
				var stack []*ssa.BasicBlock
				if !li.body[b] {
					li.body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !li.body[p] {
							li.body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	// reverse postorder ignoring back edges
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] && !s.Dominates(b) {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		f.order = append(f.order, post[i])
	}
}

func (f *frame) runBlocks(order []*ssa.BasicBlock) {
	for _, b := range order {
		ins := f.in[b]
		if len(ins) == 0 {
			continue
		}
		delete(f.in, b)
		if li := f.loops[b]; li != nil {
			f.enterLoop(li, ins)
			continue
		}
		f.runBlock(b, ins)
	}
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, i := range b.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			ps = append(ps, p)
		} else {
			break
		}
	}
	return ps
}

func predIndex(b, p *ssa.BasicBlock) int {
	for i, x := range b.Preds {
		if x == p {
			return i
		}
	}
	panic("pred")
}

// mergeIns joins incoming edges of b and binds its phis.
func (f *frame) mergeIns(b *ssa.BasicBlock, ins []*edgeIn) *State {
	r := f.r
	var sts []*State
	for _, e := range ins {
		sts = append(sts, e.st)
	}
	phis := phisOf(b)
	vals := make([]Val, len(phis))
	for i, p := range phis {
		vals[i] = f.phiVal(p, b, ins)
	}
	st := r.join(sts, fmt.Sprintf("b%d", b.Index))
	for i, p := range phis {
		f.vals[p] = vals[i]
	}
	return st
}

func (f *frame) phiVal(p *ssa.Phi, b *ssa.BasicBlock, ins []*edgeIn) Val {
	r := f.r
	var vs []Val
	for _, e := range ins {
		ev := p.Edges[predIndex(b, e.from)]
		vs = append(vs, f.valIn(ev, e.st))
	}
	same := true
	for _, v := range vs {
		if !sameVal(v, vs[0]) {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	var sts []*State
	m := map[*State]*Term{}
	for i, e := range ins {
		sts = append(sts, e.st)
		m[e.st] = r.term(vs[i], p.Type(), e.st)
	}
	nm := p.Comment
	if nm == "" {
		nm = p.Name()
	}
	return r.mergeVals(sts, func(s *State) *Term { return m[s] }, nm)
}

func sameVal(a, b Val) bool {
	if x, ok := a.(*Term); ok {
		y, ok := b.(*Term)
		return ok && x == y
	}
	if x, ok := a.(*Closure); ok {
		y, ok := b.(*Closure)
		return ok && x == y
	}
	if x, ok := a.(*Addr); ok {
		y, ok := b.(*Addr)
		if !ok {
			return false
		}
		return x == y || (x.comp == y.comp && x.base == y.base && x.idx == y.idx && len(x.path) == 0 && len(y.path) == 0)
	}
	return false
}

func (f *frame) addEdge(from, to *ssa.BasicBlock, st *State) {
	if st.guard == TFalse && f.r.dry == 0 {
		return
	}
	if ctx := f.active[to]; ctx != nil && ctx.info.back[from] && ctx.head != nil {
		f.backEdge(ctx, from, st)
		return
	}
	f.in[to] = append(f.in[to], &edgeIn{from, st})
}

func (f *frame) runBlock(b *ssa.BasicBlock, ins []*edgeIn) {
	st := f.mergeIns(b, ins)
	f.runInstrs(b, st)
}

// coverMode: report the blocks that the solvers show unreachable under the assumptions made
var coverMode bool

func (f *frame) runInstrs(b *ssa.BasicBlock, st *State) {
	r := f.r
	for _, ins := range b.Instrs {
		if p := ins.Pos(); p.IsValid() {
			r.curPos = p
		}
		if coverMode && r.dry == 0 && r.pure == 0 {
			switch ins.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return:
				r.obls = append(r.obls, &Obl{Name: fmt.Sprintf("cover %s block %d", shortFn(f.fn), b.Index), Kind: "cover", Pos: r.posStr(r.curPos), NFacts: len(r.facts), Guard: st.guard, Goal: TFalse, Fn: r.name, Expect: "sat"})
			}
		}
		switch ins := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := f.val(ins.Cond, st).(*Term)
			s1, s2 := st.clone(), st.clone()
			s1.guard = And(st.guard, c)
			s2.guard = And(st.guard, Not(c))
			f.addEdge(b, b.Succs[0], s1)
			f.addEdge(b, b.Succs[1], s2)
			return
		case *ssa.Jump:
			f.addEdge(b, b.Succs[0], st.clone())
			return
		case *ssa.Return:
			var vs []Val
			for _, x := range ins.Results {
				vs = append(vs, f.val(x, st))
			}
			if st.guard != TFalse || r.dry > 0 {
				f.rets = append(f.rets, retState{st.clone(), vs})
			}
			return
		case *ssa.Panic:
			r.safe(st, "explicit panic unreachable", TFalse)
			return
		default:
			ns := f.instr(ins, st)
			if ns == nil {
				return // does not return
			}
			st = ns
			if st.guard == TFalse && r.dry == 0 {
				return
			}
		}
	}
}

func (f *frame) val(v ssa.Value, st *State) Val { return f.valIn(v, st) }

func (f *frame) valIn(v ssa.Value, st *State) Val {
	r := f.r
	switch v := v.(type) {
	case *ssa.Const:
		return r.constVal(v)
	case *ssa.Global:
		t := v.Type().(*types.Pointer).Elem()
		name := "G:" + v.Pkg.Pkg.Name() + "." + v.Name()
		r.noteComp(name, r.e.sortOf(t), t)
		return &Addr{comp: name, typ: t}
	case *ssa.Function:
		return &Closure{fn: v}
	case *ssa.Builtin:
		return v
	}
	x, ok := f.vals[v]
	if !ok {
		r.unsup("undefined SSA value %s in %s", v.Name(), f.fn.Name())
	}
	return x
}

func (r *Run) constVal(c *ssa.Const) *Term {
	s := r.e.sortOf(c.Type())
	if c.Value == nil {
		return r.e.zero(s)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return TTrue
		}
		return TFalse
	case constant.Int:
		if n, ok := constant.Int64Val(c.Value); ok && s == "Int" {
			return Int(n)
		}
		if s == "Int" {
			return mk("i:"+c.Value.ExactString(), "Int")
		}
	case constant.String:
		return StrLit(constant.StringVal(c.Value))
	}
	return mk("c:fconst_"+sanitize(c.Value.ExactString()), s)
}

// --- addresses ---

func (r *Run) load(a *Addr, st *State) *Term {
	var t *Term
	switch {
	case strings.HasPrefix(a.comp, "L:"):
		t = st.m[a.comp]
		if t == nil {
			r.unsup("dead local cell %s", a.comp)
		}
	case a.base == nil:
		t = r.get(st, a.comp)
	default:
		t = Select(r.get(st, a.comp), a.base)
	}
	if a.idx != nil {
		t = Select(t, a.idx)
	}
	for _, p := range a.path {
		if p.idx != nil {
			t = Select(t, p.idx)
		} else {
			t = dtField(p.dt, t, p.field)
		}
	}
	return t
}

func (r *Run) store(a *Addr, st *State, v *Term) {
	if strings.HasPrefix(a.comp, "L:") {
		r.set(st, a.comp, r.updPath(st.m[a.comp], a, v))
		return
	}
	cur := r.get(st, a.comp)
	if a.base == nil {
		r.set(st, a.comp, r.updPath(cur, a, v))
		return
	}
	was := st.clone()
	r.set(st, a.comp, StoreT(cur, a.base, r.updPath(Select(cur, a.base), a, v)))
	r.linkChanged(a.comp, a.base, was, st)
}

func (r *Run) updPath(t *Term, a *Addr, v *Term) *Term {
	var rec func(t *Term, p []pathElem) *Term
	rec = func(t *Term, p []pathElem) *Term {
		if len(p) == 0 {
			return v
		}
		if p[0].idx != nil {
			return StoreT(t, p[0].idx, rec(Select(t, p[0].idx), p[1:]))
		}
		return dtUpdate(p[0].dt, t, p[0].field, rec(dtField(p[0].dt, t, p[0].field), p[1:]))
	}
	if a.idx != nil {
		return StoreT(t, a.idx, rec(Select(t, a.idx), a.path))
	}
	return rec(t, a.path)
}

// loadPtr loads *p where p : *T
func (r *Run) loadPtr(p Val, elem types.Type, st *State) *Term {
	if a, ok := p.(*Addr); ok {
		return r.load(a, st)
	}
	ref := r.term(p, nil, st)
	r.safe(st, "nil dereference", Ne(ref, tNil))
	return r.loadRef(ref, elem, st)
}

func (r *Run) loadRef(ref *Term, elem types.Type, st *State) *Term {
	switch u := elem.Underlying().(type) {
	case *types.Struct:
		dt := r.e.structDT(elem)
		if u.NumFields() == 0 {
			return r.e.zero(dt.Name)
		}
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			c, s := r.e.compField(elem, i)
			r.noteComp(c, s, u.Field(i).Type())
			fs = append(fs, Select(r.get(st, c), ref))
		}
		return dtMake(dt, fs...)
	case *types.Array:
		c, s := r.e.compElem(u.Elem())
		r.noteComp(c, s, u.Elem())
		return Select(r.get(st, c), ref)
	}
	c, s := r.e.compCell(elem)
	r.noteComp(c, s, elem)
	return Select(r.get(st, c), ref)
}

func (r *Run) storePtr(p Val, elem types.Type, v *Term, st *State) {
	if a, ok := p.(*Addr); ok {
		r.store(a, st, v)
		return
	}
	ref := r.term(p, nil, st)
	r.safe(st, "nil dereference", Ne(ref, tNil))
	r.storeRef(ref, elem, v, st)
}

func (r *Run) storeRef(ref *Term, elem types.Type, v *Term, st *State) {
	switch u := elem.Underlying().(type) {
	case *types.Struct:
		dt := r.e.structDT(elem)
		for i := 0; i < u.NumFields(); i++ {
			c, s := r.e.compField(elem, i)
			r.noteComp(c, s, u.Field(i).Type())
			r.set(st, c, StoreT(r.get(st, c), ref, dtField(dt, v, i)))
		}
		return
	case *types.Array:
		c, s := r.e.compElem(u.Elem())
		r.noteComp(c, s, u.Elem())
		r.set(st, c, StoreT(r.get(st, c), ref, v))
		return
	}
	c, s := r.e.compCell(elem)
	r.noteComp(c, s, elem)
	r.set(st, c, StoreT(r.get(st, c), ref, v))
}

// allocObj allocates a zeroed heap object of type t.
func (r *Run) allocObj(t types.Type, st *State) *Term {
	hint := sanitize(typeKey(t))
	if len(hint) > 20 {
		hint = hint[:20]
	}
	ref := r.alloc(st, hint)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			c, s := r.e.compField(t, i)
			r.noteComp(c, s, u.Field(i).Type())
			r.assumeZero(st, c, ref)
		}
		r.noteDyn(ref, types.NewPointer(t), st)
	case *types.Array:
		c, s := r.e.compElem(u.Elem())
		r.noteComp(c, s, u.Elem())
		r.assumeZero(st, c, ref)
	default:
		c, s := r.e.compCell(t)
		r.noteComp(c, s, t)
		r.assumeZero(st, c, ref)
	}
	return ref
}

func (r *Run) noteDyn(ref *Term, pt types.Type, st *State) {
	if n, ok := pt.(*types.Pointer).Elem().(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), repoPrefix) {
		r.assume(st, Eq(App("dyntype", "Int", ref), Int(int64(r.e.tag(pt)))))
	}
}

func (f *frame) instr(ins ssa.Instruction, st *State) *State {
	r := f.r
	switch ins := ins.(type) {
	case *ssa.Alloc:
		et := ins.Type().(*types.Pointer).Elem()
		if !ins.Heap {
			name := fmt.Sprintf("L:%d:%s", f.id, ins.Name())
			r.noteComp(name, r.e.sortOf(et), et)
			r.set(st, name, r.e.zero(r.e.sortOf(et)))
			f.vals[ins] = &Addr{comp: name, typ: et}
			return st
		}
		if r.pure > 0 {
			r.unsup("allocation in pure context")
		}
		f.vals[ins] = r.allocObj(et, st)
	case *ssa.Store:
		pt := ins.Addr.Type().Underlying().(*types.Pointer).Elem()
		v := f.val(ins.Val, st)
		if c, ok := v.(*Closure); ok {
			_ = c
			r.unsup("store of a function value")
		}
		r.storePtr(f.val(ins.Addr, st), pt, r.term(v, pt, st), st)
	case *ssa.UnOp:
		switch ins.Op {
		case token.MUL:
			pt := ins.X.Type().Underlying().(*types.Pointer).Elem()
			f.vals[ins] = r.loadPtr(f.val(ins.X, st), pt, st)
		case token.NOT:
			f.vals[ins] = Not(f.val(ins.X, st).(*Term))
		case token.SUB:
			f.vals[ins] = Sub(Int(0), f.val(ins.X, st).(*Term))
		default:
			f.vals[ins] = r.fresh("unop", r.e.sortOf(ins.Type()))
			if ins.Op == token.ARROW {
				r.unsup("channel receive")
			}
		}
	case *ssa.BinOp:
		f.vals[ins] = f.binop(ins, st)
	case *ssa.FieldAddr:
		pt := ins.X.Type().Underlying().(*types.Pointer).Elem()
		stt := pt.Underlying().(*types.Struct)
		ft := stt.Field(ins.Field).Type()
		x := f.val(ins.X, st)
		if a, ok := x.(*Addr); ok {
			na := *a
			na.path = append(append([]pathElem{}, a.path...), pathElem{field: ins.Field, dt: r.e.structDT(pt)})
			na.typ = ft
			f.vals[ins] = &na
			return st
		}
		ref := r.term(x, nil, st)
		r.safe(st, "nil dereference", Ne(ref, tNil))
		c, s := r.e.compField(pt, ins.Field)
		r.noteComp(c, s, ft)
		a := &Addr{comp: c, base: ref, typ: ft}
		if r.pure == 0 && r.e.frozenField(ins, ft) {
			// neither the field nor what the pointer points to is written from here on: a cell of its own holds the same value
			v := r.loadPtr(a, ft, st)
			cell := r.allocObj(ft, st)
			r.storePtr(cell, ft, r.term(v, ft, st), st)
			f.vals[ins] = cell
			return st
		}
		f.vals[ins] = a
	case *ssa.Field:
		x := f.val(ins.X, st).(*Term)
		f.vals[ins] = dtField(r.e.structDT(ins.X.Type()), x, ins.Field)
	case *ssa.IndexAddr:
		idx := f.val(ins.Index, st).(*Term)
		switch u := ins.X.Type().Underlying().(type) {
		case *types.Slice:
			x := f.val(ins.X, st).(*Term)
			r.safe(st, "index in range", And(Le(Int(0), idx), Lt(idx, slLen(x))))
			c, s := r.e.compElem(u.Elem())
			r.noteComp(c, s, u.Elem())
			f.vals[ins] = &Addr{comp: c, base: slArr(x), idx: idx, typ: u.Elem()}
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			r.safe(st, "index in range", And(Le(Int(0), idx), Lt(idx, Int(at.Len()))))
			x := f.val(ins.X, st)
			if a, ok := x.(*Addr); ok {
				na := *a
				na.path = append(append([]pathElem{}, a.path...), pathElem{idx: idx})
				na.typ = at.Elem()
				f.vals[ins] = &na
				return st
			}
			ref := r.term(x, nil, st)
			c, s := r.e.compElem(at.Elem())
			r.noteComp(c, s, at.Elem())
			f.vals[ins] = &Addr{comp: c, base: ref, idx: idx, typ: at.Elem()}
		default:
			r.unsup("IndexAddr on %s", ins.X.Type())
		}
	case *ssa.Index:
		x := f.val(ins.X, st).(*Term)
		idx := f.val(ins.Index, st).(*Term)
		switch u := ins.X.Type().Underlying().(type) {
		case *types.Array:
			r.safe(st, "index in range", And(Le(Int(0), idx), Lt(idx, Int(u.Len()))))
			f.vals[ins] = Select(x, idx)
		default: // string
			r.safe(st, "string index in range", And(Le(Int(0), idx), Lt(idx, slenT(x))))
			f.vals[ins] = App("sbyte", "Int", x, idx)
		}
	case *ssa.Lookup:
		idx := f.val(ins.Index, st).(*Term)
		if mt, ok := ins.X.Type().Underlying().(*types.Map); ok {
			m := f.val(ins.X, st).(*Term)
			ok_, v := r.mapLookup(m, mt, idx, st)
			if ins.CommaOk {
				f.vals[ins] = Tuple{v, ok_}
			} else {
				f.vals[ins] = v
			}
			return st
		}
		x := f.val(ins.X, st).(*Term)
		r.safe(st, "string index in range", And(Le(Int(0), idx), Lt(idx, slenT(x))))
		f.vals[ins] = App("sbyte", "Int", x, idx)
	case *ssa.MapUpdate:
		mt := ins.Map.Type().Underlying().(*types.Map)
		m := f.val(ins.Map, st).(*Term)
		k := f.val(ins.Key, st).(*Term)
		v := r.term(f.val(ins.Value, st), mt.Elem(), st)
		r.safe(st, "assignment to nil map", Ne(m, tNil))
		dn, vn := r.mapComps(mt)
		d, vv := r.get(st, dn), r.get(st, vn)
		r.set(st, dn, StoreT(d, m, StoreT(Select(d, m), k, TTrue)))
		r.set(st, vn, StoreT(vv, m, StoreT(Select(vv, m), k, v)))
	case *ssa.MakeMap:
		mt := ins.Type().Underlying().(*types.Map)
		dn, _ := r.mapComps(mt)
		ref := r.alloc(st, "map")
		r.assumeZero(st, dn, ref)
		f.vals[ins] = ref
	case *ssa.MakeSlice:
		et := ins.Type().Underlying().(*types.Slice).Elem()
		ln := f.val(ins.Len, st).(*Term)
		cp := f.val(ins.Cap, st).(*Term)
		r.safe(st, "make: non-negative length within capacity", And(Le(Int(0), ln), Le(ln, cp)))
		c, s := r.e.compElem(et)
		r.noteComp(c, s, et)
		ref := r.alloc(st, "slice")
		r.assumeZero(st, c, ref)
		f.vals[ins] = mkSlice(ref, ln, cp)
	case *ssa.Slice:
		f.vals[ins] = f.sliceOp(ins, st)
	case *ssa.Extract:
		t, ok := f.val(ins.Tuple, st).(Tuple)
		if !ok {
			r.unsup("extract from non tuple")
		}
		f.vals[ins] = t[ins.Index]
	case *ssa.MakeInterface:
		f.vals[ins] = r.makeIface(f.val(ins.X, st), ins.X.Type(), ins.Type(), st)
	case *ssa.ChangeInterface:
		f.vals[ins] = r.changeIface(f.val(ins.X, st), ins.X.Type(), ins.Type())
	case *ssa.ChangeType:
		x := f.val(ins.X, st)
		if t, ok := x.(*Term); ok {
			f.vals[ins] = r.convStruct(t, ins.X.Type(), ins.Type())
		} else {
			f.vals[ins] = x
		}
	case *ssa.Convert:
		f.vals[ins] = f.convert(ins, st)
	case *ssa.TypeAssert:
		f.vals[ins] = f.typeAssert(ins, st)
	case *ssa.MakeClosure:
		c := &Closure{fn: ins.Fn.(*ssa.Function)}
		for _, b := range ins.Bindings {
			c.binds = append(c.binds, f.val(b, st))
		}
		f.vals[ins] = c
	case *ssa.Range:
		switch u := ins.X.Type().Underlying().(type) {
		case *types.Map:
			m := f.val(ins.X, st).(*Term)
			name := fmt.Sprintf("I:%d:%s", f.id, ins.Name())
			s := ArraySort(r.e.sortOf(u.Key()), "Bool")
			r.noteComp(name, s, nil)
			r.set(st, name, ConstArr(s, TFalse))
			dn, _ := r.mapComps(u)
			f.vals[ins] = &MapIter{id: name, m: m, mt: u, dom0: Select(r.get(st, dn), m)}
		default:
			f.vals[ins] = &MapIter{str: true}
		}
	case *ssa.Next:
		it := f.val(ins.Iter, st).(*MapIter)
		if it.str {
			f.vals[ins] = Tuple{r.fresh("ok", "Bool"), r.fresh("k", "Int"), r.fresh("v", "Int")}
			return st
		}
		ks := r.e.sortOf(it.mt.Key())
		k := r.fresh("key", ks)
		ok := r.fresh("more", "Bool")
		dn, vn := r.mapComps(it.mt)
		dom := Select(r.get(st, dn), it.m)
		vis := st.m[it.id]
		r.assume(st, Implies(ok, And(Select(dom, k), Not(Select(vis, k)))))
		q := BV("k", ks)
		r.assume(st, Implies(Not(ok), Forall([]*Term{q}, Implies(And(Select(it.dom0, q), Select(dom, q)), Select(vis, q)), []*Term{Select(vis, q)}, []*Term{Select(dom, q)})))
		r.assume(st, Implies(ok, r.closedVal(k, it.mt.Key(), r.now(st))))
		v := Select(Select(r.get(st, vn), it.m), k)
		r.set(st, it.id, Ite(ok, StoreT(vis, k, TTrue), vis))
		if st.m[it.id].op == "ite" {
			c := r.fresh("visited", vis.sort)
			r.assume(st, And(Implies(ok, Eq(c, StoreT(vis, k, TTrue))), Implies(Not(ok), Eq(c, vis))))
			st.m[it.id] = c
		}
		f.vals[ins] = Tuple{ok, k, v}
	case *ssa.Call:
		return f.call(ins, st)
	case *ssa.RunDefers:
	case *ssa.Defer:
		// executed at function exit: unsupported unless trivially ignorable
		r.unsup("defer")
	default:
		r.unsup("instruction %T", ins)
	}
	return st
}

func (r *Run) mapComps(mt *types.Map) (string, string) {
	dn, vn, ds, vs := r.e.compMap(mt)
	r.noteComp(dn, ds, nil)
	r.noteComp(vn, vs, mt.Elem())
	return dn, vn
}

func (r *Run) mapLookup(m *Term, mt *types.Map, k *Term, st *State) (*Term, *Term) {
	dn, vn := r.mapComps(mt)
	ok := And(Ne(m, tNil), Select(Select(r.get(st, dn), m), k))
	v := Select(Select(r.get(st, vn), m), k)
	return ok, Ite(ok, v, r.e.zero(v.sort))
}

func slenT(s *Term) *Term {
	if v, ok := litVal[s.op]; ok {
		return Int(int64(len(v)))
	}
	return App("slen", "Int", s)
}

func (f *frame) binop(ins *ssa.BinOp, st *State) *Term {
	r := f.r
	xv, yv := f.val(ins.X, st), f.val(ins.Y, st)
	// comparisons of function values / addresses with nil
	if a, ok := xv.(*Addr); ok {
		_ = a
		if ins.Op == token.EQL {
			return TFalse
		}
		if ins.Op == token.NEQ {
			return TTrue
		}
	}
	x, y := r.term(xv, nil, st), r.term(yv, nil, st)
	if x.sort != y.sort { // interface vs concrete comparison
		if x.sort == "Any" {
			y = r.makeIface(y, ins.Y.Type(), ins.X.Type(), st).(*Term)
		} else if y.sort == "Any" {
			x = r.makeIface(x, ins.X.Type(), ins.Y.Type(), st).(*Term)
		}
	}
	switch ins.Op {
	case token.EQL:
		return r.goEq(x, y, ins.X.Type())
	case token.NEQ:
		return Not(r.goEq(x, y, ins.X.Type()))
	}
	if x.sort == "Str" {
		switch ins.Op {
		case token.ADD:
			return scat(x, y)
		case token.LSS:
			return slt(x, y)
		case token.GTR:
			return slt(y, x)
		case token.LEQ:
			return Not(slt(y, x))
		case token.GEQ:
			return Not(slt(x, y))
		}
	}
	if x.sort == "Int" {
		switch ins.Op {
		case token.ADD:
			return Add(x, y)
		case token.SUB:
			return Sub(x, y)
		case token.MUL:
			return mk("*", "Int", x, y)
		case token.LSS:
			return Lt(x, y)
		case token.GTR:
			return Lt(y, x)
		case token.LEQ:
			return Le(x, y)
		case token.GEQ:
			return Le(y, x)
		case token.QUO, token.REM:
			r.safe(st, "division by zero", Ne(y, Int(0)))
			return App("go"+map[token.Token]string{token.QUO: "quo", token.REM: "rem"}[ins.Op], "Int", x, y)
		}
		return App("intop_"+sanitize(fmt.Sprint(int(ins.Op))), "Int", x, y)
	}
	if x.sort == "Bool" {
		switch ins.Op {
		case token.AND, token.LAND:
			return And(x, y)
		case token.OR, token.LOR:
			return Or(x, y)
		}
	}
	return r.fresh("binop", r.e.sortOf(ins.Type()))
}

func slt(x, y *Term) *Term {
	if x == y {
		return TFalse
	}
	return App("slt", "Bool", x, y)
}

func scat(x, y *Term) *Term {
	if x == tEmptyStr {
		return y
	}
	if y == tEmptyStr {
		return x
	}
	if a, ok := litVal[x.op]; ok {
		if b, ok := litVal[y.op]; ok {
			return StrLit(a + b)
		}
	}
	// a choice between texts, not too many: choose between the concatenations
	if (x.op == "ite" || y.op == "ite") && strLeaves(x)*strLeaves(y) <= 8 {
		if x.op == "ite" {
			return Ite(x.args[0], scat(x.args[1], y), scat(x.args[2], y))
		}
		return Ite(y.args[0], scat(x, y.args[1]), scat(x, y.args[2]))
	}
	// right-associate
	if x.op == "scat" {
		return scat(x.args[0], scat(x.args[1], y))
	}
	if a, ok := litVal[x.op]; ok && y.op == "scat" {
		if b, ok := litVal[y.args[0].op]; ok {
			return mk("scat", "Str", StrLit(a+b), y.args[1])
		}
	}
	return mk("scat", "Str", x, y)
}

func (r *Run) goEq(x, y *Term, t types.Type) *Term {
	if x.sort == "Slice" {
		// only comparison with nil is legal
		if x == r.e.zero("Slice") {
			x, y = y, x
		}
		return Eq(slArr(x), tNil)
	}
	return Eq(x, y)
}

func (f *frame) sliceOp(ins *ssa.Slice, st *State) Val {
	r := f.r
	x := f.val(ins.X, st)
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return f.val(v, st).(*Term)
	}
	lo, hi, mx := get(ins.Low), get(ins.High), get(ins.Max)
	if lo == nil {
		lo = Int(0)
	}
	switch u := ins.X.Type().Underlying().(type) {
	case *types.Slice:
		s := x.(*Term)
		if hi == nil {
			hi = slLen(s)
		}
		m := slCap(s)
		if mx != nil {
			m = mx
		}
		r.safe(st, "slice bounds", And(Le(Int(0), lo), Le(lo, hi), Le(hi, m), Le(m, slCap(s))))
		if hi != slLen(s) {
			// reslicing beyond the length is outside the supported subset
			if n, ok := isInt(lo); !(ok && n == 0) || true {
				if r.dry == 0 && r.pure == 0 {
					r.obligeHard(st, "reslice within length", Le(hi, slLen(s)))
				}
			}
		}
		if n, ok := isInt(lo); ok && n == 0 {
			return mkSlice(slArr(s), hi, m)
		}
		// general low bound: model as a fresh read-only copy
		c, cs := r.e.compElem(u.Elem())
		r.noteComp(c, cs, u.Elem())
		r.e.assumed["slices taken with a non-zero lower bound are treated as copies (no writes through both views)"] = true
		ref := r.alloc(st, "sub")
		arr := r.get(st, c)
		na := r.fresh("subarr", ArraySort("Int", r.e.sortOf(u.Elem())))
		i := BV("i", "Int")
		r.assume(st, Forall([]*Term{i}, Implies(And(Le(Int(0), i), Lt(i, Sub(hi, lo))), Eq(Select(na, i), Select(Select(arr, slArr(s)), Add(i, lo)))), []*Term{Select(na, i)}))
		r.set(st, c, StoreT(arr, ref, na))
		return mkSlice(ref, Sub(hi, lo), Sub(m, lo))
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		if hi == nil {
			hi = Int(at.Len())
		}
		if n, ok := isInt(lo); !ok || n != 0 {
			r.unsup("slicing an array with a lower bound")
		}
		r.safe(st, "slice bounds", And(Le(Int(0), hi), Le(hi, Int(at.Len()))))
		m := Int(at.Len())
		if mx != nil {
			m = mx
		}
		ref, ok := x.(*Term)
		if !ok {
			r.unsup("slice of a local array")
		}
		return mkSlice(ref, hi, m)
	default: // string
		s := x.(*Term)
		if hi == nil {
			hi = slenT(s)
		}
		r.safe(st, "string slice bounds", And(Le(Int(0), lo), Le(lo, hi), Le(hi, slenT(s))))
		return App("ssub", "Str", s, lo, hi)
	}
}

// obligeHard: a condition of the supported subset (soundness of the model); fails the run if not provable.
func (r *Run) obligeHard(st *State, what string, goal *Term) {
	o := r.oblige(st, "subset", r.prefix+what, nil, goal)
	o.Hard = true
	r.assume(st, goal)
}

func (f *frame) convert(ins *ssa.Convert, st *State) Val {
	r := f.r
	x := f.val(ins.X, st)
	s := r.e.sortOf(ins.Type())
	t, ok := x.(*Term)
	if ok && t.sort == s && s != "Slice" && s != "Ref" {
		return t
	}
	if ok && t.sort == s && types.Identical(ins.X.Type().Underlying(), ins.Type().Underlying()) {
		return t
	}
	if s == "Slice" {
		et := ins.Type().Underlying().(*types.Slice).Elem()
		c, cs := r.e.compElem(et)
		r.noteComp(c, cs, et)
		ref := r.alloc(st, "bytes")
		n := r.fresh("len", "Int")
		na := r.fresh("conv", ArraySort("Int", r.e.sortOf(et)))
		r.assume(st, Le(Int(0), n))
		r.set(st, c, StoreT(r.get(st, c), ref, na))
		if b, isb := et.Underlying().(*types.Basic); isb && b.Kind() == types.Byte && ok && t.sort == "Str" {
			r.assume(st, And(Eq(n, slenT(t)), Eq(App("f:bytestr", "Str", na, n), t)))
			r.e.assumed["conversions between string and []byte are inverse"] = true
		}
		return mkSlice(ref, n, n)
	}
	if ok && t.sort == "Slice" && s == "Str" {
		et := ins.X.Type().Underlying().(*types.Slice).Elem()
		if b, isb := et.Underlying().(*types.Basic); isb && b.Kind() == types.Byte {
			c, cs := r.e.compElem(et)
			r.noteComp(c, cs, et)
			return App("f:bytestr", "Str", Select(r.get(st, c), slArr(t)), slLen(t))
		}
	}
	if ok && t.sort == "Int" && s == "Str" {
		return App("chr", "Str", t)
	}
	return r.fresh("conv", s)
}

func (r *Run) convStruct(t *Term, from, to types.Type) *Term {
	s := r.e.sortOf(to)
	if t.sort == s {
		return t
	}
	df, dt := dts[t.sort], dts[s]
	if df != nil && dt != nil && len(df.Fields) == len(dt.Fields) {
		var as []*Term
		fs, ts := from.Underlying().(*types.Struct), to.Underlying().(*types.Struct)
		for i := range df.Fields {
			as = append(as, r.convStruct(dtField(df, t, i), fs.Field(i).Type(), ts.Field(i).Type()))
		}
		return dtMake(dt, as...)
	}
	r.unsup("conversion %s -> %s", from, to)
	return nil
}

// --- interfaces ---

func (r *Run) box(t types.Type, v *Term) *Term {
	k := typeKey(t)
	r.e.tag(t)
	if sl, ok := t.Underlying().(*types.Slice); ok {
		sliceTypes[k] = sl.Elem()
	}
	return App("box:"+k, "Any", v)
}

func (r *Run) makeIface(x Val, from, to types.Type, st *State) Val {
	if _, ok := isMapset(to); ok {
		return x
	}
	v := r.term(x, from, st)
	if _, _, ok := r.e.refIface(to); ok {
		if v.sort != "Ref" {
			r.unsup("non-pointer value in interface %s", to)
		}
		return v
	}
	if v.sort == "Any" {
		return v
	}
	if types.IsInterface(from) && v.sort == "Ref" { // ref-interface into any
		return r.boxRefIface(v)
	}
	if pt, ok := unalias(from).(*types.Pointer); ok {
		// pointers box through the closed world box so that identity is by reference
		_ = pt
		return App("box:"+typeKey(from), "Any", v)
	}
	return r.box(from, v)
}

func (r *Run) boxRefIface(v *Term) *Term {
	return App("boxref", "Any", v)
}

func (r *Run) changeIface(x Val, from, to types.Type) Val {
	v, ok := x.(*Term)
	if !ok {
		return x
	}
	ts := r.e.sortOf(to)
	if v.sort == ts {
		return v
	}
	if v.sort == "Ref" && ts == "Any" {
		return r.boxRefIface(v)
	}
	r.unsup("interface conversion %s -> %s", from, to)
	return nil
}

func (f *frame) typeAssert(ins *ssa.TypeAssert, st *State) Val {
	r := f.r
	x := r.term(f.val(ins.X, st), nil, st)
	to := ins.AssertedType
	var ok, v *Term
	if x.sort == "Ref" {
		if !types.IsInterface(to) {
			_, im, is := r.e.refIface(ins.X.Type())
			if is && len(im) == 1 && types.Identical(im[0], to) {
				ok = Ne(x, tNil)
				v = x
			} else if _, isp := to.(*types.Pointer); isp {
				ok = And(Ne(x, tNil), Eq(App("dyntype", "Int", x), Int(int64(r.e.tag(to)))))
				v = x
			}
		} else if r.e.sortOf(to) == "Ref" {
			_, im, is := r.e.refIface(ins.X.Type())
			_, im2, is2 := r.e.refIface(to)
			if is && is2 && sameTypes(im, im2) {
				ok = Ne(x, tNil)
				v = x
			}
		}
	} else if x.sort == "Any" && !types.IsInterface(to) {
		k := typeKey(to)
		ts := r.e.sortOf(to)
		ok = Eq(App("tag", "Int", x), Int(int64(r.e.tag(to))))
		if strings.HasPrefix(x.op, "box:") {
			if x.op == "box:"+k {
				ok, v = TTrue, x.args[0]
			} else {
				ok = TFalse
			}
		}
		if v == nil {
			v = App("unbox:"+k, ts, x)
		}
	}
	if ok == nil {
		ok = r.fresh("assertok", "Bool")
		v = r.fresh("asserted", r.e.sortOf(to))
		r.assume(st, Implies(ok, Ne(x, r.e.zero(x.sort))))
	}
	if ins.CommaOk {
		return Tuple{Ite(ok, v, r.e.zero(v.sort)), ok}
	}
	r.safe(st, "type assertion holds", ok)
	return v
}

func sameTypes(a, b []types.Type) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		found := false
		for _, y := range b {
			if types.Identical(x, y) {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// --- loops ---

type cand struct {
	key  string
	desc string
	tags []string
	eval func(st *State, phi func(*ssa.Phi) Val) *Term // invariant in a state with given phi values
}

func (f *frame) enterLoop(li *loopInfo, ins []*edgeIn) {
	r := f.r
	h := li.header
	f.active[h] = &loopCtx{info: li} // placeholder
	entry := f.mergeIns(h, ins)
	phis := phisOf(h)
	entryVals := map[*ssa.Phi]Val{}
	for _, p := range phis {
		entryVals[p] = f.vals[p]
	}
	var body []*ssa.BasicBlock
	for _, b := range f.order {
		if li.body[b] {
			body = append(body, b)
		}
	}
	// 1. dry run to find the components written in the loop
	writes := map[string]bool{}
	{
		nfacts, nobls := len(r.facts), len(r.obls)
		nrets := len(f.rets)
		known := map[string]bool{}
		for k := range r.init.m {
			known[k] = true
		}
		savedIn := f.in
		f.in = map[*ssa.BasicBlock][]*edgeIn{}
		savedVals := map[ssa.Value]Val{}
		for k, v := range f.vals {
			savedVals[k] = v
		}
		r.dry++
		r.collect = append(r.collect, writes)
		st := entry.clone()
		for _, p := range phis {
			if _, isT := entryVals[p].(*Term); isT {
				f.vals[p] = r.fresh("dry", r.e.sortOf(p.Type()))
			}
		}
		// make written components opaque: iterate once with fresh versions is unnecessary for collecting
		f.active[h] = &loopCtx{info: li, head: st, ord: "dry"}
		f.runLoopBody(h, st, body)
		r.collect = r.collect[:len(r.collect)-1]
		r.dry--
		r.facts = r.facts[:nfacts]
		for _, k := range sortedTermKeys(r.init.m) {
			if !known[k] {
				r.fact(r.closed(k, r.init.m[k], r.now0())) // first met in the dry run
			}
		}
		r.obls = r.obls[:nobls]
		f.rets = f.rets[:nrets]
		f.in = savedIn
		f.vals = savedVals
		f.active[h] = nil
		for _, b := range body {
			delete(f.active, b)
		}
	}
	for _, c := range r.collect {
		for k := range writes {
			c[k] = true
		}
	}
	// 2. havoc
	head := entry.clone()
	for _, k := range sortedKeys(writes) {
		if strings.HasPrefix(k, "L:") || strings.HasPrefix(k, "I:") {
			if _, ok := entry.m[k]; !ok {
				continue // local to the body
			}
		}
		if k == "now" {
			n := r.fresh("now", "Int")
			r.assume(entry, Le(r.now(entry), n))
			head.m["now"] = n
			continue
		}
		head.m[k] = r.fresh(k, r.compSort[k])
		if strings.HasPrefix(k, "L:") {
			continue
		}
	}
	nowH := r.now(head)
	for _, k := range sortedKeys(writes) {
		if t, ok := head.m[k]; ok && k != "now" {
			if strings.HasPrefix(k, "L:") {
				r.assume(entry, r.closedVal(t, r.compGo[k], nowH))
			} else {
				r.assume(entry, r.closed(k, t, nowH))
			}
		}
	}
	if r.pure > 0 {
		r.unsup("loop in a pure context")
	}
	g := r.fresh("g_loop", "Bool")
	r.fact(Implies(g, entry.guard))
	head.guard = g
	headVals := map[*ssa.Phi]Val{}
	for _, p := range phis {
		if _, isT := entryVals[p].(*Term); !isT {
			headVals[p] = entryVals[p]
			continue
		}
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		t := r.fresh(nm, r.e.sortOf(p.Type()))
		headVals[p] = t
		r.assume(head, r.closedVal(t, p.Type(), nowH))
		f.vals[p] = t
	}
	r.loopN[shortFn(f.fn)]++
	ord := fmt.Sprintf("%s#%d", shortFn(f.fn), r.loopN[shortFn(f.fn)])
	if r.dry > 0 {
		ord = "dry"
	}
	ctx := &loopCtx{info: li, ord: ord, entry: entry, head: head, phis: phis}
	if r.dry == 0 {
		ctx.cands = r.invCands(f, ctx, entryVals, writes)
	}
	if r.dry == 0 && r.topC != nil {
		lb := f.loopBinders(ctx)
		var idxOf func(phi func(*ssa.Phi) Val) *Term
		if lb.idxPhi != nil {
			idxOf = func(phi func(*ssa.Phi) Val) *Term { return Add(phi(lb.idxPhi).(*Term), Int(lb.idxPlus)) }
		}
		for ci, c := range r.topC.Hints {
			if !r.active(c.Tags) {
				continue
			}
			r.poolCands(f, ctx, lb, idxOf, entryVals, ci, c, func(_, _ string, _ []string, ev func(*State, func(*ssa.Phi) Val) *Term) {
				a := ev(entry, func(p *ssa.Phi) Val { return entryVals[p] })
				b := ev(head, func(p *ssa.Phi) Val { return headVals[p] })
				r.assume(entry, a)
				if a != b {
					r.assume(head, b)
				}
			})
		}
	}
	for _, c := range ctx.cands {
		if r.dropped[c.key] {
			continue
		}
		ge := c.eval(entry, func(p *ssa.Phi) Val { return entryVals[p] })
		o := r.oblige(entry, "inv-init", "loop invariant established: "+c.desc, c.tags, ge)
		o.Cand = c.key
	}
	for _, c := range ctx.cands {
		if r.dropped[c.key] {
			continue
		}
		r.assume(head, c.eval(head, func(p *ssa.Phi) Val { return headVals[p] }))
	}
	f.active[h] = ctx
	f.runLoopBody(h, head, body)
	f.active[h] = nil
	delete(f.active, h)
}

func (f *frame) runLoopBody(h *ssa.BasicBlock, head *State, body []*ssa.BasicBlock) {
	f.runInstrs(h, head.clone())
	for _, b := range body {
		if b == h {
			continue
		}
		ins := f.in[b]
		if len(ins) == 0 {
			continue
		}
		delete(f.in, b)
		if li := f.loops[b]; li != nil {
			f.enterLoop(li, ins)
			continue
		}
		f.runBlock(b, ins)
	}
}

func (f *frame) backEdge(ctx *loopCtx, from *ssa.BasicBlock, st *State) {
	r := f.r
	if r.dry > 0 && ctx.ord == "dry" {
		return
	}
	h := ctx.info.header
	pi := predIndex(h, from)
	vals := map[*ssa.Phi]Val{}
	for _, p := range ctx.phis {
		vals[p] = f.valIn(p.Edges[pi], st)
		if _, ok := vals[p].(*Term); !ok {
			if !sameVal(vals[p], f.vals[p]) {
				r.unsup("non-term loop-carried value")
			}
		}
	}
	for _, c := range ctx.cands {
		if r.dropped[c.key] {
			continue
		}
		o := r.oblige(st, "inv-keep", "loop invariant preserved: "+c.desc, c.tags, c.eval(st, func(p *ssa.Phi) Val { return vals[p] }))
		o.Cand = c.key
	}
}

func sortedVals(m map[ssa.Value]Val) []ssa.Value {
	var out []ssa.Value
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// linkChanged assumes the lemma instances the contract asks for ("onlink COMPONENT : lemma") after a write to a component;
// elem is the object or set element written, old(...) the state before the write.
func (r *Run) linkChanged(comp string, elem *Term, was, is *State) {
	if r.topC == nil || r.dry > 0 || r.pure > 0 {
		return
	}
	for _, c := range r.topC.OnLink {
		if n, _ := r.compByName(c.Name); !r.active(c.Tags) || n != comp {
			continue
		}
		env := &Env{r: r, vars: map[string]SVal{}, st: is, old: was, pkg: r.topC.Pkg, inUse: true}
		for k, v := range r.topEnv {
			env.vars[k] = v
		}
		env.vars["elem"] = SVal{elem, refTy}
		r.assume(is, env.bool(c.E))
	}
}
