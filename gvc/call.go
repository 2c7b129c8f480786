package main

// Calls: builtins, natively modelled library functions, contracts, inlining.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (f *frame) call(ins *ssa.Call, st *State) *State {
	r := f.r
	com := ins.Common()
	var res []Val
	out := st
	if com.IsInvoke() {
		recv := f.val(com.Value, st)
		var args []Val
		for _, a := range com.Args {
			args = append(args, f.val(a, st))
		}
		res, out = r.invoke(recv, com.Value.Type(), com.Method, args, ins.Type(), st)
	} else {
		switch cv := com.Value.(type) {
		case *ssa.Builtin:
			var args []Val
			for _, a := range com.Args {
				args = append(args, f.val(a, st))
			}
			res, out = f.builtin(ins, cv.Name(), args, st)
		default:
			fv := f.val(com.Value, st)
			c, ok := fv.(*Closure)
			if !ok {
				r.unsup("call of an unknown function value")
			}
			var args []Val
			for _, a := range com.Args {
				args = append(args, f.val(a, st))
			}
			res, out = r.callFn(c.fn, args, c.binds, st)
		}
	}
	if out == nil {
		return nil
	}
	switch len(res) {
	case 0:
		f.vals[ins] = Tuple{}
	case 1:
		f.vals[ins] = res[0]
	default:
		f.vals[ins] = Tuple(res)
	}
	return out
}

// invoke: interface method call
func (r *Run) invoke(recv Val, it types.Type, m *types.Func, args []Val, rt types.Type, st *State) ([]Val, *State) {
	if el, ok := isMapset(it); ok {
		return r.mapsetCall(recv.(*Term), el, m.Name(), args, rt, st)
	}
	rv := r.term(recv, it, st)
	if rv.sort == "Ref" {
		n, im, ok := r.e.refIface(it)
		if ok && len(im) == 1 {
			r.safe(st, "nil interface value", Ne(rv, tNil))
			sel := r.e.prog.MethodSets.MethodSet(im[0]).Lookup(m.Pkg(), m.Name())
			fn := r.e.prog.MethodValue(sel)
			r.e.assumed["closed world: every value of interface "+typeKey(n)+" is a "+typeKey(im[0])+" of this repository"] = true
			return r.callFn(fn, append([]Val{rv}, args...), nil, st)
		}
		if ok {
			if c := r.e.spec.contract(typeKey(n) + "." + m.Name()); c != nil {
				r.safe(st, "nil interface value", Ne(rv, tNil))
				return r.applyContract(c, append([]Val{rv}, args...), st)
			}
		}
		r.unsup("dynamic call %s.%s", it, m.Name())
	}
	// value-boxed interfaces
	if strings.HasPrefix(rv.op, "box:") {
		k := rv.op[4:]
		for t := range r.e.boxTypes() {
			if typeKey(t) == k {
				sel := r.e.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
				if sel != nil {
					fn := r.e.prog.MethodValue(sel)
					return r.callFn(fn, append([]Val{rv.args[0]}, args...), nil, st)
				}
			}
		}
	}
	// an interface of a library package: a method with a specification function of its name is a pure function of the value
	if n, ok := types.Unalias(it).(*types.Named); ok && len(args) == 0 {
		if fd := r.e.spec.Funs[strings.ReplaceAll(typeKey(n), ".", "_")+"_"+m.Name()]; fd != nil {
			r.safe(st, "nil interface value", Ne(rv, tNilAny))
			r.e.assumed["method "+m.Name()+" of "+typeKey(n)+" depends on the value alone and has no effect"] = true
			return []Val{App("f:"+fd.Name, r.e.stype(fd.Pkg, fd.Ret).sort, rv)}, st
		}
	}
	switch m.Name() {
	case "Error", "String":
		r.safe(st, "nil interface value", Ne(rv, tNilAny))
		r.e.assumed["calls of Error()/String() on error and fmt.Stringer values of unknown type have no effect and return"] = true
		return []Val{App("anystr:"+m.Name(), "Str", rv, r.fresh("strof", "Str"))}, st
	}
	r.unsup("dynamic call %s.%s", it, m.Name())
	return nil, nil
}

func (e *Engine) boxTypes() map[types.Type]bool {
	out := map[types.Type]bool{}
	for _, p := range e.pkgs {
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 {
					out[nt] = true
				}
			}
		}
	}
	return out
}

func (r *Run) callFn(fn *ssa.Function, args []Val, binds []Val, st *State) ([]Val, *State) {
	name := shortFn(fn)
	if c := r.e.spec.contract(name); c != nil && !c.Inline && !(r.topC != nil && r.topC.InlineSet[name]) && !(r.pure > 0 && !c.Pure && c.Injective == "" && !c.Trusted) {
		return r.applyContract(c, args, st)
	}
	if res, out, ok := r.native(fn, name, args, st); ok {
		return res, out
	}
	if fn.Pkg != nil && !strings.HasPrefix(fn.Pkg.Pkg.Path(), repoPrefix) || len(fn.Blocks) == 0 || fn.Pkg == nil && fn.Origin() != nil && fn.Origin().Pkg != nil && !strings.HasPrefix(fn.Origin().Pkg.Pkg.Path(), repoPrefix) {
		return r.external(fn, name, args, st)
	}
	if strings.HasPrefix(name, "grammar.") && strings.Contains(r.posFile(fn), "grammar.peg.go") {
		r.unsup("generated parser function %s", name)
	}
	r.inlined[name] = true
	return r.evalFunc(fn, args, binds, st)
}

func (r *Run) posFile(fn *ssa.Function) string {
	return r.e.prog.Fset.Position(fn.Pos()).Filename
}

var pureExternalPkgs = map[string]bool{"fmt": true, "strings": true, "strconv": true, "encoding/json": true, "errors": true, "unicode": true, "path/filepath": true, "path": true, "sort": true, "slices": true, "math": true, "bytes": true, "maps": true}

func (r *Run) external(fn *ssa.Function, name string, args []Val, st *State) ([]Val, *State) {
	pk := ""
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg.Path()
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		pk = fn.Origin().Pkg.Pkg.Path()
	}
	if !pureExternalPkgs[pk] || strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "slices.Sort") || strings.HasPrefix(name, "slices.") || strings.HasPrefix(name, "maps.") {
		r.unsup("external function %s has no contract", fn.String())
	}
	r.e.assumed["external function "+fn.String()+" returns, does not modify repository state; result unconstrained"] = true
	rs := fn.Signature.Results()
	// deterministic if all arguments are scalars
	var ts []*Term
	det := len(args) > 0
	for _, a := range args {
		t, ok := a.(*Term)
		if !ok || (t.sort != "Str" && t.sort != "Int" && t.sort != "Bool") {
			det = false
			break
		}
		ts = append(ts, t)
	}
	var res []Val
	for i := 0; i < rs.Len(); i++ {
		s := r.e.sortOf(rs.At(i).Type())
		if det && (s == "Str" || s == "Int" || s == "Bool" || s == "Any") {
			res = append(res, App("ext:"+name+"."+string(rune('0'+i)), s, ts...))
			continue
		}
		if s == "Ref" || s == "Slice" {
			n := r.fresh("now", "Int")
			r.assume(st, Le(r.now(st), n))
			if r.pure == 0 {
				r.set(st, "now", n)
			}
		}
		t := r.fresh("ext_"+fn.Name(), s)
		r.assume(st, r.closedVal(t, rs.At(i).Type(), r.now(st)))
		res = append(res, t)
	}
	if name == "fmt.Errorf" {
		r.assume(st, Ne(res[0].(*Term), tNilAny))
	}
	return res, st
}

// --- builtins ---

func (f *frame) builtin(ins *ssa.Call, name string, args []Val, st *State) ([]Val, *State) {
	r := f.r
	argT := func(i int) types.Type { return ins.Call.Args[i].Type() }
	switch name {
	case "len":
		x := r.term(args[0], nil, st)
		switch u := argT(0).Underlying().(type) {
		case *types.Slice:
			return []Val{slLen(x)}, st
		case *types.Map:
			dn, _ := r.mapComps(u)
			d := Select(r.get(st, dn), x)
			return []Val{Ite(Eq(x, tNil), Int(0), r.card(d, st))}, st
		case *types.Basic:
			return []Val{slenT(x)}, st
		}
	case "cap":
		return []Val{slCap(r.term(args[0], nil, st))}, st
	case "append":
		s := r.term(args[0], nil, st)
		et := argT(0).Underlying().(*types.Slice).Elem()
		if b, ok := argT(1).Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			r.unsup("append of a string")
		}
		x := r.term(args[1], nil, st)
		return []Val{r.appendOp(s, x, et, st)}, st
	case "delete":
		mt := argT(0).Underlying().(*types.Map)
		m := r.term(args[0], nil, st)
		k := r.term(args[1], nil, st)
		dn, _ := r.mapComps(mt)
		d := r.get(st, dn)
		// delete on a nil map is a no-op
		nd := StoreT(d, m, StoreT(Select(d, m), k, TFalse))
		r.set(st, dn, nd)
		return nil, st
	case "copy":
		r.unsup("copy")
	case "print", "println":
		return nil, st
	case "min", "max":
		a, b := r.term(args[0], nil, st), r.term(args[1], nil, st)
		if len(args) == 2 && a.sort == "Int" {
			if name == "min" {
				return []Val{Ite(Le(a, b), a, b)}, st
			}
			return []Val{Ite(Le(a, b), b, a)}, st
		}
	case "clear":
		if mt, ok := argT(0).Underlying().(*types.Map); ok {
			m := r.term(args[0], nil, st)
			dn, _ := r.mapComps(mt)
			d := r.get(st, dn)
			r.set(st, dn, StoreT(d, m, r.e.zero(Select(d, m).sort)))
			return nil, st
		}
	case "ssa:wrapnilchk":
		return []Val{args[0]}, st
	}
	r.unsup("builtin %s", name)
	return nil, nil
}

// card: number of elements of a finite set given as an array to Bool
func (r *Run) card(d *Term, st *State) *Term {
	ks, _ := arrayParts(d.sort)
	c := App("card:"+ks, "Int", d)
	r.assume(st, Le(Int(0), c))
	e := App("cardw:"+ks, ks, d)
	x := BV("x", ks)
	r.assume(st, Implies(Ne(c, Int(0)), Select(d, e)))
	r.assume(st, Implies(Eq(c, Int(0)), Forall([]*Term{x}, Not(Select(d, x)), []*Term{Select(d, x)})))
	return c
}

// appendOp models append(s, x...)
func (r *Run) appendOp(s, x *Term, et types.Type, st *State) *Term {
	if r.pure > 0 {
		r.unsup("append in a pure context")
	}
	c, cs := r.e.compElem(et)
	r.noteComp(c, cs, et)
	E := r.get(st, c)
	ls, lx := slLen(s), slLen(x)
	if n, ok := isInt(lx); ok && n == 0 {
		return s
	}
	nl := Add(ls, lx)
	if _, ok := isInt(lx); !ok {
		// unknown number of elements
		nl = mk("+", "Int", ls, lx)
	}
	fits := Le(nl, slCap(s))
	nw := r.alloc(st, "grow")
	es := r.e.sortOf(et)
	base := Select(E, slArr(s))
	var na *Term
	if n, ok := isInt(lx); ok && n <= 4 {
		na = base
		for i := int64(0); i < n; i++ {
			na = StoreT(na, Add(ls, Int(i)), Select(Select(E, slArr(x)), Int(i)))
		}
		if strings.HasPrefix(s.op, "c:appres") {
			// follows from the theory of arrays; makes the elements of the first append visible in the second
			pn := r.fresh("appended", ArraySort("Int", es))
			r.assume(st, Eq(pn, na))
			na = pn
			j := BV("j", "Int")
			r.assume(st, Forall([]*Term{j}, Implies(And(Le(Int(0), j), Lt(j, ls)), Eq(Select(na, j), Select(base, j))), []*Term{Select(base, j)}))
		}
	} else {
		na = r.fresh("appended", ArraySort("Int", es))
		i := BV("i", "Int")
		j := BV("j", "Int")
		ex := Select(E, slArr(x))
		r.assume(st, Forall([]*Term{i}, Implies(Or(Lt(i, ls), Le(nl, i)), Eq(Select(na, i), Select(base, i))), []*Term{Select(na, i)}))
		r.assume(st, Forall([]*Term{i}, Implies(And(Le(ls, i), Lt(i, nl)), Eq(Select(na, i), Select(ex, Sub(i, ls)))), []*Term{Select(na, i)}))
		r.assume(st, Forall([]*Term{j}, Implies(And(Le(Int(0), j), Lt(j, ls)), Eq(Select(na, j), Select(base, j))), []*Term{Select(base, j)}))
		r.assume(st, Forall([]*Term{j}, Implies(And(Le(Int(0), j), Lt(j, lx)), Eq(Select(na, Add(ls, j)), Select(ex, j))), []*Term{Select(ex, j)}))
	}
	if fits == TFalse || slCap(s) == Int(0) {
		fits = TFalse
	}
	if r.freshSlice(s) {
		// the backing array is reachable only through this slice value: growing in place and
		// reallocating cannot be distinguished (only used when ownership is syntactically evident)
	}
	arr := Ite(And(fits, Not(Eq(lx, Int(0)))), slArr(s), nw)
	if !(fits == TFalse) {
		if len(arr.args) > 0 {
			ac := r.fresh("apparr", "Ref")
			r.assume(st, Eq(ac, arr))
			arr = ac
		}
	}
	cp := r.fresh("cap", "Int")
	if fits == TFalse {
		r.assume(st, Le(nl, cp))
	} else {
		r.assume(st, And(Le(nl, cp), Implies(fits, Eq(cp, slCap(s)))))
	}
	if _, ok := isInt(lx); !ok {
		// append(s, empty...) returns s itself
		res := r.fresh("appres", "Slice")
		r.assume(st, Implies(Eq(lx, Int(0)), Eq(res, s)))
		r.assume(st, Implies(Ne(lx, Int(0)), Eq(res, mkSlice(arr, nl, cp))))
		ne := r.fresh(c, cs)
		r.assume(st, Eq(ne, Ite(Eq(lx, Int(0)), E, StoreT(E, arr, na))))
		r.set(st, c, ne)
		return res
	}
	r.set(st, c, StoreT(E, arr, na))
	return mkSlice(arr, nl, cp)
}

func (r *Run) freshSlice(s *Term) bool { return false }

// --- natives ---

func (r *Run) setComp(el types.Type) string {
	c, s := r.e.compSet(el)
	r.noteComp(c, s, el)
	return c
}

func (r *Run) mapsetCall(s *Term, el types.Type, m string, args []Val, rt types.Type, st *State) ([]Val, *State) {
	c := r.setComp(el)
	r.e.assumed["golang-set (mapset): sets behave as mathematical finite sets (Add, Remove, Contains, Cardinality, IsEmpty, ToSlice, Iter order arbitrary)"] = true
	r.safe(st, "nil set", Ne(s, tNil))
	S := r.get(st, c)
	switch m {
	case "Add":
		x := r.term(args[0], el, st)
		old := Select(Select(S, s), x)
		was := st.clone()
		r.set(st, c, StoreT(S, s, StoreT(Select(S, s), x, TTrue)))
		r.linkChanged(c, x, was, st)
		return []Val{Not(old)}, st
	case "Remove":
		x := r.term(args[0], el, st)
		was := st.clone()
		r.set(st, c, StoreT(S, s, StoreT(Select(S, s), x, TFalse)))
		r.linkChanged(c, x, was, st)
		return nil, st
	case "Contains", "ContainsOne":
		var x *Term
		if m == "ContainsOne" {
			x = r.term(args[0], el, st)
			return []Val{Select(Select(S, s), x)}, st
		}
		sl := r.term(args[0], nil, st)
		ec, es := r.e.compElem(el)
		r.noteComp(ec, es, el)
		E := Select(r.get(st, ec), slArr(sl))
		if n, ok := isInt(slLen(sl)); ok && n <= 3 {
			g := TTrue
			for i := int64(0); i < n; i++ {
				g = And(g, Select(Select(S, s), Select(E, Int(i))))
			}
			return []Val{g}, st
		}
		i := BV("i", "Int")
		b := r.fresh("contains", "Bool")
		r.assume(st, Eq(b, Forall([]*Term{i}, Implies(And(Le(Int(0), i), Lt(i, slLen(sl))), Select(Select(S, s), Select(E, i))))))
		return []Val{b}, st
	case "Cardinality":
		return []Val{r.card(Select(S, s), st)}, st
	case "IsEmpty":
		return []Val{Eq(r.card(Select(S, s), st), Int(0))}, st
	case "ToSlice":
		return []Val{r.enumSet(Select(S, s), el, st)}, st
	case "Clone":
		ref := r.alloc(st, "set")
		r.set(st, c, StoreT(r.get(st, c), ref, Select(S, s)))
		return []Val{ref}, st
	case "Clear":
		r.set(st, c, StoreT(S, s, r.e.zero(Select(S, s).sort)))
		return nil, st
	}
	r.unsup("mapset method %s", m)
	return nil, nil
}

// enumSet returns a fresh slice enumerating the finite set d once each.
func (r *Run) enumSet(d *Term, el types.Type, st *State) *Term {
	ec, es := r.e.compElem(el)
	r.noteComp(ec, es, el)
	ref := r.alloc(st, "enum")
	ks, _ := arrayParts(d.sort)
	A := r.fresh("enum", ArraySort("Int", ks))
	n := r.card(d, st)
	cp := r.fresh("cap", "Int")
	r.assume(st, Le(n, cp))
	i, j, x := BV("i", "Int"), BV("j", "Int"), BV("x", ks)
	inr := func(t *Term) *Term { return And(Le(Int(0), t), Lt(t, n)) }
	r.assume(st, Forall([]*Term{i}, Implies(inr(i), Select(d, Select(A, i))), []*Term{Select(A, i)}))
	r.assume(st, Forall([]*Term{i, j}, Implies(And(inr(i), inr(j), Eq(Select(A, i), Select(A, j))), Eq(i, j)), []*Term{Select(A, i), Select(A, j)}))
	pos := App("pos:"+ks, "Int", A, x)
	r.assume(st, Forall([]*Term{x}, Implies(Select(d, x), And(inr(pos), Eq(Select(A, pos), x))), []*Term{Select(d, x)}))
	E := r.get(st, ec)
	r.set(st, ec, StoreT(E, ref, A))
	return mkSlice(ref, n, cp)
}

func (r *Run) native(fn *ssa.Function, name string, args []Val, st *State) ([]Val, *State, bool) {
	oname := name
	if i := strings.Index(oname, "["); i >= 0 {
		oname = oname[:i]
	}
	if o := fn.Origin(); o != nil {
		oname = shortFn(o)
	}
	pk := ""
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg.Path()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		pk = o.Pkg.Pkg.Path()
	}
	t := func(i int) *Term { return r.term(args[i], nil, st) }
	switch {
	case strings.HasPrefix(pk, "github.com/deckarep/golang-set"):
		if strings.HasPrefix(oname, "mapset.NewSet") || strings.HasPrefix(oname, "mapset.NewThreadUnsafeSet") {
			el := fn.Signature.Results().At(0).Type()
			et, _ := isMapset(el)
			c := r.setComp(et)
			ref := r.alloc(st, "set")
			r.assumeZero(st, c, ref)
			if len(args) > 0 {
				sl := t(0)
				ec, es := r.e.compElem(et)
				r.noteComp(ec, es, et)
				E := Select(r.get(st, ec), slArr(sl))
				n, ok := isInt(slLen(sl))
				if !ok {
					r.unsup("NewSet with a slice of unknown length")
				}
				for i := int64(0); i < n; i++ {
					S := r.get(st, c)
					r.set(st, c, StoreT(S, ref, StoreT(Select(S, ref), Select(E, Int(i)), TTrue)))
				}
			}
			return []Val{ref}, st, true
		}
	}
	switch oname {
	case "slices.Contains":
		sl := t(0)
		x := t(1)
		et := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		ec, es := r.e.compElem(et)
		r.noteComp(ec, es, et)
		E := Select(r.get(st, ec), slArr(sl))
		i := BV("i", "Int")
		j := App("cpos:"+x.sort, "Int", E, slLen(sl), x)
		b := r.fresh("contains", "Bool")
		if r.pure > 0 {
			r.unsup("slices.Contains in a pure context")
		}
		inr := And(Le(Int(0), j), Lt(j, slLen(sl)))
		r.assume(st, Implies(b, And(inr, Eq(Select(E, j), x))))
		r.assume(st, Implies(Not(b), Forall([]*Term{i}, Implies(And(Le(Int(0), i), Lt(i, slLen(sl))), Ne(Select(E, i), x)), []*Term{Select(E, i)})))
		r.e.assumed["slices.Contains / slices.Sort / sort.Slice behave as documented"] = true
		return []Val{b}, st, true
	case "strconv.Itoa":
		r.e.assumed["strconv.Itoa and strconv.Atoi are inverse on the values used"] = true
		return []Val{itoa(t(0))}, st, true
	case "strconv.Atoi":
		s := t(0)
		r.e.assumed["strconv.Itoa and strconv.Atoi are inverse on the values used"] = true
		ok := App("atoiOk", "Bool", s)
		if v, isl := litVal[s.op]; isl {
			if n, good := atoiLit(v); good {
				return []Val{Int(n), tNilAny}, st, true
			}
			ok = TFalse
		}
		e := App("atoiErr", "Any", s)
		r.fact(Implies(st.guard, Ne(e, tNilAny)))
		return []Val{Ite(ok, App("atoiVal", "Int", s), Int(0)), Ite(ok, tNilAny, e)}, st, true
	case "sort.Slice", "sort.SliceStable":
		return r.sortSlice(args, st)
	case "slices.Sort":
		return r.slicesSort(fn, args, st)
	case "fmt.Sprintf":
		if v := r.sprintf(args, st); v != nil {
			return []Val{v}, st, true
		}
	case "strings.Join":
		r.e.assumed["strings.Join concatenates; result unconstrained here"] = true
		return []Val{r.fresh("joined", "Str")}, st, true
	}
	return nil, nil, false
}

func itoa(n *Term) *Term { return App("itoa", "Str", n) }

func atoiLit(s string) (int64, bool) {
	var n int64
	if s == "" {
		return 0, false
	}
	i := 0
	neg := false
	if s[0] == '-' || s[0] == '+' {
		neg = s[0] == '-'
		i = 1
		if len(s) == 1 {
			return 0, false
		}
	}
	for ; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		n = n*10 + int64(s[i]-'0')
		if n > 1<<40 {
			return 0, false
		}
	}
	if neg {
		n = -n
	}
	return n, true
}

// permuted: fresh contents for slice sl that are a permutation of the old contents.
func (r *Run) permute(sl *Term, et types.Type, st *State) (oldA, newA *Term) {
	ec, es := r.e.compElem(et)
	r.noteComp(ec, es, et)
	E := r.get(st, ec)
	A := Select(E, slArr(sl))
	s := r.e.sortOf(et)
	B := r.fresh("sorted", ArraySort("Int", s))
	n := slLen(sl)
	p := func(i *Term) *Term { return App("perm:"+s, "Int", A, B, i) }  // index in A of B[i]
	q := func(i *Term) *Term { return App("permi:"+s, "Int", A, B, i) } // index in B of A[i]
	inr := func(t *Term) *Term { return And(Le(Int(0), t), Lt(t, n)) }
	i := BV("i", "Int")
	r.assume(st, Forall([]*Term{i}, Implies(inr(i), And(inr(p(i)), Eq(Select(B, i), Select(A, p(i))), Eq(q(p(i)), i))), []*Term{Select(B, i)}))
	r.assume(st, Forall([]*Term{i}, Implies(inr(i), And(inr(q(i)), Eq(Select(A, i), Select(B, q(i))), Eq(p(q(i)), i))), []*Term{Select(A, i)}))
	r.assume(st, Forall([]*Term{i}, Implies(Not(inr(i)), Eq(Select(A, i), Select(B, i))), []*Term{Select(B, i)}))
	r.set(st, ec, StoreT(E, slArr(sl), B))
	return A, B
}

func (r *Run) sortSlice(args []Val, st *State) ([]Val, *State, bool) {
	x := r.term(args[0], nil, st)
	cl, ok := args[1].(*Closure)
	if !ok {
		r.unsup("sort.Slice with an unknown comparison")
	}
	if !strings.HasPrefix(x.op, "box:[]") {
		r.unsup("sort.Slice of a value of unknown type")
	}
	sl := x.args[0]
	et := r.sliceTypeByKey(x.op[4:])
	if et == nil {
		r.unsup("sort.Slice element type %s", x.op)
	}
	r.e.assumed["slices.Contains / slices.Sort / sort.Slice behave as documented"] = true
	// the comparison may be called on any two elements in any arrangement
	if r.safety && r.dry == 0 {
		a, b := r.fresh("at", "Int"), r.fresh("at", "Int")
		in := And(Le(Int(0), a), Lt(a, slLen(sl)), Le(Int(0), b), Lt(b, slLen(sl)))
		st3 := st.clone()
		r.permute(sl, et, st3)
		st3.guard = And(st.guard, in)
		r.callFn(cl.fn, []Val{a, b}, cl.binds, st3)
	}
	_, B := r.permute(sl, et, st)
	// evaluate less(i,j) at bound indices in the sorted state
	i, j := BV("i", "Int"), BV("j", "Int")
	r.pure++
	nf := len(r.facts)
	st2 := st.clone()
	res, _ := r.callFn(cl.fn, []Val{i, j}, cl.binds, st2)
	r.facts = r.facts[:nf]
	r.pure--
	less := res[0].(*Term)
	n := slLen(sl)
	rng := And(Le(Int(0), i), Lt(i, j), Lt(j, n))
	// sorted: not less(j,i) for i<j
	ge := Subst(less, map[*Term]*Term{i: j, j: i})
	r.assume(st, Forall([]*Term{i, j}, Implies(rng, Not(ge)), []*Term{Select(B, i), Select(B, j)}))
	return nil, st, true
}

var sliceTypes = map[string]types.Type{}

func (r *Run) sliceTypeByKey(k string) types.Type { return sliceTypes[k] }

func (r *Run) slicesSort(fn *ssa.Function, args []Val, st *State) ([]Val, *State, bool) {
	sl := r.term(args[0], nil, st)
	et := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
	_, B := r.permute(sl, et, st)
	i, j := BV("i", "Int"), BV("j", "Int")
	var le *Term
	if r.e.sortOf(et) == "Str" {
		le = Not(slt(Select(B, j), Select(B, i)))
	} else {
		le = Le(Select(B, i), Select(B, j))
	}
	r.assume(st, Forall([]*Term{i, j}, Implies(And(Le(Int(0), i), Lt(i, j), Lt(j, slLen(sl))), le), []*Term{Select(B, i), Select(B, j)}))
	return nil, st, true
}

// sprintf interprets a constant format of %s, %d and %v over strings and integers; %q and
// %t are kept as uninterpreted functions of their argument.
func (r *Run) sprintf(args []Val, st *State) *Term {
	ft, ok := args[0].(*Term)
	if !ok {
		return nil
	}
	format, isl := litVal[ft.op]
	if !isl || len(args) != 2 {
		return nil
	}
	sl, ok := args[1].(*Term)
	if !ok || sl.sort != "Slice" {
		return nil
	}
	et := types.Universe.Lookup("any").Type()
	ec, es := r.e.compElem(et)
	r.noteComp(ec, es, et)
	E := Select(r.get(st, ec), slArr(sl))
	out := tEmptyStr
	var acc []*Term
	n := int64(0)
	lit := ""
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			lit += string(format[i])
			continue
		}
		i++
		if i >= len(format) {
			return nil
		}
		if format[i] == '%' {
			lit += "%"
			continue
		}
		a := Select(E, Int(n))
		n++
		var x, piece *Term
		if strings.HasPrefix(a.op, "box:") {
			x = a.args[0]
		}
		switch {
		case x == nil:
			piece = r.fresh("text", "Str")
		case (format[i] == 's' || format[i] == 'v') && a.op == "box:string":
			piece = x
		case format[i] == 'd' && x.sort == "Int", format[i] == 'v' && a.op == "box:int":
			piece = itoa(x)
		case format[i] == 'q' && a.op == "box:string":
			piece = App("strquote", "Str", x)
		case format[i] == 't' && x.sort == "Bool", format[i] == 'v' && a.op == "box:bool":
			piece = Ite(x, StrLit("true"), StrLit("false"))
		default:
			piece = r.fresh("text", "Str")
		}
		if lit != "" {
			acc = append(acc, StrLit(lit))
			lit = ""
		}
		acc = append(acc, piece)
	}
	if lit != "" {
		acc = append(acc, StrLit(lit))
	}
	for i := len(acc) - 1; i >= 0; i-- {
		out = scat(acc[i], out)
	}
	r.e.assumed["fmt.Sprintf with a constant format concatenates its pieces (%s, %d, %v, %t of plain values; %q uninterpreted, other pieces any text)"] = true
	return out
}
