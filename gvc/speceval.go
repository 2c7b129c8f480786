package main

// Contract language: evaluation to SMT terms.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"
)

type SType struct {
	sort Sort
	gt   types.Type
	k, v *SType
}
type SVal struct {
	t  *Term // nil for the polymorphic nil
	ty *SType
}

type Env struct {
	r      *Run
	vars   map[string]SVal
	st     *State
	old    *State
	entry  *State
	labels map[string]*State
	pkg    string
	depth  int
	inUse  bool
}

func (e *Env) sub() *Env {
	n := *e
	n.vars = map[string]SVal{}
	for k, v := range e.vars {
		n.vars[k] = v
	}
	return &n
}

type specErr struct{ msg string }

func specFail(f string, a ...any) { panic(specErr{fmt.Sprintf(f, a...)}) }

// localType: a type declared inside a function of package p, when only one has that name.
func (e *Engine) localType(p, n string) types.Type {
	tp := e.tpkgs[p]
	if tp == nil {
		return nil
	}
	var found types.Type
	var walk func(s *types.Scope)
	walk = func(s *types.Scope) {
		for i := 0; i < s.NumChildren(); i++ {
			c := s.Child(i)
			if o, ok := c.Lookup(n).(*types.TypeName); ok && found == nil {
				found = o.Type()
			}
			walk(c)
		}
	}
	walk(tp.Scope())
	return found
}

func (e *Engine) goTypeByName(pkg, name string) types.Type {
	p := pkg
	n := name
	if i := strings.Index(name, "."); i >= 0 {
		p, n = name[:i], name[i+1:]
	}
	if tp := e.tpkgs[p]; tp != nil {
		if o, ok := tp.Scope().Lookup(n).(*types.TypeName); ok {
			return o.Type()
		}
	}
	if o, ok := types.Universe.Lookup(name).(*types.TypeName); ok {
		return o.Type()
	}
	if t := e.localType(p, n); t != nil {
		return t
	}
	specFail("unknown type %s (package %s)", name, pkg)
	return nil
}

func (e *Engine) stype(pkg string, t *TypeExpr) *SType {
	if t.Kind == "name" {
		switch t.Name {
		case "ref":
			return &SType{sort: "Ref"}
		case "int":
			return &SType{sort: "Int", gt: types.Typ[types.Int]}
		case "bool":
			return &SType{sort: "Bool", gt: types.Typ[types.Bool]}
		case "str", "string":
			return &SType{sort: "Str", gt: types.Typ[types.String]}
		case "any":
			return &SType{sort: "Any"}
		}
	}
	if t.Kind == "array" {
		k, v := e.stype(pkg, t.Args[0]), e.stype(pkg, t.Args[1])
		return &SType{sort: ArraySort(k.sort, v.sort), k: k, v: v}
	}
	g := e.gotype(pkg, t)
	return e.stypeOf(g)
}

func (e *Engine) stypeOf(g types.Type) *SType { return &SType{sort: e.sortOf(g), gt: g} }

func (e *Engine) gotype(pkg string, t *TypeExpr) types.Type {
	switch t.Kind {
	case "ptr":
		return types.NewPointer(e.gotype(pkg, t.Args[0]))
	case "slice":
		return types.NewSlice(e.gotype(pkg, t.Args[0]))
	case "map":
		return types.NewMap(e.gotype(pkg, t.Args[0]), e.gotype(pkg, t.Args[1]))
	case "set":
		el := e.gotype(pkg, t.Args[0])
		o := e.tpkgs["mapset"].Scope().Lookup("Set").Type()
		it, err := types.Instantiate(types.NewContext(), o, []types.Type{el}, false)
		if err != nil {
			specFail("set type: %v", err)
		}
		return it
	case "generic":
		o := e.goTypeByName(pkg, t.Name)
		it, err := types.Instantiate(types.NewContext(), o, []types.Type{e.gotype(pkg, t.Args[0])}, false)
		if err != nil {
			specFail("type: %v", err)
		}
		return it
	}
	if t.Name == "str" {
		return types.Typ[types.String]
	}
	return e.goTypeByName(pkg, t.Name)
}

var boolTy = &SType{sort: "Bool", gt: types.Typ[types.Bool]}
var intTy = &SType{sort: "Int", gt: types.Typ[types.Int]}
var strTy = &SType{sort: "Str", gt: types.Typ[types.String]}
var refTy = &SType{sort: "Ref"}

func (e *Env) bool(x *Expr) *Term {
	v := e.eval(x)
	if v.t == nil || v.t.sort != "Bool" {
		specFail("boolean expected: %s", exprStr(x))
	}
	return v.t
}

func exprStr(x *Expr) string {
	switch x.Op {
	case "ident", "int":
		return x.Name
	case "str":
		return strconv.Quote(x.Name)
	case "field":
		return exprStr(x.Args[0]) + "." + x.Name
	case "call":
		var as []string
		for _, a := range x.Args {
			as = append(as, exprStr(a))
		}
		return x.Name + "(" + strings.Join(as, ", ") + ")"
	case "binary":
		return exprStr(x.Args[0]) + " " + x.Name + " " + exprStr(x.Args[1])
	}
	return x.Op
}

func (e *Env) coerceNil(v SVal, s Sort) *Term {
	if v.t != nil {
		return v.t
	}
	return e.r.e.zero(s)
}

func (e *Env) eval(x *Expr) SVal {
	e.depth++
	defer func() { e.depth-- }()
	if e.depth > 400 {
		specFail("spec expression too deep (recursive def?)")
	}
	r := e.r
	switch x.Op {
	case "int":
		n, _ := strconv.ParseInt(x.Name, 10, 64)
		return SVal{Int(n), intTy}
	case "str":
		return SVal{StrLit(x.Name), strTy}
	case "ident":
		return e.ident(x)
	case "unary":
		switch x.Name {
		case "!":
			return SVal{Not(e.bool(x.Args[0])), boolTy}
		case "-":
			return SVal{Sub(Int(0), e.eval(x.Args[0]).t), intTy}
		case "*":
			v := e.eval(x.Args[0])
			pt, ok := v.ty.gt.Underlying().(*types.Pointer)
			if !ok {
				specFail("deref of non-pointer %s", exprStr(x))
			}
			return SVal{r.loadRef(v.t, pt.Elem(), e.st), r.e.stypeOf(pt.Elem())}
		}
	case "binary":
		return e.binary(x)
	case "let":
		v := e.eval(x.Args[0])
		n := e.sub()
		n.vars[x.Name] = v
		return n.eval(x.Args[1])
	case "forall", "exists":
		n := e.sub()
		var bvs []*Term
		for _, vd := range x.Vars {
			ty := r.e.stype(e.pkg, vd.Type)
			b := BV(vd.Name, ty.sort)
			bvs = append(bvs, b)
			n.vars[vd.Name] = SVal{b, ty}
		}
		body := n.bool(x.Args[0])
		var pats [][]*Term
		for _, ps := range x.Pats {
			var ts []*Term
			for _, p := range ps {
				t := n.eval(p).t
				ts = append(ts, t)
			}
			pats = append(pats, ts)
		}
		return SVal{Quant(x.Op, bvs, body, pats...), boolTy}
	case "field":
		return e.field(e.eval(x.Args[0]), x.Name, x)
	case "index":
		b, i := e.eval(x.Args[0]), e.eval(x.Args[1])
		if b.ty.k != nil {
			return SVal{Select(b.t, e.coerceNil(i, b.ty.k.sort)), b.ty.v}
		}
		if b.ty.gt != nil {
			switch u := b.ty.gt.Underlying().(type) {
			case *types.Slice:
				c, s := r.e.compElem(u.Elem())
				r.noteComp(c, s, u.Elem())
				return SVal{Select(Select(r.get(e.st, c), slArr(b.t)), i.t), r.e.stypeOf(u.Elem())}
			case *types.Map:
				dn, vn := r.mapComps(u)
				ok := Select(Select(r.get(e.st, dn), b.t), i.t)
				v := Select(Select(r.get(e.st, vn), b.t), i.t)
				return SVal{Ite(ok, v, r.e.zero(v.sort)), r.e.stypeOf(u.Elem())}
			}
		}
		specFail("cannot index %s", exprStr(x.Args[0]))
	case "call":
		return e.call(x)
	}
	specFail("bad expression %s", x.Op)
	return SVal{}
}

func (e *Env) ident(x *Expr) SVal {
	r := e.r
	switch x.Name {
	case "true":
		return SVal{TTrue, boolTy}
	case "false":
		return SVal{TFalse, boolTy}
	case "nil":
		return SVal{nil, &SType{}}
	}
	if v, ok := e.vars[x.Name]; ok {
		return v
	}
	if tp := r.e.tpkgs[e.pkg]; tp != nil {
		switch o := tp.Scope().Lookup(x.Name).(type) {
		case *types.Const:
			ty := r.e.stypeOf(o.Type())
			switch o.Val().Kind() {
			case constant.Int:
				n, _ := constant.Int64Val(o.Val())
				return SVal{Int(n), ty}
			case constant.String:
				return SVal{StrLit(constant.StringVal(o.Val())), ty}
			case constant.Bool:
				if constant.BoolVal(o.Val()) {
					return SVal{TTrue, ty}
				}
				return SVal{TFalse, ty}
			}
		case *types.Var:
			name := "G:" + e.pkg + "." + x.Name
			r.noteComp(name, r.e.sortOf(o.Type()), o.Type())
			return SVal{r.get(e.st, name), r.e.stypeOf(o.Type())}
		}
	}
	if t := r.e.spec.Ghosts[x.Name]; t != nil {
		ty := r.e.stype(e.pkg, t)
		name := "G:ghost." + x.Name
		r.noteComp(name, ty.sort, nil)
		return SVal{r.get(e.st, name), ty}
	}
	specFail("unknown identifier %s", x.Name)
	return SVal{}
}

// structOf returns the struct type behind gt (value, pointer, or closed-world interface).
func (e *Env) ptrElem(gt types.Type) types.Type {
	if gt == nil {
		return nil
	}
	if p, ok := gt.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	if _, im, ok := e.r.e.refIface(gt); ok && len(im) == 1 {
		return im[0].(*types.Pointer).Elem()
	}
	return nil
}

func (e *Env) field(b SVal, name string, x *Expr) SVal {
	r := e.r
	if b.ty == nil || b.ty.gt == nil {
		specFail("field %s of untyped %s", name, exprStr(x.Args[0]))
	}
	if pe := e.ptrElem(b.ty.gt); pe != nil {
		st, ok := pe.Underlying().(*types.Struct)
		if !ok {
			specFail("field %s of %s", name, b.ty.gt)
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				c, s := r.e.compField(pe, i)
				r.noteComp(c, s, st.Field(i).Type())
				return SVal{Select(r.get(e.st, c), b.t), r.e.stypeOf(st.Field(i).Type())}
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() {
				c, s := r.e.compField(pe, i)
				r.noteComp(c, s, st.Field(i).Type())
				in := SVal{Select(r.get(e.st, c), b.t), r.e.stypeOf(st.Field(i).Type())}
				if hasField(st.Field(i).Type(), name) {
					return e.field(in, name, x)
				}
			}
		}
		specFail("no field %s in %s", name, pe)
	}
	if st, ok := b.ty.gt.Underlying().(*types.Struct); ok {
		dt := r.e.structDT(b.ty.gt)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return SVal{dtField(dt, b.t, i), r.e.stypeOf(st.Field(i).Type())}
			}
		}
	}
	specFail("no field %s in %s", name, b.ty.gt)
	return SVal{}
}

func hasField(t types.Type, name string) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return true
		}
	}
	return false
}

func (e *Env) binary(x *Expr) SVal {
	switch x.Name {
	case "&&":
		return SVal{And(e.bool(x.Args[0]), e.bool(x.Args[1])), boolTy}
	case "||":
		return SVal{Or(e.bool(x.Args[0]), e.bool(x.Args[1])), boolTy}
	case "==>":
		return SVal{Implies(e.bool(x.Args[0]), e.bool(x.Args[1])), boolTy}
	case "<==>":
		return SVal{Eq(e.bool(x.Args[0]), e.bool(x.Args[1])), boolTy}
	}
	a, b := e.eval(x.Args[0]), e.eval(x.Args[1])
	switch x.Name {
	case "==", "!=":
		var t *Term
		if a.t == nil && b.t == nil {
			t = TTrue
		} else if a.t == nil || b.t == nil {
			v := a
			if a.t == nil {
				v = b
			}
			if v.t.sort == "Slice" {
				t = Eq(slArr(v.t), tNil)
			} else {
				t = Eq(v.t, e.r.e.zero(v.t.sort))
			}
		} else {
			if a.t.sort != b.t.sort {
				specFail("sort mismatch %s vs %s in %s", a.t.sort, b.t.sort, exprStr(x))
			}
			t = Eq(a.t, b.t)
		}
		if x.Name == "!=" {
			t = Not(t)
		}
		return SVal{t, boolTy}
	case "in", "!in":
		t := e.member(a, b, x)
		if x.Name == "!in" {
			t = Not(t)
		}
		return SVal{t, boolTy}
	}
	if a.t.sort == "Str" {
		switch x.Name {
		case "<":
			return SVal{slt(a.t, b.t), boolTy}
		case "+":
			return SVal{scat(a.t, b.t), strTy}
		}
	}
	if a.t.sort != "Int" || b.t.sort != "Int" {
		specFail("integer operands expected in %s", exprStr(x))
	}
	switch x.Name {
	case "<":
		return SVal{Lt(a.t, b.t), boolTy}
	case "<=":
		return SVal{Le(a.t, b.t), boolTy}
	case ">":
		return SVal{Lt(b.t, a.t), boolTy}
	case ">=":
		return SVal{Le(b.t, a.t), boolTy}
	case "+":
		return SVal{Add(a.t, b.t), intTy}
	case "-":
		return SVal{Sub(a.t, b.t), intTy}
	}
	specFail("operator %s", x.Name)
	return SVal{}
}

func (e *Env) member(a, b SVal, x *Expr) *Term {
	r := e.r
	if b.ty.k != nil {
		return Select(b.t, e.coerceNil(a, b.ty.k.sort))
	}
	if b.ty.gt != nil {
		if el, ok := isMapset(b.ty.gt); ok {
			return Select(Select(r.get(e.st, r.setComp(el)), b.t), a.t)
		}
		if mt, ok := b.ty.gt.Underlying().(*types.Map); ok {
			dn, _ := r.mapComps(mt)
			return Select(Select(r.get(e.st, dn), b.t), a.t)
		}
	}
	specFail("'in' over %s", exprStr(x.Args[1]))
	return nil
}

func (e *Env) call(x *Expr) SVal {
	r := e.r
	arg := func(i int) SVal {
		if i >= len(x.Args) {
			specFail("missing argument in %s", exprStr(x))
		}
		return e.eval(x.Args[i])
	}
	switch x.Name {
	case "old":
		n := e.sub()
		if e.old == nil {
			specFail("old() not available")
		}
		n.st = e.old
		return n.eval(x.Args[0])
	case "entry":
		n := e.sub()
		if e.entry == nil {
			specFail("entry() not available")
		}
		n.st = e.entry
		return n.eval(x.Args[0])
	case "at":
		n := e.sub()
		l := e.labels[x.Args[0].Name]
		if l == nil {
			specFail("unknown label %s", x.Args[0].Name)
		}
		n.st = l
		return n.eval(x.Args[1])
	case "len":
		v := arg(0)
		if v.t.sort == "Slice" {
			return SVal{slLen(v.t), intTy}
		}
		if v.t.sort == "Str" {
			return SVal{slenT(v.t), intTy}
		}
		if mt, ok := v.ty.gt.Underlying().(*types.Map); ok {
			dn, _ := r.mapComps(mt)
			d := Select(r.get(e.st, dn), v.t)
			return SVal{App("card:"+r.e.sortOf(mt.Key()), "Int", d), intTy}
		}
	case "cap":
		return SVal{slCap(arg(0).t), intTy}
	case "arr":
		return SVal{slArr(arg(0).t), refTy}
	case "birth":
		return SVal{birth(arg(0).t), intTy}
	case "now":
		return SVal{r.now(e.st), intTy}
	case "isnew":
		return SVal{Le(r.now(e.old), birth(arg(0).t)), boolTy}
	case "isold":
		return SVal{Lt(birth(arg(0).t), r.now(e.old)), boolTy}
	case "dom":
		v := arg(0)
		if v.ty.gt != nil {
			if el, ok := isMapset(v.ty.gt); ok {
				return SVal{Select(r.get(e.st, r.setComp(el)), v.t), &SType{sort: ArraySort(r.e.sortOf(el), "Bool"), k: r.e.stypeOf(el), v: boolTy}}
			}
			if mt, ok := v.ty.gt.Underlying().(*types.Map); ok {
				dn, _ := r.mapComps(mt)
				return SVal{Select(r.get(e.st, dn), v.t), &SType{sort: ArraySort(r.e.sortOf(mt.Key()), "Bool"), k: r.e.stypeOf(mt.Key()), v: boolTy}}
			}
		}
		specFail("dom of %s", exprStr(x))
	case "vals":
		v := arg(0)
		if mt, ok := v.ty.gt.Underlying().(*types.Map); ok {
			_, vn := r.mapComps(mt)
			return SVal{Select(r.get(e.st, vn), v.t), &SType{sort: ArraySort(r.e.sortOf(mt.Key()), r.e.sortOf(mt.Elem())), k: r.e.stypeOf(mt.Key()), v: r.e.stypeOf(mt.Elem())}}
		}
		if sl, ok := v.ty.gt.Underlying().(*types.Slice); ok {
			c, s := r.e.compElem(sl.Elem())
			r.noteComp(c, s, sl.Elem())
			return SVal{Select(r.get(e.st, c), slArr(v.t)), &SType{sort: ArraySort("Int", r.e.sortOf(sl.Elem())), k: intTy, v: r.e.stypeOf(sl.Elem())}}
		}
	case "heap":
		name := x.Args[0].Name
		c, vt := r.compByName(name)
		return SVal{r.get(e.st, c), vt}
	case "upd":
		a, k, v := arg(0), arg(1), arg(2)
		return SVal{StoreT(a.t, e.coerceNil(k, a.ty.k.sort), e.coerceNil(v, a.ty.v.sort)), a.ty}
	case "ite":
		c, a, b := e.bool(x.Args[0]), arg(1), arg(2)
		ty := a.ty
		if a.t == nil {
			ty = b.ty
		}
		return SVal{Ite(c, e.coerceNil(a, ty.sort), e.coerceNil(b, ty.sort)), ty}
	case "setf":
		v := arg(0)
		dt := dts[v.t.sort]
		for i, f := range dt.Fields {
			if f == x.Args[1].Name {
				return SVal{dtUpdate(dt, v.t, i, e.coerceNil(arg(2), dt.Sorts[i])), v.ty}
			}
		}
		specFail("setf: no field %s", x.Args[1].Name)
	case "zero":
		ty := r.e.stype(e.pkg, x.Vars[0].Type)
		return SVal{r.e.zero(ty.sort), ty}
	case "box":
		ty := r.e.stype(e.pkg, x.Vars[0].Type)
		return SVal{r.box(ty.gt, arg(0).t), &SType{sort: "Any"}}
	case "unbox":
		ty := r.e.stype(e.pkg, x.Vars[0].Type)
		a := arg(0).t
		if a.op == "box:"+typeKey(ty.gt) {
			return SVal{a.args[0], ty}
		}
		if a.sort == "Ref" {
			return SVal{a, ty}
		}
		r.e.tag(ty.gt)
		return SVal{App("unbox:"+typeKey(ty.gt), ty.sort, a), ty}
	case "istype":
		ty := r.e.stype(e.pkg, x.Vars[0].Type)
		a := arg(0).t
		if a.sort == "Ref" {
			return SVal{Eq(App("dyntype", "Int", a), Int(int64(r.e.tag(ty.gt)))), boolTy}
		}
		return SVal{Eq(App("tag", "Int", a), Int(int64(r.e.tag(ty.gt)))), boolTy}
	case "boxref":
		return SVal{r.boxRefIface(arg(0).t), &SType{sort: "Any"}}
	case "card":
		v := arg(0)
		return SVal{App("card:"+v.ty.k.sort, "Int", v.t), intTy}
	case "substr":
		return SVal{App("ssub", "Str", arg(0).t, arg(1).t, arg(2).t), strTy}
	case "itoa":
		return SVal{itoa(arg(0).t), strTy}
	case "startsWith":
		return SVal{App("startsWith", "Bool", arg(0).t, arg(1).t), boolTy}
	case "atoiOk":
		return SVal{App("atoiOk", "Bool", arg(0).t), boolTy}
	case "atoiVal":
		return SVal{App("atoiVal", "Int", arg(0).t), intTy}
	case "emptyset":
		v := arg(0)
		return SVal{ConstArr(v.ty.sort, TFalse), v.ty}
	case "ref":
		return SVal{arg(0).t, refTy}
	}
	if fd := r.e.spec.Funs[x.Name]; fd != nil {
		if len(fd.Args) != len(x.Args) {
			specFail("arity of %s", x.Name)
		}
		if fd.Body == nil {
			var as []*Term
			for i := range x.Args {
				ty := r.e.stype(fd.Pkg, fd.Args[i].Type)
				v := e.coerceNil(arg(i), ty.sort)
				if v.sort != ty.sort {
					specFail("argument %d of %s: sort %s, expected %s", i, x.Name, v.sort, ty.sort)
				}
				as = append(as, v)
			}
			ret := r.e.stype(fd.Pkg, fd.Ret)
			if len(as) == 0 {
				return SVal{Const("f:"+x.Name, ret.sort), ret}
			}
			return SVal{App("f:"+x.Name, ret.sort, as...), ret}
		}
		n := &Env{r: r, vars: map[string]SVal{}, st: e.st, old: e.old, entry: e.entry, labels: e.labels, pkg: fd.Pkg, depth: e.depth}
		for i, a := range fd.Args {
			ty := r.e.stype(fd.Pkg, a.Type)
			v := arg(i)
			t := e.coerceNil(v, ty.sort)
			if t.sort != ty.sort {
				specFail("argument %d of %s: sort %s, expected %s", i, x.Name, t.sort, ty.sort)
			}
			n.vars[a.Name] = SVal{t, ty}
		}
		if r.topC != nil && r.topC.Hide[x.Name] {
			// the body stays unknown: a predicate of the arguments and of the memory it reads
			saved := r.reads
			r.reads = map[string]bool{}
			n.eval(fd.Body)
			var as []*Term
			for _, a := range fd.Args {
				as = append(as, n.vars[a.Name].t)
			}
			for _, k := range sortedKeys(r.reads) {
				as = append(as, r.get(n.st, k))
			}
			for k := range r.reads {
				if saved != nil {
					saved[k] = true
				}
			}
			r.reads = saved
			ret := r.e.stype(fd.Pkg, fd.Ret)
			return SVal{App("f:"+x.Name, ret.sort, as...), ret}
		}
		res := n.eval(fd.Body)
		ret := r.e.stype(fd.Pkg, fd.Ret)
		t := e.coerceNil(res, ret.sort)
		if t.sort != ret.sort {
			specFail("def %s returns %s, declared %s", x.Name, t.sort, ret.sort)
		}
		return SVal{t, ret}
	}
	if lm := r.e.spec.Lemmas[x.Name]; lm != nil {
		if !e.inUse {
			specFail("lemma %s may only occur in a use clause", x.Name)
		}
		n := &Env{r: r, vars: map[string]SVal{}, st: e.st, old: e.old, entry: e.entry, labels: e.labels, pkg: lm.Pkg, depth: e.depth}
		for i, a := range lm.Param {
			ty := r.e.stype(lm.Pkg, a.Type)
			if i >= len(x.Args) {
				specFail("arity of lemma %s", x.Name)
			}
			t := e.coerceNil(arg(i), ty.sort)
			if t.sort != ty.sort {
				specFail("argument %d of %s: sort %s, expected %s", i, x.Name, t.sort, ty.sort)
			}
			n.vars[a.Name] = SVal{t, ty}
		}
		r.usedAxiom(lm.Name)
		return SVal{n.bool(lm.E), boolTy}
	}
	specFail("unknown function %s", x.Name)
	return SVal{}
}

// compByName resolves heap("tree.parent"), heap("set:Tree"), heap("elem:string").
func (r *Run) compByName(name string) (string, *SType) {
	e := r.e
	if i := strings.Index(name, ":"); i >= 0 {
		kind, ts := name[:i], name[i+1:]
		p := newParser(ts)
		g := e.gotype("world", p.typ())
		switch kind {
		case "set":
			c := r.setComp(g)
			return c, &SType{sort: r.compSort[c], k: refTy, v: &SType{sort: ArraySort(e.sortOf(g), "Bool"), k: e.stypeOf(g), v: boolTy}}
		case "elem":
			c, s := e.compElem(g)
			r.noteComp(c, s, g)
			return c, &SType{sort: s, k: refTy, v: &SType{sort: ArraySort("Int", e.sortOf(g)), k: intTy, v: e.stypeOf(g)}}
		case "cell":
			c, s := e.compCell(g)
			r.noteComp(c, s, g)
			return c, &SType{sort: s, k: refTy, v: e.stypeOf(g)}
		case "mapdom":
			mt := g.Underlying().(*types.Map)
			dn, _ := r.mapComps(mt)
			return dn, &SType{sort: r.compSort[dn]}
		case "mapval":
			mt := g.Underlying().(*types.Map)
			_, vn := r.mapComps(mt)
			return vn, &SType{sort: r.compSort[vn]}
		case "global":
			specFail("heap(global)")
		}
	}
	i := strings.LastIndex(name, ".")
	if i < 0 {
		specFail("bad component %s", name)
	}
	tn, fn := name[:i], name[i+1:]
	g := e.goTypeByName("world", tn)
	st, ok := g.Underlying().(*types.Struct)
	if !ok {
		specFail("component %s: not a struct", name)
	}
	for j := 0; j < st.NumFields(); j++ {
		if st.Field(j).Name() == fn {
			c, s := e.compField(g, j)
			r.noteComp(c, s, st.Field(j).Type())
			return c, &SType{sort: s, k: refTy, v: e.stypeOf(st.Field(j).Type())}
		}
	}
	specFail("no component %s", name)
	return "", nil
}

func (r *Run) usedAxiom(n string) { r.usedContracts["lemma:"+n] = true }
