package main

// Go types -> SMT sorts, heap component names.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoPrefix = "github.com/williamflynt/topolith"

type Engine struct {
	prog        *ssa.Program
	pkgs        map[string]*ssa.Package // by short path below the module (pkg/world) and by name (world)
	tpkgs       map[string]*types.Package
	allPkgs     []*packages.Package
	funcs       map[string]*ssa.Function
	impls       map[*types.Named][]types.Type // repo interface -> implementing repo types
	spec        *Spec
	modset      map[string]map[string]bool // contract name -> inferred modified comps
	tagIds      map[string]int
	assumed     map[string]bool
	compReg     map[string]compInfo
	inferCache  map[*ssa.Function]map[string]bool
	inferBroken map[string]string
	storedThrough
}

func Load(dir string) (*Engine, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir}
	pkgs, err := packages.Load(cfg, "./pkg/...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("package %s: %v", p.PkgPath, e)
		}
	}
	prog, ssapkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	e := &Engine{prog: prog, pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{}, allPkgs: pkgs,
		funcs: map[string]*ssa.Function{}, impls: map[*types.Named][]types.Type{}, modset: map[string]map[string]bool{}, tagIds: map[string]int{}, assumed: map[string]bool{}, compReg: map[string]compInfo{}, inferCache: map[*ssa.Function]map[string]bool{}, inferBroken: map[string]string{}}
	for _, p := range ssapkgs {
		if p == nil {
			continue
		}
		if strings.HasPrefix(p.Pkg.Path(), repoPrefix) {
			p.Build()
			e.pkgs[p.Pkg.Name()] = p
			e.tpkgs[p.Pkg.Name()] = p.Pkg
		}
	}
	for _, p := range prog.AllPackages() {
		if e.tpkgs[p.Pkg.Name()] == nil {
			e.tpkgs[p.Pkg.Name()] = p.Pkg
		}
	}
	// functions by short name
	for _, p := range e.pkgs {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				e.funcs[shortFn(m)] = m
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if !ok || n.TypeParams().Len() > 0 {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					f := prog.FuncValue(n.Method(i))
					if f != nil {
						e.funcs[shortFn(f)] = f
					}
				}
			}
		}
	}
	// closed-world implementations
	var named []*types.Named
	for _, p := range e.pkgs {
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 {
					named = append(named, nt)
				}
			}
		}
	}
	for _, it := range named {
		iface, ok := it.Underlying().(*types.Interface)
		if !ok {
			continue
		}
		for _, nt := range named {
			if types.IsInterface(nt) {
				continue
			}
			if types.Implements(nt, iface) {
				e.impls[it] = append(e.impls[it], nt)
			} else if types.Implements(types.NewPointer(nt), iface) {
				e.impls[it] = append(e.impls[it], types.NewPointer(nt))
			}
		}
	}
	return e, nil
}

func qual(p *types.Package) string { return p.Name() }

func typeKey(t types.Type) string {
	t = unaliasAll(t)
	return strings.ReplaceAll(types.TypeString(t, qual), " ", "")
}

// unaliasAll: aliases replaced by what they stand for, so that one type has one key.
func unaliasAll(t types.Type) types.Type {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.Pointer:
		if e := unaliasAll(u.Elem()); e != u.Elem() {
			return types.NewPointer(e)
		}
	case *types.Slice:
		if e := unaliasAll(u.Elem()); e != u.Elem() {
			return types.NewSlice(e)
		}
	case *types.Array:
		if e := unaliasAll(u.Elem()); e != u.Elem() {
			return types.NewArray(e, u.Len())
		}
	case *types.Map:
		k, e := unaliasAll(u.Key()), unaliasAll(u.Elem())
		if k != u.Key() || e != u.Elem() {
			return types.NewMap(k, e)
		}
	}
	return t
}

// shortFn: world.(*world).Nest, world.itemSet, errors.(TopolithError).WithData
func shortFn(f *ssa.Function) string {
	if f.Signature.Recv() != nil {
		rt := f.Signature.Recv().Type()
		ptr := ""
		if p, ok := rt.(*types.Pointer); ok {
			rt = p.Elem()
			ptr = "*"
		}
		pk := ""
		if n, ok := rt.(*types.Named); ok && n.Obj().Pkg() != nil {
			pk = n.Obj().Pkg().Name()
			nm := n.Obj().Name()
			return pk + ".(" + ptr + nm + ")." + f.Name()
		}
		return f.String()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Name() + "." + f.Name()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Name() + "." + f.Name()
	}
	return f.String()
}

func isMapset(t types.Type) (types.Type, bool) {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil, false
	}
	if strings.HasPrefix(n.Obj().Pkg().Path(), "github.com/deckarep/golang-set") && n.Obj().Name() == "Set" && n.TypeArgs().Len() == 1 {
		return n.TypeArgs().At(0), true
	}
	return nil, false
}

func unalias(t types.Type) types.Type { return types.Unalias(t) }

// refIface reports whether interface type t is represented as Ref (closed world of pointer types).
func (e *Engine) refIface(t types.Type) (*types.Named, []types.Type, bool) {
	n, ok := unalias(t).(*types.Named)
	if !ok {
		return nil, nil, false
	}
	if _, ok := n.Underlying().(*types.Interface); !ok {
		return nil, nil, false
	}
	im := e.impls[n]
	if len(im) == 0 {
		return nil, nil, false
	}
	for _, x := range im {
		if _, ok := x.(*types.Pointer); !ok {
			return nil, nil, false
		}
	}
	return n, im, true
}

func (e *Engine) sortOf(t types.Type) Sort {
	t = unalias(t)
	if _, ok := isMapset(t); ok {
		return "Ref"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Kind() == types.UntypedNil:
			return "Ref"
		case u.Kind() == types.UnsafePointer:
			return "Ref"
		default:
			return "Float"
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Ref"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		if _, _, ok := e.refIface(t); ok {
			return "Ref"
		}
		return "Any"
	case *types.Struct:
		return e.structDT(t).Name
	case *types.Array:
		return ArraySort("Int", e.sortOf(u.Elem()))
	case *types.TypeParam:
		return "Any"
	case *types.Tuple:
		return "Tuple"
	}
	panic("sortOf: " + t.String())
}

var sliceDT = &DT{Name: "Slice", Ctor: "mkSlice", Fields: []string{"arr", "len", "cap"}, Sorts: []Sort{"Ref", "Int", "Int"}}

func init() { dts["Slice"] = sliceDT; dtOrder = append(dtOrder, sliceDT) }

func mkSlice(arr, ln, cp *Term) *Term { return dtMake(sliceDT, arr, ln, cp) }
func slArr(s *Term) *Term             { return dtField(sliceDT, s, 0) }
func slLen(s *Term) *Term             { return dtField(sliceDT, s, 1) }
func slCap(s *Term) *Term             { return dtField(sliceDT, s, 2) }

var structTypes = map[string]*types.Struct{}

func (e *Engine) structDT(t types.Type) *DT {
	st := t.Underlying().(*types.Struct)
	key := "T_" + sanitize(typeKey(t))
	if len(key) > 60 {
		key = fmt.Sprintf("T_anon%d", strHash(key))
	}
	if d, ok := dts[key]; ok {
		return d
	}
	d := &DT{Name: key, Ctor: "mk_" + key}
	dts[key] = d
	structTypes[key] = st
	for i := 0; i < st.NumFields(); i++ {
		d.Fields = append(d.Fields, fieldName(st, i))
		d.Sorts = append(d.Sorts, e.sortOf(st.Field(i).Type()))
	}
	if st.NumFields() == 0 {
		d.Fields = []string{"dummy"}
		d.Sorts = []Sort{"Int"}
	}
	dtOrder = append(dtOrder, d)
	return d
}

func strHash(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h
}

func fieldName(st *types.Struct, i int) string {
	n := st.Field(i).Name()
	if n == "_" {
		n = fmt.Sprintf("_%d", i)
	}
	return n
}

var tNil = Const("nil", "Ref")
var tNilAny = Const("nilAny", "Any")
var tEmptyStr = StrLit("")

func StrLit(s string) *Term { return mk("lit:"+escLit(s), "Str") }

var litVal = map[string]string{}

func escLit(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte(" _-.,:;<>=+*?!$%&()[]{}/@#'^~", c) >= 0 {
			sb.WriteByte(c)
		} else {
			fmt.Fprintf(&sb, "~%02x", c)
		}
	}
	r := sb.String()
	litVal["lit:"+r] = s
	return r
}

func (e *Engine) zero(s Sort) *Term {
	switch s {
	case "Bool":
		return TFalse
	case "Int":
		return Int(0)
	case "Str":
		return tEmptyStr
	case "Ref":
		return tNil
	case "Any":
		return tNilAny
	case "Slice":
		return mkSlice(tNil, Int(0), Int(0))
	case "Float":
		return Const("fzero", "Float")
	}
	if strings.HasPrefix(s, "(Array ") {
		_, v := arrayParts(s)
		return ConstArr(s, e.zero(v))
	}
	if d := dts[s]; d != nil {
		var as []*Term
		for _, fs := range d.Sorts {
			as = append(as, e.zero(fs))
		}
		return dtMake(d, as...)
	}
	panic("zero of sort " + s)
}

// component names
func (e *Engine) compField(structT types.Type, i int) (string, Sort) {
	st := structT.Underlying().(*types.Struct)
	return "F:" + typeKey(structT) + "." + fieldName(st, i), ArraySort("Ref", e.sortOf(st.Field(i).Type()))
}
func (e *Engine) compCell(t types.Type) (string, Sort) {
	return "P:" + typeKey(t), ArraySort("Ref", e.sortOf(t))
}
func (e *Engine) compElem(t types.Type) (string, Sort) {
	return "E:" + typeKey(t), ArraySort("Ref", ArraySort("Int", e.sortOf(t)))
}
func (e *Engine) compMap(m *types.Map) (dom, val string, ds, vs Sort) {
	k, v := e.sortOf(m.Key()), e.sortOf(m.Elem())
	key := typeKey(m.Key()) + "," + typeKey(m.Elem())
	return "MD:" + key, "MV:" + key, ArraySort("Ref", ArraySort(k, "Bool")), ArraySort("Ref", ArraySort(k, v))
}
func (e *Engine) compSet(el types.Type) (string, Sort) {
	return "S:" + typeKey(el), ArraySort("Ref", ArraySort(e.sortOf(el), "Bool"))
}

func (e *Engine) tag(t types.Type) int {
	k := typeKey(t)
	if n, ok := e.tagIds[k]; ok {
		return n
	}
	n := len(e.tagIds) + 1
	e.tagIds[k] = n
	return n
}

type compInfo struct {
	sort Sort
	gt   types.Type
}
