package main

// Behavioural subtyping: every implementation of an interface method that has an (abstract)
// contract is checked against that contract.

import (
	"go/types"
	"strings"
)

func (e *Engine) refinements() {
	for _, a := range e.spec.Order {
		if !a.Abstract {
			continue
		}
		i := strings.LastIndex(a.Name, ".")
		n, ok := e.goTypeByName(a.Pkg, a.Name[:i]).(*types.Named)
		if !ok {
			continue
		}
		for _, im := range e.impls[n] {
			sel := e.prog.MethodSets.MethodSet(im).Lookup(n.Obj().Pkg(), a.Name[i+1:])
			if sel == nil {
				continue
			}
			fn := e.prog.MethodValue(sel)
			c := &Contract{Name: shortFn(fn) + " as " + a.Name, Pkg: a.Pkg, Pos: a.Pos, IsLemma: true, InlineSet: map[string]bool{}, Hide: a.Hide, Tags: a.Tags, Invs: a.Invs, Requires: append([]*Clause{}, a.Requires...)}
			st := &Step{Kind: "exec", Call: shortFn(fn), Lhs: a.Results}
			for j, p := range a.Params {
				t := im
				if j > 0 {
					t = fn.Signature.Params().At(j - 1).Type()
				}
				te := typeExprOf(t)
				c.Vars = append(c.Vars, VarDecl{p, te})
				st.Args = append(st.Args, &Expr{Op: "ident", Name: p})
				if j == 0 && e.sortOf(im) == "Ref" {
					c.Requires = append(c.Requires,
						&Clause{Name: "type", Kind: "requires", E: &Expr{Op: "call", Name: "istype", Vars: []VarDecl{{"", te}}, Args: []*Expr{{Op: "ident", Name: p}}}},
						&Clause{Name: "value", Kind: "requires", E: &Expr{Op: "binary", Name: "!=", Args: []*Expr{{Op: "ident", Name: p}, {Op: "ident", Name: "nil"}}}})
				}
			}
			c.Steps = append(c.Steps, st)
			for _, q := range a.Ensures {
				if q.Kind != "defines" {
					c.Steps = append(c.Steps, &Step{Kind: "ensures", C: q})
				}
			}
			if len(c.Steps) > 1 {
				e.spec.Order = append(e.spec.Order, c)
			}
		}
	}
}

func typeExprOf(t types.Type) *TypeExpr {
	switch u := t.(type) {
	case *types.Pointer:
		return &TypeExpr{Kind: "ptr", Args: []*TypeExpr{typeExprOf(u.Elem())}}
	case *types.Slice:
		return &TypeExpr{Kind: "slice", Args: []*TypeExpr{typeExprOf(u.Elem())}}
	case *types.Map:
		return &TypeExpr{Kind: "map", Args: []*TypeExpr{typeExprOf(u.Key()), typeExprOf(u.Elem())}}
	}
	return &TypeExpr{Kind: "name", Name: typeKey(t)}
}
