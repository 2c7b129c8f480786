package main

// Emits the [lean] and [defn] axioms and lemmas of the contracts as Lean statements, in place of the markers
// --@def NAME and --@stmt NAME of a hand-written Lean file that defines the specification functions and proves the statements.

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

func leanType(t *TypeExpr) string {
	switch t.Kind {
	case "array":
		return "(" + leanType(t.Args[0]) + " → " + leanType(t.Args[1]) + ")"
	case "name":
		switch t.Name {
		case "ref", "any":
			return "Ref"
		case "int":
			return "ℤ"
		case "bool":
			return "Prop"
		case "str", "string":
			return "Str"
		}
		return strings.ReplaceAll(t.Name, ".", "_")
	}
	panic("lean: type " + t.Kind)
}

func leanExpr(e *Expr) string {
	args := func() []string {
		var out []string
		for _, a := range e.Args {
			out = append(out, leanExpr(a))
		}
		return out
	}
	switch e.Op {
	case "ident":
		switch e.Name {
		case "true":
			return "True"
		case "false":
			return "False"
		}
		return "«" + e.Name + "»"
	case "int":
		return "(" + e.Name + " : ℤ)"
	case "str":
		return "(lit " + fmt.Sprintf("%q", e.Name) + ")"
	case "unary":
		return map[string]string{"!": "(¬ ", "-": "(- "}[e.Name] + leanExpr(e.Args[0]) + ")"
	case "binary":
		op := map[string]string{"&&": "∧", "||": "∨", "==>": "→", "<==>": "↔", "==": "=", "!=": "≠", "<": "<", "<=": "≤", ">": ">", ">=": "≥", "+": "+", "-": "-"}[e.Name]
		if op == "" {
			panic("lean: operator " + e.Name)
		}
		if e.Name == "&&" { // right-nested
			var flat func(*Expr) []string
			flat = func(e *Expr) []string {
				if e.Op == "binary" && e.Name == "&&" {
					return append(flat(e.Args[0]), flat(e.Args[1])...)
				}
				return []string{leanExpr(e)}
			}
			return "(" + strings.Join(flat(e), " ∧ ") + ")"
		}
		a := args()
		return "(" + a[0] + " " + op + " " + a[1] + ")"
	case "index":
		a := args()
		return "(" + a[0] + " " + a[1] + ")"
	case "field":
		return "(" + leanExpr(e.Args[0]) + ").«" + e.Name + "»"
	case "let":
		a := args()
		return "(let «" + e.Name + "» := " + a[0] + "; " + a[1] + ")"
	case "forall", "exists":
		q := map[string]string{"forall": "∀", "exists": "∃"}[e.Op]
		s := "(" + q
		for _, v := range e.Vars {
			s += " («" + v.Name + "» : " + leanType(v.Type) + ")"
		}
		return s + ", " + leanExpr(e.Args[0]) + ")"
	case "call":
		switch e.Name {
		case "ite":
			a := args()
			return "(if " + a[0] + " then " + a[1] + " else " + a[2] + ")"
		case "zero":
			return "(" + leanType(e.Vars[0].Type) + ".zero)"
		case "setf":
			return "({ " + leanExpr(e.Args[0]) + " with «" + e.Args[1].Name + "» := " + leanExpr(e.Args[2]) + " })"
		case "upd":
			a := args()
			return "(Function.update " + strings.Join(a, " ") + ")"
		}
		return "(«" + e.Name + "» " + strings.Join(args(), " ") + ")"
	}
	panic("lean: " + e.Op)
}

// EmitLean returns the names of the statements, in order.
func EmitLean(sp *Spec, tmpl, out string) error {
	b, err := os.ReadFile(tmpl)
	if err != nil {
		return err
	}
	all := map[string]*Axiom{}
	for _, a := range sp.Axioms {
		all[a.Name] = a
	}
	for _, a := range sp.Lemmas {
		all[a.Name] = a
	}
	done := map[string]bool{}
	var lines []string
	for _, ln := range strings.Split(string(b), "\n") {
		f := strings.Fields(ln)
		if len(f) == 2 && f[0] == "--@def" {
			fd := sp.Funs[f[1]]
			if fd == nil || fd.Body == nil {
				return fmt.Errorf("no definition %s in the contracts", f[1])
			}
			s := "def «" + fd.Name + "»"
			for _, v := range fd.Args {
				s += " («" + v.Name + "» : " + leanType(v.Type) + ")"
			}
			lines = append(lines, s+" : "+leanType(fd.Ret)+" := "+leanExpr(fd.Body))
			continue
		}
		if len(f) == 2 && f[0] == "--@stmt" {
			a := all[f[1]]
			if a == nil {
				return fmt.Errorf("no axiom or lemma %s in the contracts", f[1])
			}
			s := leanExpr(a.E)
			if len(a.Param) > 0 {
				s = leanExpr(&Expr{Op: "forall", Vars: a.Param, Args: []*Expr{a.E}})
			}
			lines = append(lines, "def Stmt."+a.Name+" : Prop := "+s)
			done[a.Name] = true
			continue
		}
		if strings.Contains(ln, "sorry") || strings.HasPrefix(strings.TrimSpace(ln), "axiom") {
			return fmt.Errorf("%s: %s", tmpl, ln)
		}
		lines = append(lines, ln)
	}
	var names, missing []string
	for n, a := range all {
		if a.Kind != "lean" && a.Kind != "defn" {
			continue
		}
		names = append(names, n)
		if !done[n] {
			missing = append(missing, n)
		}
	}
	sort.Strings(names)
	sort.Strings(missing)
	if len(missing) > 0 {
		return fmt.Errorf("not proved in Lean: %s", strings.Join(missing, " "))
	}
	for _, n := range names {
		lines = append(lines, "theorem Checked."+n+" : Stmt."+n+" := Proof."+n)
	}
	lines = append(lines, "end", "end Vp")
	for _, n := range names {
		lines = append(lines, "#print axioms Vp.Checked."+n)
	}
	return os.WriteFile(out, []byte(strings.Join(lines, "\n")+"\n"), 0644)
}
