package main

// Obligations about the text a function computes, decided in the solver's theory of strings.

import (
	"fmt"
	"strings"

	"go/types"
	"golang.org/x/tools/go/ssa"
)

// checkInjective: the function computes its result from its arguments alone, and different
// arguments give different results.
func (r *Run) checkInjective(c *Contract, fn *ssa.Function, ats []*Term, ptypes []types.Type, rts []*Term, out *State) {
	nf1 := len(r.facts)
	det := true
	for k := range r.init.m {
		if k != "now" {
			det = false
		}
	}
	r.oblige(out, "post", "result depends on the arguments only", nil, boolTerm(det))
	st := &State{m: map[string]*Term{}, guard: TTrue}
	var args []Val
	var bts []*Term
	for i, pt := range ptypes {
		t := r.fresh(fmt.Sprintf("other_arg%d", i), r.e.sortOf(pt))
		bts = append(bts, t)
		args = append(args, t)
	}
	no := len(r.obls)
	res, out2 := r.evalFunc(fn, args, nil, st)
	r.obls = r.obls[:no]
	if out2 == nil {
		return
	}
	_ = nf1
	same := TTrue
	for i := range ats {
		same = And(same, Eq(ats[i], bts[i]))
	}
	o := r.oblige(out, "post", "postcondition different arguments give different results", nil, Or(same, Ne(rts[0], r.term(res[0], nil, out2))))
	o.Strings = true
	o.NFacts = len(r.facts)
}

func boolTerm(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}

// strSMT renders facts and goal over native strings; facts outside the fragment are dropped
// (which only weakens what is assumed).
func (o *Obl) strSMT() (string, bool) {
	consts := map[string]string{}
	abs := map[*Term]string{}
	itoas := map[string]bool{}
	var itoaArgs []string
	var rec func(t *Term) (string, bool)
	rec = func(t *Term) (string, bool) {
		so := func(s Sort) string {
			if s == "Str" {
				return "String"
			}
			return string(s)
		}
		if t.bound != nil {
			return "", false
		}
		switch t.sort {
		case "Str", "Int", "Bool":
		default:
			return "", false
		}
		if t.op == "=" && t.args[0].sort != "Str" && t.args[0].sort != "Int" && t.args[0].sort != "Bool" {
			k, ok := abs[t]
			if !ok {
				k = fmt.Sprintf("abs%d", len(abs))
				abs[t] = k
				consts[k] = "Bool"
			}
			return k, true
		}
		if strings.HasPrefix(t.op, "c:") {
			n := symName(t.op[2:])
			consts[n] = so(t.sort)
			return n, true
		}
		if v, ok := litVal[t.op]; ok {
			var sb strings.Builder
			sb.WriteByte('"')
			for _, b := range []byte(v) {
				if b == '"' || b == '\\' || b < 32 || b > 126 {
					fmt.Fprintf(&sb, "\\u{%x}", b)
				} else {
					sb.WriteByte(b)
				}
			}
			sb.WriteByte('"')
			return sb.String(), true
		}
		if strings.HasPrefix(t.op, "i:") {
			return t.headStr(), true
		}
		op := ""
		switch t.op {
		case "scat":
			op = "str.++"
		case "slen":
			op = "str.len"
		case "itoa":
			op = "itoa"
		case "true", "false":
			return t.op, true
		case "not", "and", "or", "=>", "=", "ite", "+", "-", "*", "<", "<=":
			op = t.op
		case "startsWith":
			// startsWith(s, p): argument order of the contract language
			a, ok1 := rec(t.args[1])
			b, ok2 := rec(t.args[0])
			return "(str.prefixof " + a + " " + b + ")", ok1 && ok2
		default:
			// a term the string fragment does not look into: any value
			k := fmt.Sprintf("abs%d", len(abs))
			if n, ok := abs[t]; ok {
				k = n
			}
			abs[t] = k
			consts[k] = so(t.sort)
			return k, true
		}
		s := "(" + op
		for _, a := range t.args {
			x, ok := rec(a)
			if !ok {
				return "", false
			}
			s += " " + x
		}
		s += ")"
		if op == "itoa" && !itoas[s] {
			itoas[s] = true
			itoaArgs = append(itoaArgs, s[6:len(s)-1])
		}
		return s, true
	}
	body := ""
	for _, f := range o.Facts {
		if s, ok := rec(f); ok {
			body += "(assert " + s + ")\n"
		}
	}
	if o.Guard != nil {
		if s, ok := rec(o.Guard); ok {
			body += "(assert " + s + ")\n"
		}
	}
	g, ok := rec(o.Goal)
	if !ok {
		return "", false
	}
	body += "(assert (not " + g + "))\n"
	txt := "(set-logic ALL)\n(declare-fun itoa (Int) String)\n"
	for _, n := range sortedStrs(consts) {
		txt += "(declare-const " + n + " " + consts[n] + ")\n"
	}
	for i, a := range itoaArgs {
		txt += fmt.Sprintf("(assert (=> (<= 0 %s) (str.in_re (itoa %s) (re.+ (re.range \"0\" \"9\")))))\n", a, a)
		txt += fmt.Sprintf("(assert (=> (< %s 0) (str.in_re (itoa %s) (re.++ (str.to_re \"-\") (re.+ (re.range \"0\" \"9\"))))))\n", a, a)
		for _, b := range itoaArgs[:i] {
			txt += fmt.Sprintf("(assert (=> (= (itoa %s) (itoa %s)) (= %s %s)))\n", a, b, a, b)
		}
	}
	return txt + body + "(check-sat)\n", true
}

func sortedStrs(m map[string]string) []string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	return sortedKeys(b)
}
