package main

// Contract language: parsing.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type Expr struct {
	Op   string // ident int str call field index forall exists binary unary let old ...
	Name string
	Args []*Expr
	Vars []VarDecl
	Pats [][]*Expr
	Line string
}
type VarDecl struct {
	Name string
	Type *TypeExpr
}
type TypeExpr struct {
	Kind string // ptr slice map set name array
	Name string
	Args []*TypeExpr
}

type Clause struct {
	Tags []string
	Name string
	E    *Expr
	Vars []VarDecl // inv binders
	Pos  string
	Src  string
	Kind string
	At   string
}

type ModItem struct {
	Comp string
	At   []*Expr
	Any  bool
}

type Contract struct {
	Name      string
	Pkg       string
	Params    []string
	Results   []string
	Requires  []*Clause
	Ensures   []*Clause
	Mods      []ModItem
	Uses      []*Clause
	Invs      []*Clause
	OnLink    []*Clause // lemma instances assumed where a component is written
	Hints     []*Clause // lemma instances assumed where a loop starts
	Lets      []LetDecl
	Inline    bool
	Trusted   bool
	Abstract  bool // interface method contract, no body
	InlineSet map[string]bool
	Pos       string
	Pure      bool
	Injective string // the specification function this one defines, injectively
	NoAlloc   bool
	Steps     []*Step // lemma
	Vars      []VarDecl
	Trigger   []*Expr // of a function contract with logical variables (vars): when a call's postconditions are instantiated
	IsLemma   bool
	Hide      map[string]bool // definitions whose body is not used here
	Tags      []string
	Sig       []VarDecl
}
type LetDecl struct {
	Name string
	E    *Expr
}
type Step struct {
	Kind string // exec assert use label assume
	Lhs  []string
	Call string
	Args []*Expr
	C    *Clause
}

type FunDecl struct {
	Name   string
	Pkg    string
	Args   []VarDecl
	Ret    *TypeExpr
	Body   *Expr // nil: uninterpreted
	Opaque bool
}
type Axiom struct {
	Name  string
	Kind  string // lean, defn, trusted
	Pkg   string
	E     *Expr
	Param []VarDecl // lemma-style: instantiated by use
	Pos   string
	Body  string
}

type Spec struct {
	Contracts map[string]*Contract
	Order     []*Contract
	Funs      map[string]*FunDecl
	Axioms    []*Axiom
	Lemmas    map[string]*Axiom    // parametric
	Ghosts    map[string]*TypeExpr // specification-only state
}

func (s *Spec) contract(name string) *Contract {
	c := s.Contracts[name]
	if c == nil {
		return nil
	}
	return c
}

// --- lexer ---
type tok struct {
	k string // id int str op
	s string
}

func lex(src string) ([]tok, error) {
	var out []tok
	i := 0
	ops := []string{"<==>", "==>", "::", "&&", "||", "==", "!=", "<=", ">=", ":=", "!in"}
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && src[j] >= '0' && src[j] <= '9' {
				j++
			}
			out = append(out, tok{"int", src[i:j]})
			i = j
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '$':
			j := i
			for j < len(src) && (src[j] == '_' || src[j] == '$' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			out = append(out, tok{"id", src[i:j]})
			i = j
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(src) {
				return nil, fmt.Errorf("unterminated string")
			}
			str, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				return nil, fmt.Errorf("string %s: %v", src[i:j+1], err)
			}
			out = append(out, tok{"str", str})
			i = j + 1
		default:
			matched := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					if o == "!in" && i+3 < len(src) && (src[i+3] == '_' || src[i+3] >= 'a' && src[i+3] <= 'z' || src[i+3] >= 'A' && src[i+3] <= 'Z') {
						continue
					}
					out = append(out, tok{"op", o})
					i += len(o)
					matched = true
					break
				}
			}
			if !matched {
				out = append(out, tok{"op", string(c)})
				i++
			}
		}
	}
	return out, nil
}

type parser struct {
	ts  []tok
	i   int
	src string
}

func (p *parser) peek() tok {
	if p.i < len(p.ts) {
		return p.ts[p.i]
	}
	return tok{"eof", ""}
}
func (p *parser) next() tok { t := p.peek(); p.i++; return t }
func (p *parser) is(s string) bool {
	t := p.peek()
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		panic(fmt.Sprintf("spec: expected %q at %q in: %s", s, p.peek().s, p.src))
	}
}

func parseExpr(src string) *Expr {
	ts, err := lex(src)
	if err != nil {
		panic("spec: " + err.Error() + ": " + src)
	}
	p := &parser{ts: ts, src: src}
	e := p.expr()
	if p.peek().k != "eof" {
		panic(fmt.Sprintf("spec: trailing %q in: %s", p.peek().s, src))
	}
	return e
}

func (p *parser) expr() *Expr { return p.iff() }
func (p *parser) iff() *Expr {
	l := p.impl()
	for p.accept("<==>") {
		r := p.impl()
		l = &Expr{Op: "binary", Name: "<==>", Args: []*Expr{l, r}}
	}
	return l
}
func (p *parser) impl() *Expr {
	l := p.or()
	if p.accept("==>") {
		r := p.impl()
		return &Expr{Op: "binary", Name: "==>", Args: []*Expr{l, r}}
	}
	return l
}
func (p *parser) or() *Expr {
	l := p.and()
	for p.accept("||") {
		r := p.and()
		l = &Expr{Op: "binary", Name: "||", Args: []*Expr{l, r}}
	}
	return l
}
func (p *parser) and() *Expr {
	l := p.cmp()
	for p.accept("&&") {
		r := p.cmp()
		l = &Expr{Op: "binary", Name: "&&", Args: []*Expr{l, r}}
	}
	return l
}
func (p *parser) cmp() *Expr {
	l := p.add()
	for _, o := range []string{"==", "!=", "<=", ">=", "<", ">", "in", "!in"} {
		if p.is(o) {
			p.i++
			r := p.add()
			e := &Expr{Op: "binary", Name: o, Args: []*Expr{l, r}}
			// chained a <= b < c
			if (o == "<=" || o == "<") && (p.is("<") || p.is("<=")) {
				o2 := p.next().s
				r2 := p.add()
				return &Expr{Op: "binary", Name: "&&", Args: []*Expr{e, {Op: "binary", Name: o2, Args: []*Expr{r, r2}}}}
			}
			return e
		}
	}
	return l
}
func (p *parser) add() *Expr {
	l := p.unary()
	for p.is("+") || p.is("-") {
		o := p.next().s
		r := p.unary()
		l = &Expr{Op: "binary", Name: o, Args: []*Expr{l, r}}
	}
	return l
}
func (p *parser) unary() *Expr {
	if p.accept("!") {
		return &Expr{Op: "unary", Name: "!", Args: []*Expr{p.unary()}}
	}
	if p.accept("-") {
		return &Expr{Op: "unary", Name: "-", Args: []*Expr{p.unary()}}
	}
	if p.accept("*") {
		return &Expr{Op: "unary", Name: "*", Args: []*Expr{p.unary()}}
	}
	if p.is("forall") || p.is("exists") {
		q := p.next().s
		e := &Expr{Op: q}
		for {
			n := p.next()
			names := []string{n.s}
			for p.accept(",") {
				names = append(names, p.next().s)
			}
			p.expect(":")
			t := p.typ()
			for _, x := range names {
				e.Vars = append(e.Vars, VarDecl{x, t})
			}
			if !p.accept(",") {
				break
			}
		}
		for p.accept("{") {
			var ps []*Expr
			for !p.is("}") {
				ps = append(ps, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e.Pats = append(e.Pats, ps)
		}
		p.expect("::")
		e.Args = []*Expr{p.expr()}
		return e
	}
	if p.is("let") {
		p.next()
		n := p.next().s
		p.expect("=")
		v := p.add()
		p.expect("in")
		b := p.expr()
		return &Expr{Op: "let", Name: n, Args: []*Expr{v, b}}
	}
	return p.postfix()
}
func (p *parser) postfix() *Expr {
	var e *Expr
	t := p.next()
	switch t.k {
	case "int":
		e = &Expr{Op: "int", Name: t.s}
	case "str":
		e = &Expr{Op: "str", Name: t.s}
	case "id":
		if p.is("(") {
			p.next()
			e = &Expr{Op: "call", Name: t.s}
			for !p.is(")") {
				if (t.s == "zero" || t.s == "box" || t.s == "unbox" || t.s == "istype" || t.s == "dyn") && len(e.Args) == 0 && len(e.Vars) == 0 {
					e.Vars = []VarDecl{{"", p.typ()}}
					if !p.accept(",") {
						break
					}
					continue
				}
				e.Args = append(e.Args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
		} else {
			e = &Expr{Op: "ident", Name: t.s}
		}
	case "op":
		if t.s == "(" {
			e = p.expr()
			p.expect(")")
		}
	}
	if e == nil {
		panic(fmt.Sprintf("spec: unexpected %q in: %s", t.s, p.src))
	}
	for {
		if p.accept(".") {
			n := p.next()
			e = &Expr{Op: "field", Name: n.s, Args: []*Expr{e}}
			continue
		}
		if p.accept("[") {
			i := p.expr()
			p.expect("]")
			e = &Expr{Op: "index", Args: []*Expr{e, i}}
			continue
		}
		return e
	}
}

func (p *parser) typ() *TypeExpr {
	if p.accept("*") {
		return &TypeExpr{Kind: "ptr", Args: []*TypeExpr{p.typ()}}
	}
	if p.accept("[") {
		p.expect("]")
		return &TypeExpr{Kind: "slice", Args: []*TypeExpr{p.typ()}}
	}
	t := p.next()
	if t.k != "id" {
		panic(fmt.Sprintf("spec: type expected at %q in %s", t.s, p.src))
	}
	switch t.s {
	case "map":
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return &TypeExpr{Kind: "map", Args: []*TypeExpr{k, p.typ()}}
	case "array":
		p.expect("(")
		k := p.typ()
		p.expect(",")
		v := p.typ()
		p.expect(")")
		return &TypeExpr{Kind: "array", Args: []*TypeExpr{k, v}}
	case "Set":
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return &TypeExpr{Kind: "set", Args: []*TypeExpr{k}}
	}
	n := t.s
	if p.is(".") {
		p.next()
		n += "." + p.next().s
	}
	if p.accept("[") {
		k := p.typ()
		p.expect("]")
		return &TypeExpr{Kind: "generic", Name: n, Args: []*TypeExpr{k}}
	}
	return &TypeExpr{Kind: "name", Name: n}
}

// --- file parser ---

var topKw = map[string]bool{"package": true, "fun": true, "axiom": true, "lemma": true, "def": true, "func": true, "scenario": true, "opaque": true, "abstract": true, "ghost": true}
var inKw = map[string]bool{"params": true, "results": true, "requires": true, "ensures": true, "modifies": true, "use": true, "inv": true, "hint": true, "defines": true, "inline": true, "trusted": true, "let": true, "vars": true, "exec": true, "assert": true, "label": true, "inlining": true, "injective": true, "pure": true, "hide": true, "tags": true, "sig": true, "trigger": true, "onlink": true}

func ParseSpecs(dir string) (*Spec, error) {
	sp := &Spec{Contracts: map[string]*Contract{}, Funs: map[string]*FunDecl{}, Lemmas: map[string]*Axiom{}, Ghosts: map[string]*TypeExpr{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		sp.parseFile(filepath.Base(f), string(b))
	}
	return sp, nil
}

type item struct {
	kw, text string
	line     int
}

func (sp *Spec) parseFile(fname, src string) {
	var items []item
	for n, ln := range strings.Split(src, "\n") {
		if i := strings.Index(ln, "//"); i >= 0 {
			ln = ln[:i]
		}
		t := strings.TrimSpace(ln)
		if t == "" {
			continue
		}
		kw := t
		if i := strings.IndexAny(t, " \t("); i >= 0 {
			kw = t[:i]
		}
		if topKw[kw] || inKw[kw] {
			items = append(items, item{kw, strings.TrimSpace(t[len(kw):]), n + 1})
		} else if len(items) > 0 {
			items[len(items)-1].text += " " + t
		} else {
			panic("spec: stray line " + ln)
		}
	}
	pkg := ""
	var cur *Contract
	for _, it := range items {
		pos := fmt.Sprintf("%s:%d", fname, it.line)
		switch it.kw {
		case "package":
			pkg = it.text
		case "fun", "def", "opaque":
			p := newParser(it.text)
			fd := &FunDecl{Pkg: pkg, Name: p.next().s, Opaque: it.kw == "opaque"}
			p.expect("(")
			fd.Args = p.varList(")")
			p.expect(")")
			p.expect(":")
			fd.Ret = p.typ()
			if p.accept("=") {
				fd.Body = p.expr()
			}
			if p.peek().k != "eof" {
				panic("spec " + pos + ": trailing " + p.peek().s + " in " + it.text)
			}
			sp.Funs[fd.Name] = fd
			cur = nil
		case "ghost":
			p := newParser(it.text)
			n := p.next().s
			p.expect(":")
			sp.Ghosts[n] = p.typ()
			cur = nil
		case "axiom", "lemma":
			p := newParser(it.text)
			ax := &Axiom{Pkg: pkg, Name: p.next().s, Pos: pos, Body: it.text}
			if p.accept("(") {
				ax.Param = p.varList(")")
				p.expect(")")
			}
			p.expect("[")
			ax.Kind = p.next().s
			p.expect("]")
			p.expect(":")
			ax.E = p.expr()
			if p.peek().k != "eof" {
				panic("spec " + pos + ": trailing " + p.peek().s + " in " + it.text)
			}
			if ax.Param != nil {
				sp.Lemmas[ax.Name] = ax
			} else {
				sp.Axioms = append(sp.Axioms, ax)
			}
			cur = nil
		case "func", "abstract":
			cur = &Contract{Name: it.text, Pkg: pkg, Pos: pos, InlineSet: map[string]bool{}, Abstract: it.kw == "abstract"}
			if sp.Contracts[cur.Name] != nil {
				panic("spec " + pos + ": duplicate contract " + cur.Name)
			}
			sp.Contracts[cur.Name] = cur
			sp.Order = append(sp.Order, cur)
		case "scenario":
			f := strings.Fields(it.text)
			cur = &Contract{Name: f[0], Pkg: pkg, Pos: pos, IsLemma: true, InlineSet: map[string]bool{}}
			sp.Order = append(sp.Order, cur)
		case "params":
			cur.Params = strings.Fields(it.text)
		case "results":
			cur.Results = strings.Fields(it.text)
		case "inline":
			cur.Inline = true
		case "pure":
			cur.Pure = true
		case "hide":
			if cur.Hide == nil {
				cur.Hide = map[string]bool{}
			}
			for _, n := range strings.Fields(it.text) {
				cur.Hide[n] = true
			}
		case "injective":
			cur.Injective = strings.TrimSpace(it.text)
		case "trusted":
			cur.Trusted = true
		case "inlining":
			for _, x := range strings.Fields(it.text) {
				cur.InlineSet[x] = true
			}
		case "tags":
			cur.Tags = strings.Fields(strings.ReplaceAll(it.text, ",", " "))
		case "sig":
			p := newParser(it.text)
			cur.Sig = p.varList("")
		case "vars":
			p := newParser(it.text)
			cur.Vars = append(cur.Vars, p.varList("")...)
		case "onlink":
			i := strings.IndexAny(it.text, " ")
			c := &Clause{Pos: pos, Src: it.text, Kind: it.kw, Name: it.text[:i]}
			c.E = parseExpr(it.text[i:])
			cur.OnLink = append(cur.OnLink, c)
		case "trigger":
			p := newParser(it.text)
			cur.Trigger = append(cur.Trigger, p.expr())
			for p.accept(",") {
				cur.Trigger = append(cur.Trigger, p.expr())
			}
		case "let":
			p := newParser(it.text)
			n := p.next().s
			p.expect("=")
			e := p.expr()
			if p.peek().k != "eof" {
				panic("spec " + pos + ": trailing " + p.peek().s)
			}
			cur.Lets = append(cur.Lets, LetDecl{n, e})
		case "requires", "ensures", "use", "assert", "defines":
			c := parseClause(it.text, pos)
			c.Kind = it.kw
			switch {
			case cur.IsLemma && it.kw != "requires":
				cur.Steps = append(cur.Steps, &Step{Kind: it.kw, C: c})
			case it.kw == "requires":
				cur.Requires = append(cur.Requires, c)
			case it.kw == "ensures", it.kw == "defines":
				cur.Ensures = append(cur.Ensures, c)
			default:
				cur.Uses = append(cur.Uses, c)
			}
		case "label":
			cur.Steps = append(cur.Steps, &Step{Kind: "label", Call: it.text})
		case "exec":
			p := newParser(it.text)
			st := &Step{Kind: "exec"}
			// lhs list then = then name(args)
			txt := it.text
			if i := strings.Index(txt, ":="); i >= 0 {
				for _, x := range strings.Split(txt[:i], ",") {
					st.Lhs = append(st.Lhs, strings.TrimSpace(x))
				}
				txt = strings.TrimSpace(txt[i+2:])
			}
			// function name up to the last '(' that starts args: names may contain "(*T)."
			k := strings.Index(txt, " (")
			if k < 0 {
				panic("spec " + pos + ": exec NAME (args)")
			}
			st.Call = strings.TrimSpace(txt[:k])
			p = newParser(txt[k+1:])
			p.expect("(")
			for !p.is(")") {
				st.Args = append(st.Args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			cur.Steps = append(cur.Steps, st)
		case "modifies":
			for _, part := range splitTop(it.text, ';') {
				part = strings.TrimSpace(part)
				if part == "" {
					continue
				}
				if i := strings.Index(part, "@"); i >= 0 {
					mi := ModItem{Comp: strings.TrimSpace(part[:i])}
					for _, x := range splitTop(part[i+1:], ',') {
						mi.At = append(mi.At, parseExpr(x))
					}
					cur.Mods = append(cur.Mods, mi)
				} else {
					cur.Mods = append(cur.Mods, ModItem{Comp: part, Any: true})
				}
			}
		case "inv", "hint":
			p := newParser(it.text)
			c := &Clause{Pos: pos, Src: it.text, Kind: it.kw}
			if p.accept("[") {
				for !p.is("]") {
					c.Tags = append(c.Tags, p.next().s)
					p.accept(",")
				}
				p.expect("]")
			}
			if p.accept("(") {
				c.Vars = p.varList(")")
				p.expect(")")
			}
			c.E = p.expr()
			if p.peek().k != "eof" {
				panic("spec " + pos + ": trailing " + p.peek().s)
			}
			if it.kw == "hint" {
				cur.Hints = append(cur.Hints, c)
			} else {
				cur.Invs = append(cur.Invs, c)
			}
		}
	}
}

func splitTop(s string, sep byte) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case sep:
			if d == 0 {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	return append(out, s[st:])
}

func newParser(src string) *parser {
	ts, err := lex(src)
	if err != nil {
		panic("spec: " + err.Error() + ": " + src)
	}
	return &parser{ts: ts, src: src}
}

func (p *parser) varList(end string) []VarDecl {
	var out []VarDecl
	for p.peek().k == "id" {
		names := []string{p.next().s}
		for p.accept(",") {
			names = append(names, p.next().s)
		}
		p.expect(":")
		t := p.typ()
		for _, n := range names {
			out = append(out, VarDecl{n, t})
		}
		if !p.accept(",") {
			break
		}
	}
	return out
}

func parseClause(text, pos string) *Clause {
	c := &Clause{Pos: pos, Src: text}
	if strings.HasPrefix(text, "[") {
		i := strings.Index(text, "]")
		for _, t := range strings.Split(text[1:i], ",") {
			c.Tags = append(c.Tags, strings.TrimSpace(t))
		}
		text = strings.TrimSpace(text[i+1:])
	}
	// optional name:
	if i := strings.Index(text, ":"); i > 0 && i+1 < len(text) && text[i+1] != ':' && text[i+1] != '=' {
		nm := text[:i]
		ok := true
		for _, r := range nm {
			if !(r == '_' || r == '-' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9') {
				ok = false
			}
		}
		if ok {
			c.Name = nm
			text = strings.TrimSpace(text[i+1:])
		}
	}
	if c.Name == "" {
		c.Name = pos
	}
	c.E = parseExpr(text)
	return c
}
