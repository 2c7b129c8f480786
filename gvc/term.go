package main

// Hash-consed SMT terms with light simplification.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type Sort = string

type Term struct {
	id    int
	op    string
	args  []*Term
	sort  Sort
	bound []*Term   // quantifiers
	pats  [][]*Term // quantifiers
	fbv   []int     // free bound variable ids (sorted)
	isBV  bool
}

var termTab = map[string]*Term{}
var termCount = 0

func mk(op string, sort_ Sort, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('\x00')
	sb.WriteString(sort_)
	for _, a := range args {
		sb.WriteByte(' ')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termCount++
	t := &Term{id: termCount, op: op, args: args, sort: sort_}
	t.fbv = unionFBV(args)
	termTab[k] = t
	return t
}

func unionFBV(args []*Term) []int {
	var out []int
	for _, a := range args {
		if len(a.fbv) == 0 {
			continue
		}
		if out == nil {
			out = a.fbv
			continue
		}
		m := map[int]bool{}
		for _, x := range out {
			m[x] = true
		}
		for _, x := range a.fbv {
			m[x] = true
		}
		n := make([]int, 0, len(m))
		for x := range m {
			n = append(n, x)
		}
		sort.Ints(n)
		out = n
	}
	return out
}

var (
	TTrue  = mk("true", "Bool")
	TFalse = mk("false", "Bool")
)

func Const(name string, s Sort) *Term { return mk("c:"+name, s) }

var bvCount = 0

func BV(name string, s Sort) *Term {
	bvCount++
	termCount++
	t := &Term{id: termCount, op: fmt.Sprintf("%s!%d", sanitize(name), bvCount), sort: s, isBV: true}
	t.fbv = []int{t.id}
	return t
}

func Int(n int64) *Term {
	return mk("i:"+strconv.FormatInt(n, 10), "Int")
}

func isInt(t *Term) (int64, bool) {
	if strings.HasPrefix(t.op, "i:") {
		n, err := strconv.ParseInt(t.op[2:], 10, 64)
		return n, err == nil
	}
	return 0, false
}

func App(fn string, s Sort, args ...*Term) *Term { return mk(fn, s, args...) }

func Not(a *Term) *Term {
	if a == TTrue {
		return TFalse
	}
	if a == TFalse {
		return TTrue
	}
	if a.op == "not" {
		return a.args[0]
	}
	return mk("not", "Bool", a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == TFalse {
			return false
		}
		if a == TTrue || seen[a] {
			return true
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return TFalse
		}
	}
	switch len(out) {
	case 0:
		return TTrue
	case 1:
		return out[0]
	}
	return mk("and", "Bool", out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == TTrue {
			return false
		}
		if a == TFalse || seen[a] {
			return true
		}
		if a.op == "or" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return TTrue
		}
	}
	switch len(out) {
	case 0:
		return TFalse
	case 1:
		return out[0]
	}
	return mk("or", "Bool", out...)
}

func Implies(a, b *Term) *Term {
	if a == TTrue {
		return b
	}
	if a == TFalse || b == TTrue {
		return TTrue
	}
	if b == TFalse {
		return Not(a)
	}
	if a == b {
		return TTrue
	}
	return mk("=>", "Bool", a, b)
}

func Iff(a, b *Term) *Term { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if c == TTrue || a == b {
		return a
	}
	if c == TFalse {
		return b
	}
	if a.sort == "Bool" {
		if a == TTrue && b == TFalse {
			return c
		}
		if a == TFalse && b == TTrue {
			return Not(c)
		}
		if a == TTrue {
			return Or(c, b)
		}
		if a == TFalse {
			return And(Not(c), b)
		}
		if b == TTrue {
			return Or(Not(c), a)
		}
		if b == TFalse {
			return And(c, a)
		}
	}
	return mk("ite", a.sort, c, a, b)
}

func isLit(t *Term) bool {
	return strings.HasPrefix(t.op, "i:") || strings.HasPrefix(t.op, "lit:") || t == TTrue || t == TFalse
}

func Eq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch: %s : %s  vs %s : %s", a.Pretty(), a.sort, b.Pretty(), b.sort))
	}
	if isLit(a) && isLit(b) {
		return TFalse
	}
	if a.sort == "Bool" {
		if a == TTrue {
			return b
		}
		if b == TTrue {
			return a
		}
		if a == TFalse {
			return Not(b)
		}
		if b == TFalse {
			return Not(a)
		}
	}
	if dt := dtOfSort(a.sort); dt != nil && isCtor(a, dt) && isCtor(b, dt) {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "Bool", a, b)
}

func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

// --- arithmetic ---
func Add(a, b *Term) *Term {
	x, ok1 := isInt(a)
	y, ok2 := isInt(b)
	if ok1 && ok2 {
		return Int(x + y)
	}
	if ok1 && x == 0 {
		return b
	}
	if ok2 && y == 0 {
		return a
	}
	if ok2 && a.op == "+" {
		if z, ok := isInt(a.args[1]); ok {
			return Add(a.args[0], Int(y+z))
		}
	}
	return mk("+", "Int", a, b)
}
func Sub(a, b *Term) *Term {
	if y, ok := isInt(b); ok {
		return Add(a, Int(-y))
	}
	if a == b {
		return Int(0)
	}
	return mk("-", "Int", a, b)
}
func Lt(a, b *Term) *Term {
	x, ok1 := isInt(a)
	y, ok2 := isInt(b)
	if ok1 && ok2 {
		if x < y {
			return TTrue
		}
		return TFalse
	}
	if a == b {
		return TFalse
	}
	return mk("<", "Bool", a, b)
}
func Le(a, b *Term) *Term {
	x, ok1 := isInt(a)
	y, ok2 := isInt(b)
	if ok1 && ok2 {
		if x <= y {
			return TTrue
		}
		return TFalse
	}
	if a == b {
		return TTrue
	}
	return mk("<=", "Bool", a, b)
}

// --- arrays ---
func ArraySort(k, v Sort) Sort { return "(Array " + k + " " + v + ")" }

func arrayParts(s Sort) (Sort, Sort) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not array sort: " + s)
	}
	in := s[7 : len(s)-1]
	depth := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

// distinctTerms: syntactic disequality
func distinctTerms(a, b *Term) bool {
	if isLit(a) && isLit(b) && a != b {
		return true
	}
	fa, fb := freshRef[a], freshRef[b]
	if a.op == "c:nil" && fb > 0 || b.op == "c:nil" && fa > 0 {
		return true
	}
	if fa > 0 && fb > 0 && a != b {
		return true
	}
	// x+c vs x+d
	ba, ca := splitAdd(a)
	bb, cb := splitAdd(b)
	if ba == bb && ca != cb && a.sort == "Int" {
		return true
	}
	return false
}

func splitAdd(a *Term) (*Term, int64) {
	if n, ok := isInt(a); ok {
		return nil, n
	}
	if a.op == "+" {
		if n, ok := isInt(a.args[1]); ok {
			return a.args[0], n
		}
	}
	return a, 0
}

var freshRef = map[*Term]int{} // fresh allocation constants of the current run (pairwise distinct, non-nil)

func Select(a, k *Term) *Term {
	_, vs := arrayParts(a.sort)
	if a.op == "store" {
		if a.args[1] == k {
			return a.args[2]
		}
		if distinctTerms(a.args[1], k) {
			return Select(a.args[0], k)
		}
	}
	if strings.HasPrefix(a.op, "constarr") {
		return a.args[0]
	}
	return mk("select", vs, a, k)
}

func StoreT(a, k, v *Term) *Term {
	if a.op == "store" && a.args[1] == k {
		return StoreT(a.args[0], k, v)
	}
	if a.op == "select" {
		// no-op
	}
	ks, vs := arrayParts(a.sort)
	if ks != k.sort || vs != v.sort {
		panic(fmt.Sprintf("store sort mismatch arr %s key %s val %s", a.sort, k.sort, v.sort))
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == k {
		return a
	}
	return mk("store", a.sort, a, k, v)
}

func ConstArr(s Sort, v *Term) *Term { return mk("constarr", s, v) }

// --- quantifiers ---
func Quant(q string, vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body == TTrue || body == TFalse {
		return body
	}
	if len(vars) == 0 {
		return body
	}
	used := map[int]bool{}
	for _, f := range body.fbv {
		used[f] = true
	}
	any := false
	for _, v := range vars {
		if used[v.id] {
			any = true
		}
	}
	if !any {
		return body
	}
	termCount++
	t := &Term{id: termCount, op: q, args: []*Term{body}, sort: "Bool", bound: vars, pats: pats}
	bs := map[int]bool{}
	for _, v := range vars {
		bs[v.id] = true
	}
	for _, f := range body.fbv {
		if !bs[f] {
			t.fbv = append(t.fbv, f)
		}
	}
	return t
}
func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return Quant("forall", vars, body, pats...)
}
func Exists(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return Quant("exists", vars, body, pats...)
}

// substitute bound vars
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if len(t.fbv) == 0 {
			return t
		}
		if r, ok := m[t]; ok {
			return r
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.bound != nil {
			nb := rec(t.args[0])
			var ps [][]*Term
			for _, p := range t.pats {
				var np []*Term
				for _, x := range p {
					np = append(np, rec(x))
				}
				ps = append(ps, np)
			}
			r = Quant(t.op, t.bound, nb, ps...)
		} else if len(t.args) == 0 {
			r = t
		} else {
			na := make([]*Term, len(t.args))
			for i, a := range t.args {
				na[i] = rec(a)
			}
			r = rebuild(t, na)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, na []*Term) *Term {
	switch t.op {
	case "not":
		return Not(na[0])
	case "and":
		return And(na...)
	case "or":
		return Or(na...)
	case "=>":
		return Implies(na[0], na[1])
	case "=":
		return Eq(na[0], na[1])
	case "ite":
		return Ite(na[0], na[1], na[2])
	case "select":
		return Select(na[0], na[1])
	case "store":
		return StoreT(na[0], na[1], na[2])
	case "+":
		return Add(na[0], na[1])
	}
	if strings.HasPrefix(t.op, "sel:") {
		return dtSel(t.op[4:], t.sort, na[0])
	}
	return mk(t.op, t.sort, na...)
}

// --- datatypes ---
type DT struct {
	Name   string // sort name
	Ctor   string
	Fields []string
	Sorts  []Sort
}

var dts = map[string]*DT{}
var dtOrder []*DT

func dtOfSort(s Sort) *DT { return dts[s] }
func isCtor(t *Term, dt *DT) bool {
	return t.op == dt.Ctor
}
func dtMake(dt *DT, args ...*Term) *Term {
	// eta: mk(sel0 x, sel1 x, ...) = x
	if len(args) > 0 && strings.HasPrefix(args[0].op, "sel:") {
		x := args[0].args[0]
		if x.sort == dt.Name {
			ok := true
			for i, a := range args {
				if a.op != "sel:"+dt.Name+"."+dt.Fields[i] || a.args[0] != x {
					ok = false
					break
				}
			}
			if ok {
				return x
			}
		}
	}
	return mk(dt.Ctor, dt.Name, args...)
}
func dtField(dt *DT, t *Term, i int) *Term {
	return dtSel(dt.Name+"."+dt.Fields[i], dt.Sorts[i], t)
}
func dtSel(name string, s Sort, t *Term) *Term {
	dt := dts[t.sort]
	if dt != nil && isCtor(t, dt) {
		for i, f := range dt.Fields {
			if dt.Name+"."+f == name {
				return t.args[i]
			}
		}
	}
	if t.op == "ite" && dt != nil && (isCtor(t.args[1], dt) || isCtor(t.args[2], dt)) {
		return Ite(t.args[0], dtSel(name, s, t.args[1]), dtSel(name, s, t.args[2]))
	}
	return mk("sel:"+name, s, t)
}
func dtUpdate(dt *DT, t *Term, i int, v *Term) *Term {
	args := make([]*Term, len(dt.Fields))
	for j := range dt.Fields {
		if j == i {
			args[j] = v
		} else {
			args[j] = dtField(dt, t, j)
		}
	}
	return dtMake(dt, args...)
}

// --- printing ---
func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' || r == '@' || r == '$' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func symName(op string) string {
	for i := 0; i < len(op); i++ {
		c := op[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("_.!@$+-=<>", c) >= 0) {
			return "|" + op + "|"
		}
	}
	return op
}

func (t *Term) headStr() string {
	switch {
	case strings.HasPrefix(t.op, "c:"):
		return symName(t.op[2:])
	case strings.HasPrefix(t.op, "lit:"):
		return symName(t.op)
	case strings.HasPrefix(t.op, "i:"):
		if t.op[2] == '-' {
			return "(- " + t.op[3:] + ")"
		}
		return t.op[2:]
	case strings.HasPrefix(t.op, "sel:"):
		return symName(t.op[4:])
	case t.op == "constarr":
		return "(as const " + t.sort + ")"
	}
	if t.isBV {
		return t.op
	}
	return symName(t.op)
}

type Printer struct {
	names    map[*Term]string
	inPat    int
	defs     strings.Builder
	n        int
	uses     map[*Term]int
	consts   map[*Term]bool
	funs     map[string]*Term // uninterpreted function applications op -> sample
	order    []*Term
	lits     map[*Term]bool
	carrName map[*Term]string
	carr     []*Term // constant arrays over uninterpreted values, axiomatised
}

func NewPrinter() *Printer {
	return &Printer{names: map[*Term]string{}, uses: map[*Term]int{}, consts: map[*Term]bool{}, funs: map[string]*Term{}, lits: map[*Term]bool{}, carrName: map[*Term]string{}}
}

func (p *Printer) scan(t *Term) {
	p.uses[t]++
	if p.uses[t] > 1 {
		return
	}
	switch {
	case strings.HasPrefix(t.op, "c:"):
		if !p.consts[t] {
			p.consts[t] = true
			p.order = append(p.order, t)
		}
	case strings.HasPrefix(t.op, "lit:"):
		p.lits[t] = true
	case t.op == "constarr" && len(t.fbv) == 0 && !ground(t.args[0]):
		p.carr = append(p.carr, t)
		p.carrName[t] = fmt.Sprintf("ca!%d", len(p.carr))
	case t.bound == nil && len(t.args) > 0 && !isBuiltinOp(t):
		if p.funs[t.op] == nil {
			p.funs[t.op] = t
		}
	}
	for _, a := range t.args {
		p.scan(a)
	}
	for _, ps := range t.pats {
		for _, x := range ps {
			p.scan(x)
		}
	}
}

var builtinOps = map[string]bool{"not": true, "and": true, "or": true, "=>": true, "=": true, "ite": true, "select": true, "store": true, "+": true, "-": true, "*": true, "<": true, "<=": true, "constarr": true, "forall": true, "exists": true, "true": true, "false": true, "div": true, "mod": true}

func isBuiltinOp(t *Term) bool {
	if builtinOps[t.op] || strings.HasPrefix(t.op, "sel:") || strings.HasPrefix(t.op, "i:") {
		return true
	}
	if dt := dts[t.sort]; dt != nil && dt.Ctor == t.op {
		return true
	}
	return false
}

func (p *Printer) str(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	if t.bound != nil {
		var sb strings.Builder
		sb.WriteString("(" + t.op + " (")
		for _, v := range t.bound {
			sb.WriteString("(" + v.op + " " + v.sort + ")")
		}
		sb.WriteString(") ")
		var pats [][]*Term
		for _, ps := range t.pats {
			// a pattern must not consist of boolean connectives
			pats = append(pats, ps)
		}
		if len(pats) > 0 {
			sb.WriteString("(! ")
		}
		p.inPat++ // name the ground parts of the triggers before the body uses them
		for _, ps := range pats {
			for _, x := range ps {
				p.str(x)
			}
		}
		p.inPat--
		sb.WriteString(p.str(t.args[0]))
		for _, ps := range pats {
			sb.WriteString(" :pattern (")
			for i, x := range ps {
				if i > 0 {
					sb.WriteByte(' ')
				}
				sb.WriteString(p.str(x))
			}
			sb.WriteString(")")
		}
		if len(pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return p.maybeName(t, sb.String())
	}
	if len(t.args) == 0 {
		return t.headStr()
	}
	if t.op == "constarr" && p.carrName[t] != "" {
		return p.carrName[t]
	}
	var sb strings.Builder
	sb.WriteString("(" + t.headStr())
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(p.str(a))
	}
	sb.WriteByte(')')
	return p.maybeName(t, sb.String())
}

func (p *Printer) maybeName(t *Term, s string) string {
	if len(t.fbv) == 0 && t.sort != "Bool" && (p.inPat > 0 && t.bound == nil || p.uses[t] > 1 && len(s) > 24) {
		// a constant of its own: ground parts of triggers then match as one symbol
		p.n++
		nm := fmt.Sprintf("k!%d", p.n)
		fmt.Fprintf(&p.defs, "(declare-const %s %s)\n(assert (= %s %s))\n", nm, t.sort, nm, s)
		p.names[t] = nm
		return nm
	}
	if len(t.fbv) == 0 && p.uses[t] > 1 && len(s) > 24 {
		p.n++
		nm := fmt.Sprintf("d!%d", p.n)
		fmt.Fprintf(&p.defs, "(define-fun %s () %s %s)\n", nm, t.sort, s)
		p.names[t] = nm
		return nm
	}
	return s
}

func (t *Term) Pretty() string {
	p := NewPrinter()
	return p.str(t)
}

// ground values are those both solvers accept below (as const ...).
func ground(t *Term) bool {
	switch t.sort {
	case "Bool", "Int":
		return len(t.args) == 0
	}
	if dt := dts[t.sort]; dt != nil || t.op == "constarr" {
		for _, a := range t.args {
			if !ground(a) {
				return false
			}
		}
		return len(t.args) > 0
	}
	return false
}
