package app

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/williamflynt/topolith/pkg/world"
)

// ---------------------------------------------------------------- operations

type wop struct {
	kind    string
	a, b    string
	ip      world.ItemParams
	rp      world.RelParams
}

func sp(s string) *string { return &s }
func bp(b bool) *bool     { return &b }
func show(p *string) string {
	if p == nil {
		return "-"
	}
	return strconv.Quote(*p)
}
func showb(p *bool) string {
	if p == nil {
		return "-"
	}
	return fmt.Sprint(*p)
}
func (o wop) String() string {
	switch o.kind {
	case "create", "set":
		return fmt.Sprintf("Item%s(%q, name=%s mechanism=%s expanded=%s type=%s external=%s)", strings.Title(o.kind), o.a, show(o.ip.Name), show(o.ip.Mechanism), show(o.ip.Expanded), show(o.ip.Type), showb(o.ip.External))
	case "delete":
		return fmt.Sprintf("ItemDelete(%q)", o.a)
	case "nest":
		return fmt.Sprintf("Nest(%q, %q)", o.a, o.b)
	case "free":
		return fmt.Sprintf("Free(%q)", o.a)
	case "relcreate", "relset":
		return fmt.Sprintf("Rel%s(%q, %q, verb=%s mechanism=%s expanded=%s async=%s)", strings.Title(o.kind[3:]), o.a, o.b, show(o.rp.Verb), show(o.rp.Mechanism), show(o.rp.Expanded), showb(o.rp.Async))
	}
	return fmt.Sprintf("RelDelete(%q, %q)", o.a, o.b)
}

var idsPlain = []string{"a", "b", "c", "d", "e", "f", "g"}
var idsOdd = []string{"a::b", "b::c", "c", "a", "a::b::c", "1::a", "::", "a::", "::b", "b", "1", "3", "nil", "item", "a b", "é", "A", "aa", "2::aa", "world", "x-1", "x_1", "aaaaaaaaaa", "aaaaaaaaaaa", "10::aaaaaaaaaa", "a->b", "a,b", "a|b", "a/b", "a\x00b", "a\tb", " a", "a ", "b->c", "b,c", "b|c", "b/c", "c,d", "a:b", "b:c", "a.b", "b.c", "a-b", "b-c"}
var texts = []string{"", "x", "y", "Long name here", "true", "false", "3", "0", "a=b", "x y", "é", "X", "nil", "uses ", " x", "%d", "50%", strings.Repeat("long text ", 13)}

// texts that no line can hold
var rawTexts = []string{"a\nb", "\"q\"", "\ttab", "\n", "a\\b", "it's", "  ", strings.Repeat("z", 300), "\x00"}
var types = []string{"person", "database", "queue", "blobstore", "browser", "mobile", "server", "device", "code", "", "0", "1", "3", "9"}
var badTypes = []string{"10", "-1", "bogus", "Person", "PERSON", " code", "code ", "people", "99", "persondatabase", "1x", "x", "item", "unknown", "11", "1.0", "nil"}

func (c *vctx) pick(l []string) string { return l[c.r.Intn(len(l))] }
func (c *vctx) optText() *string {
	if c.r.Intn(2) == 0 {
		return nil
	}
	if c.prop != "C13" && c.r.Intn(6) == 0 {
		return sp(c.pick(rawTexts))
	}
	return sp(c.pick(texts))
}
func (c *vctx) optBool() *bool {
	if c.r.Intn(2) == 0 {
		return nil
	}
	return bp(c.r.Intn(2) == 0)
}
func (c *vctx) itemParams(bad bool) world.ItemParams {
	p := world.ItemParams{Name: c.optText(), Mechanism: c.optText(), Expanded: c.optText(), External: c.optBool()}
	switch x := c.r.Intn(8); {
	case x < 4:
	case x < 7 || !bad:
		p.Type = sp(c.pick(types))
	default:
		p.Type = sp(c.pick(badTypes))
	}
	return p
}
func (c *vctx) relParams() world.RelParams {
	return world.RelParams{Verb: c.optText(), Mechanism: c.optText(), Expanded: c.optText(), Async: c.optBool()}
}

type gen struct {
	ids    []string
	weight map[string]int
}

func (c *vctx) newGen() *gen {
	g := &gen{weight: map[string]int{"create": 3, "set": 2, "delete": 2, "nest": 5, "free": 2, "relcreate": 3, "relset": 2, "reldelete": 1}}
	n := 3 + c.r.Intn(5)
	g.ids = append([]string{}, idsPlain[:n]...)
	if c.r.Intn(2) == 0 {
		for i := 0; i < 3; i++ {
			g.ids[c.r.Intn(len(g.ids))] = c.pick(idsOdd)
		}
	}
	if c.r.Intn(6) == 0 {
		for i := 0; i < 10; i++ {
			g.ids = append(g.ids, fmt.Sprintf("n%d", i))
		}
		if c.r.Intn(5) == 0 {
			for i := 10; i < 40; i++ {
				g.ids = append(g.ids, fmt.Sprintf("n%d", i))
			}
		}
	}
	if c.r.Intn(4) == 0 {
		g.ids = append(g.ids, "")
	}
	return g
}
func (c *vctx) op(g *gen, kinds ...string) wop {
	tot := 0
	if len(kinds) == 0 {
		kinds = []string{"create", "set", "delete", "nest", "free", "relcreate", "relset", "reldelete"}
	}
	for _, k := range kinds {
		tot += g.weight[k]
	}
	x := c.r.Intn(tot)
	kind := ""
	for _, k := range kinds {
		if x < g.weight[k] {
			kind = k
			break
		}
		x -= g.weight[k]
	}
	return wop{kind: kind, a: c.pick(g.ids), b: c.pick(g.ids), ip: c.itemParams(true), rp: c.relParams()}
}

type outcome struct {
	err     error
	item    world.Item
	itemErr error
	rel     world.Rel
	relErr  error
	hasItem bool
	hasRel  bool
}

func (o wop) run(w world.World) (out outcome) {
	switch o.kind {
	case "create", "set", "nest", "free":
		var x world.WorldWithItem
		switch o.kind {
		case "create":
			x = w.ItemCreate(o.a, o.ip)
		case "set":
			x = w.ItemSet(o.a, o.ip)
		case "nest":
			x = w.Nest(o.a, o.b)
		default:
			x = w.Free(o.a)
		}
		out.item, out.itemErr = x.Item()
		out.hasItem = true
		out.err = x.Err()
	case "relcreate", "relset":
		var x world.WorldWithRel
		if o.kind == "relcreate" {
			x = w.RelCreate(o.a, o.b, o.rp)
		} else {
			x = w.RelSet(o.a, o.b, o.rp)
		}
		out.rel, out.relErr = x.Rel()
		out.hasRel = true
		out.err = x.Err()
	case "delete":
		out.err = w.ItemDelete(o.a).Err()
	default:
		out.err = w.RelDelete(o.a, o.b).Err()
	}
	return
}

// ---------------------------------------------------------------- the specification

var typeNames = map[string]world.ItemType{"person": 1, "database": 2, "queue": 3, "blobstore": 4, "browser": 5, "mobile": 6, "server": 7, "device": 8, "code": 9, "": 0}

func specType(s string) (world.ItemType, bool) {
	if t, ok := typeNames[s]; ok {
		return t, true
	}
	if len(s) == 1 && s[0] >= '0' && s[0] <= '9' {
		return world.ItemType(s[0] - '0'), true
	}
	return 0, false
}
func specApplyItem(i world.Item, p world.ItemParams) (world.Item, bool) {
	if p.Type != nil {
		t, ok := specType(*p.Type)
		if !ok {
			return i, false
		}
		i.Type = t
	}
	if p.Name != nil {
		i.Name = *p.Name
	}
	if p.Mechanism != nil {
		i.Mechanism = *p.Mechanism
	}
	if p.Expanded != nil {
		i.Expanded = *p.Expanded
	}
	if p.External != nil {
		i.External = *p.External
	}
	return i, true
}
func specApplyRel(i world.Rel, p world.RelParams) world.Rel {
	if p.Verb != nil {
		i.Verb = *p.Verb
	}
	if p.Mechanism != nil {
		i.Mechanism = *p.Mechanism
	}
	if p.Expanded != nil {
		i.Expanded = *p.Expanded
	}
	if p.Async != nil {
		i.Async = *p.Async
	}
	return i
}

// spec: the state after the operation, whether it is refused, and what it returns.
func (s *snap) spec(o wop) (t *snap, refused bool, item *world.Item, rel *world.Rel) {
	t = s.clone()
	_, hasA := s.items[o.a]
	_, hasB := s.items[o.b]
	k := pair{o.a, o.b}
	switch o.kind {
	case "create":
		if o.a == "" {
			return t, true, nil, nil
		}
		if hasA {
			i := s.items[o.a]
			j, ok := specApplyItem(i, o.ip)
			return t, !ok || j != i, &i, nil
		}
		i, ok := specApplyItem(world.Item{Id: o.a}, o.ip)
		if !ok {
			return t, true, nil, nil
		}
		t.items[o.a] = i
		t.parent[o.a] = ""
		return t.recomp(), false, &i, nil
	case "set":
		if !hasA {
			return t, true, nil, nil
		}
		i, ok := specApplyItem(s.items[o.a], o.ip)
		if !ok {
			return t, true, nil, nil
		}
		t.items[o.a] = i
		return t, false, &i, nil
	case "delete":
		if o.a == "" {
			return t, true, nil, nil
		}
		if !hasA {
			return t, false, nil, nil
		}
		delete(t.items, o.a)
		delete(t.parent, o.a)
		for x, p := range t.parent {
			if p == o.a {
				t.parent[x] = s.parent[o.a]
			}
		}
		for x := range t.rels {
			if x.a == o.a || x.b == o.a {
				delete(t.rels, x)
			}
		}
		return t.recomp(), false, nil, nil
	case "nest":
		if !hasA || !hasB {
			return t, true, nil, nil
		}
		i := s.items[o.a]
		if o.a == o.b {
			return t, false, &i, nil
		}
		if s.inside(o.b, o.a) {
			return t, true, nil, nil
		}
		t.parent[o.a] = o.b
		return t.recomp(), false, &i, nil
	case "free":
		if !hasA {
			return t, true, nil, nil
		}
		i := s.items[o.a]
		t.parent[o.a] = ""
		return t.recomp(), false, &i, nil
	case "relcreate":
		if !hasA || !hasB {
			return t, true, nil, nil
		}
		if r, ok := s.rels[k]; ok {
			return t, specApplyRel(r, o.rp) != r, nil, &r
		}
		r := specApplyRel(world.Rel{From: s.items[o.a], To: s.items[o.b]}, o.rp)
		t.rels[k] = r
		t.nrels++
		return t, false, nil, &r
	case "relset":
		r, ok := s.rels[k]
		if !ok {
			return t, true, nil, nil
		}
		r = specApplyRel(r, o.rp)
		t.rels[k] = r
		return t, false, nil, &r
	}
	if _, ok := t.rels[k]; ok {
		delete(t.rels, k)
		t.nrels--
	}
	return t, false, nil, nil
}
func (o wop) class() string {
	switch o.kind {
	case "nest", "free":
		return "C02"
	case "delete":
		return "C03"
	case "create", "set":
		return "C05"
	}
	return "C06"
}

// step runs one operation and checks the clauses of the property at hand. It returns the new state, and whether it is still one to go on from.
func (c *vctx) step(w world.World, pre *snap, o wop) (*snap, bool) {
	c.log(o.String())
	out := o.run(w)
	post := observe(w)
	want, refused, item, rel := pre.spec(o)
	c.eval(o.kind, o.String()+" after "+fmt.Sprint(len(pre.items), len(pre.rels)))
	d := want.diff(post, dAll)
	switch c.prop {
	case "C01":
		if f := post.forest(); f != "" {
			c.fail("after %s: %s", o, f)
		}
		if f := treeText(w, post); f != "" {
			c.fail("after %s: %s", o, f)
		}
	case "C02", "C03":
		if o.class() == c.prop {
			c.check(d == "", "%s: %s", o, d)
			if c.prop == "C02" {
				c.check(refused == (out.err != nil), "%s: refused should be %v, error is %v", o, refused, out.err)
			}
		}
	case "C05":
		if o.class() == "C05" {
			c.check(d == "", "%s: %s", o, d)
			if item != nil {
				c.check(out.item == *item, "%s returned %+v, want %+v", o, out.item, *item)
			}
			c.check((out.err != nil) == refused, "%s: conflict or refusal should be %v, error is %v", o, refused, out.err)
		}
		if f := post.views(w); f != "" {
			c.fail("after %s: %s", o, f)
		}
	case "C04":
		if f := post.relsValid(w); f != "" {
			c.fail("after %s: %s", o, f)
		}
		if o.class() == "C06" {
			k := pair{o.a, o.b}
			x, y := pre.clone(), post.clone()
			delete(x.rels, k)
			delete(y.rels, k)
			x.nrels, y.nrels = len(x.rels), len(y.rels)
			dd := x.diff(y, dRels)
			c.check(dd == "", "%s touched another pair: %s", o, dd)
			_, had := pre.rels[k]
			if o.kind == "relcreate" && !had && !refused {
				_, has := post.rels[k]
				c.check(has && out.err == nil, "%s was confused with another pair (error %v, present %v)", o, out.err, has)
			}
			for p := range post.rels {
				q := w.RelFetch(p.a, p.b, true)
				c.check(len(q) == 1 && q[0].From.Id == p.a && q[0].To.Id == p.b, "after %s: fetching %v gives %v", o, p, q)
			}
		}
	case "C06":
		if o.class() == "C06" {
			c.check(d == "", "%s: %s", o, d)
			if rel != nil {
				c.check(out.rel == *rel, "%s returned %+v, want %+v", o, out.rel, *rel)
			}
			c.check((out.err != nil) == refused, "%s: conflict or refusal should be %v, error is %v", o, refused, out.err)
		}
	case "C09":
		if out.err != nil {
			dd := pre.diff(post, dAll)
			c.check(dd == "", "%s reported %v but: %s", o, out.err, dd)
		}
		c.check(refused == (out.err != nil), "%s: refused should be %v, error is %v", o, refused, out.err)
		if out.hasItem {
			c.check(refused == (out.itemErr != nil), "%s: refused should be %v, error with the item is %v", o, refused, out.itemErr)
		}
		if out.hasRel {
			c.check(refused == (out.relErr != nil), "%s: refused should be %v, error with the relationship is %v", o, refused, out.relErr)
		}
	case "C07":
		c.queries07(w, post)
	case "C08":
		c.queries08(w, post)
	}
	ok := d == "" && post.forest() == "" && post.relsValid(w) == ""
	if c.prop == "C01" || c.prop == "C04" || c.prop == "C19" {
		ok = true
	}
	return post, ok
}

func (c *vctx) queries07(w world.World, s *snap) {
	ids := []string{"", "no such item", "zz"}
	for id := range s.items {
		ids = append(ids, id)
	}
	for _, a := range ids {
		i, has := s.items[a]
		p, ok := w.Parent(a)
		c.check(ok == has && (!ok || p == s.parent[a]) && (ok || p == ""), "Parent(%q) = %q %v", a, p, ok)
		cs, ok := w.Components(a)
		got := append([]string{}, cs...)
		sort.Strings(got)
		c.check(ok == has, "Components(%q) ok = %v", a, ok)
		for n := 1; n < len(got); n++ {
			c.check(got[n-1] != got[n], "Components(%q) lists %q twice", a, got[n])
		}
		var want []string
		for x, q := range s.parent {
			if has && q == a {
				want = append(want, x)
			}
		}
		sort.Strings(want)
		c.check(strings.Join(got, "\x01") == strings.Join(want, "\x01") && len(got) == len(want), "Components(%q) = %q, parents say %q", a, got, want)
		pi, ok := w.ItemParent(a)
		c.check(ok == has && pi.Id == s.parent[a], "ItemParent(%q) = %+v %v", a, pi, ok)
		ci, ok := w.ItemComponents(a)
		c.check(ok == has && len(ci) == len(want), "ItemComponents(%q) = %v", a, ci)
		var gi []string
		for _, x := range ci {
			gi = append(gi, x.Id)
		}
		sort.Strings(gi)
		c.check(strings.Join(gi, "\x01") == strings.Join(want, "\x01"), "ItemComponents(%q) = %q, want %q", a, gi, want)
		_ = i
		for _, b := range ids {
			_, hb := s.items[b]
			c.check(w.In(a, b, false) == (has && hb && s.inside(a, b)), "In(%q, %q, false) = %v", a, b, w.In(a, b, false))
			c.check(w.In(a, b, true) == (has && a == b), "In(%q, %q, true) = %v", a, b, w.In(a, b, true))
		}
		c.eval("queries", fmt.Sprintf("queries about %q of %d", a, len(s.items)))
	}
	for _, n := range []int{-3, -1, 0, 1, 2, 3, len(s.items) - 1, len(s.items), len(s.items) + 1, 100} {
		l := w.ItemList(n)
		want := len(s.items)
		if n > 0 && n < want {
			want = n
		}
		seen := map[string]bool{}
		for _, x := range l {
			c.check(!seen[x.Id] && s.items[x.Id] == x && x.Id != "", "ItemList(%d) shows %+v twice or wrongly", n, x)
			seen[x.Id] = true
		}
		c.check(len(l) == want, "ItemList(%d) has %d of %d items", n, len(l), len(s.items))
	}
	for _, n := range []int{-3, -1, 0, 1, 2, 3, len(s.rels) - 1, len(s.rels), len(s.rels) + 1, 100} {
		l := w.RelList(n)
		want := len(s.rels)
		if n > 0 && n < want {
			want = n
		}
		seen := map[pair]bool{}
		for _, x := range l {
			k := pair{x.From.Id, x.To.Id}
			c.check(!seen[k] && s.rels[k] == x, "RelList(%d) shows %+v twice or wrongly", n, x)
			seen[k] = true
		}
		c.check(len(l) == want, "RelList(%d) has %d of %d relationships", n, len(l), len(s.rels))
	}
}

func (c *vctx) queries08(w world.World, s *snap) {
	ids := []string{"", "no such item"}
	for id := range s.items {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	cmp := func(what string, got []world.Rel, want func(k pair) bool) {
		seen := map[pair]bool{}
		for _, r := range got {
			k := pair{r.From.Id, r.To.Id}
			c.check(!seen[k], "%s returns %v twice", what, k)
			seen[k] = true
			c.check(want(k) && s.rels[k] == r, "%s returns %v", what, k)
		}
		for k := range s.rels {
			c.check(seen[k] || !want(k), "%s misses %v", what, k)
		}
		c.eval("queries", what)
	}
	for _, a := range ids {
		a := a
		cmp(fmt.Sprintf("RelFrom(%q, true)", a), w.RelFrom(a, true), func(k pair) bool { return k.a == a })
		cmp(fmt.Sprintf("RelFrom(%q, false)", a), w.RelFrom(a, false), func(k pair) bool { return s.inside(k.a, a) })
		cmp(fmt.Sprintf("RelTo(%q, true)", a), w.RelTo(a, true), func(k pair) bool { return k.b == a })
		cmp(fmt.Sprintf("RelTo(%q, false)", a), w.RelTo(a, false), func(k pair) bool { return s.inside(k.b, a) })
		for _, b := range ids {
			b := b
			cmp(fmt.Sprintf("RelFetch(%q, %q, true)", a, b), w.RelFetch(a, b, true), func(k pair) bool { return k.a == a && k.b == b })
			cmp(fmt.Sprintf("RelFetch(%q, %q, false)", a, b), w.RelFetch(a, b, false), func(k pair) bool { return s.inside(k.a, a) && s.inside(k.b, b) })
		}
	}
}

// small enumerates every sequence of up to n operations over a small alphabet after a fixed preparation.
func (c *vctx) small(alphabet []wop, prep []wop, n int) {
	var rec func(seq []wop)
	rec = func(seq []wop) {
		if len(seq) > 0 {
			c.runSeq(append(append([]wop{}, prep...), seq...), len(prep))
		}
		if len(seq) == n || c.over() {
			return
		}
		for _, o := range alphabet {
			rec(append(append([]wop{}, seq...), o))
		}
	}
	rec(nil)
}
func (c *vctx) runSeq(ops []wop, quiet int) {
	w := world.CreateWorld("w")
	s := observe(w)
	c.reset()
	for i, o := range ops {
		if i < quiet && i < len(ops)-1 {
			o.run(w)
			c.log(o.String())
			if i == quiet-1 {
				s = observe(w)
			}
			continue
		}
		ok := true
		s, ok = c.step(w, s, o)
		if !ok {
			return
		}
	}
}
func (c *vctx) sequences(kinds func(g *gen)) {
	// A deep and a wide world, then moves and deletions at every place.
	mk := func(shape string, n int) (prep []wop) {
		for i := 0; i < n; i++ {
			prep = append(prep, wop{kind: "create", a: fmt.Sprintf("k%d", i), ip: world.ItemParams{Name: sp(fmt.Sprintf("name %d", i)), Type: sp("code")}})
		}
		for i := 1; i < n; i++ {
			p := i - 1
			if shape == "wide" {
				p = 0
			} else if shape == "bin" {
				p = (i - 1) / 2
			} else if shape == "bushy" {
				p = (i - 1) / 5
			}
			prep = append(prep, wop{kind: "nest", a: fmt.Sprintf("k%d", i), b: fmt.Sprintf("k%d", p)})
		}
		for i := 0; i < n; i++ {
			prep = append(prep, wop{kind: "relcreate", a: fmt.Sprintf("k%d", i), b: fmt.Sprintf("k%d", (i*3+1)%n), rp: world.RelParams{Verb: sp(fmt.Sprint("v", i))}})
		}
		return
	}
	// Deeper and wider ones, at a few places.
	for _, shape := range []string{"deep", "wide", "bin", "bushy"} {
		for _, n := range []int{13, 40} {
			prep := mk(shape, n)
			for _, i := range []int{0, 1, n / 2, n - 2, n - 1} {
				a := fmt.Sprintf("k%d", i)
				c.runSeq(append(append([]wop{}, prep...), wop{kind: "delete", a: a}), len(prep))
				c.runSeq(append(append([]wop{}, prep...), wop{kind: "free", a: a}), len(prep))
				for _, j := range []int{0, 1, n / 2, n - 2, n - 1} {
					c.runSeq(append(append([]wop{}, prep...), wop{kind: "nest", a: a, b: fmt.Sprintf("k%d", j)}), len(prep))
				}
			}
		}
	}
	for _, shape := range []string{"deep", "wide", "bin"} {
		n := 7
		prep := mk(shape, n)
		for i := 0; i < n; i++ {
			a := fmt.Sprintf("k%d", i)
			for _, o := range []wop{{kind: "delete", a: a}, {kind: "free", a: a}, {kind: "set", a: a, ip: world.ItemParams{Mechanism: sp("m")}}, {kind: "create", a: a, ip: world.ItemParams{Name: sp("other")}}} {
				c.runSeq(append(append([]wop{}, prep...), o), len(prep))
			}
			for j := 0; j < n; j++ {
				b := fmt.Sprintf("k%d", j)
				for _, o := range []wop{{kind: "nest", a: a, b: b}, {kind: "reldelete", a: a, b: b}, {kind: "relset", a: a, b: b, rp: world.RelParams{Expanded: sp("e")}}, {kind: "relcreate", a: a, b: b, rp: world.RelParams{Verb: sp("n"), Async: bp(true)}}} {
					c.runSeq(append(append([]wop{}, prep...), o), len(prep))
				}
			}
		}
	}
	// Pairs that could be confused.
	for _, sep := range []string{"::", ":", "->", ",", "|", "/", " ", "-", "_", "\x00", "\t", ".", ";", "=>", "~", "#", "\n", "", "1", "a"} {
		x, y, z := "a"+sep+"b", "b"+sep+"c", "c"
		var ops []wop
		for _, id := range []string{"a", x, y, z, "b", "c" + sep, sep + "c", "a" + sep} {
			if id != "" {
				ops = append(ops, wop{kind: "create", a: id})
			}
		}
		n := len(ops)
		ops = append(ops, wop{kind: "relcreate", a: "a", b: y, rp: world.RelParams{Verb: sp("one")}}, wop{kind: "relcreate", a: x, b: z, rp: world.RelParams{Verb: sp("two")}},
			wop{kind: "relcreate", a: "a" + sep, b: z, rp: world.RelParams{Verb: sp("three")}}, wop{kind: "relcreate", a: "a", b: sep + "c", rp: world.RelParams{Verb: sp("four")}},
			wop{kind: "relset", a: x, b: z, rp: world.RelParams{Mechanism: sp("m")}}, wop{kind: "relcreate", a: "b", b: "a", rp: world.RelParams{Verb: sp("back")}}, wop{kind: "relcreate", a: "a", b: "b", rp: world.RelParams{Verb: sp("forth")}}, wop{kind: "reldelete", a: "b", b: "a"},
			wop{kind: "reldelete", a: "a", b: y}, wop{kind: "delete", a: "a"}, wop{kind: "delete", a: z})
		c.runSeq(ops, n)
	}
	for n := 0; !c.over() && n < 4000*c.scale; n++ {
		g := c.newGen()
		if kinds != nil {
			kinds(g)
		}
		w := world.CreateWorld("w")
		s := observe(w)
		c.reset()
		for _, id := range g.ids {
			if id != "" && c.r.Intn(5) > 0 {
				o := wop{kind: "create", a: id, ip: c.itemParams(false)}
				c.log(o.String())
				o.run(w)
			}
		}
		for i := 0; i < len(g.ids)/2; i++ {
			o := wop{kind: "nest", a: c.pick(g.ids), b: c.pick(g.ids)}
			c.log(o.String())
			o.run(w)
		}
		s = observe(w)
		if c.prop != "C01" && (s.forest() != "" || s.relsValid(w) != "") {
			continue
		}
		for i := 0; i < 25; i++ {
			var ok bool
			s, ok = c.step(w, s, c.op(g))
			if !ok {
				break
			}
		}
	}
}

func init() {
	for p, boost := range map[string][]string{
		"C01": {"nest", "free", "delete"}, "C02": {"nest", "free"}, "C03": {"delete", "nest"}, "C04": {"relcreate", "relset", "reldelete"}, "C05": {"create", "set"},
		"C06": {"relcreate", "relset", "reldelete"}, "C07": {"nest"}, "C08": {"relcreate", "nest"}, "C09": {},
	} {
		boost := boost
		vprops[p] = func(c *vctx) {
			c.sequences(func(g *gen) {
				for _, b := range boost {
					g.weight[b] += 3
				}
			})
		}
	}
	vprops["C20"] = func(c *vctx) {
		names := []string{"", "person", "database", "queue", "blobstore", "browser", "mobile", "server", "device", "code"}
		seen := map[string]world.ItemType{}
		for t := world.ItemType(-3); t < 300; t++ {
			n := world.StringFromItemType(t)
			c.eval("type to name", fmt.Sprint(int(t)))
			if t >= 1 && int(t) < len(names) {
				c.check(n != "", "type %d has no name", t)
				c.check(world.ItemTypeFromString(n) == t, "type %d is named %q, which names %d", t, n, world.ItemTypeFromString(n))
				if u, ok := seen[n]; ok {
					c.fail("types %d and %d are both named %q", t, u, n)
				}
				seen[n] = t
				c.check(world.ItemTypeFromString(names[t]) == t && n == names[t], "type %d is named %q", t, n)
			} else {
				c.check(n == "", "%d is no type but is named %q", t, n)
			}
		}
		var all []string
		for _, n := range names[1:] {
			all = append(all, n, strings.ToUpper(n), strings.Title(n), n+"s", n+" ", " "+n, n[:len(n)-1], n+"x", "x"+n, n[1:])
		}
		all = append(append(append(append(all, texts...), types...), badTypes...), idsOdd...)
		for _, s := range all {
			t, known := specType(s)
			_, isName := typeNames[s]
			c.eval("name to type", s)
			if !isName {
				c.check(world.ItemTypeFromString(s) == 0, "%q is accepted as type %d", s, world.ItemTypeFromString(s))
			} else {
				c.check(world.ItemTypeFromString(s) == t, "%q gives type %d", s, world.ItemTypeFromString(s))
			}
			if !isName && !known {
				if _, err := strconv.Atoi(s); err == nil {
					n, _ := strconv.Atoi(s)
					if n >= 0 && n <= 9 {
						continue // another spelling of a number
					}
				}
			}
			for _, prev := range []string{"", "person", "code"} {
				w := world.CreateWorld("w")
				c.reset(fmt.Sprintf("create an item with type %q, or set it on one of type %q", s, prev))
				i, err := w.ItemCreate("a", world.ItemParams{Type: sp(s)}).Item()
				_, has := w.ItemFetch("a")
				c.check((err == nil) == known && has == known, "creating with type %q: error %v, created %v", s, err, has)
				if known {
					c.check(i.Type == t, "creating with type %q gives type %d", s, i.Type)
				}
				w.ItemCreate("b", world.ItemParams{Type: sp(prev)})
				i, err = w.ItemSet("b", world.ItemParams{Type: sp(s)}).Item()
				j, _ := w.ItemFetch("b")
				c.check((err == nil) == known, "setting type %q: error %v", s, err)
				if known {
					c.check(i.Type == t && j.Type == t, "setting type %q gives type %d", s, j.Type)
				} else {
					c.check(j.Type == typeNames[prev], "setting type %q is refused but changes the type to %d", s, j.Type)
				}
			}
		}
		for _, a := range append(append([]string{}, types...), badTypes...) {
			for _, b := range append(append([]string{}, types...), badTypes...) {
				w := world.CreateWorld("w")
				c.reset(fmt.Sprintf("set type %q, then %q", a, b))
				w.ItemCreate("a", world.ItemParams{})
				ta, oka := specType(a)
				tb, okb := specType(b)
				w.ItemSet("a", world.ItemParams{Type: sp(a)})
				w.ItemSet("a", world.ItemParams{Type: sp(b)})
				want := world.ItemType(0)
				if oka {
					want = ta
				}
				if okb {
					want = tb
				}
				i, _ := w.ItemFetch("a")
				c.check(i.Type == want, "type is %d, want %d", i.Type, want)
				c.eval("sequences", a+" "+b)
			}
		}
	}
}
