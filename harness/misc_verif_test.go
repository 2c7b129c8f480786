package app

import (
	stderrors "errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"

	terr "github.com/williamflynt/topolith/pkg/errors"
	"github.com/williamflynt/topolith/pkg/persistence"
	"github.com/williamflynt/topolith/pkg/world"
)

// ---------------------------------------------------------------- C14

const quotable = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.,!@#$%^&*()[]+=~;: "

var textWords = []string{"nil", "item", "world", "endworld", "endworld$$", "$$world", "tree{nil", "in", "rel", "true", "name=x", "200 ok", "$$$$", "::", "::[", "]", " ", "  ", "a", "b", "c", "A", "a b", " a", "a ", "1", "0", "-", "_", ".", "type=code", "error", "version=1", "a::b", "b::c", "item a", "strict", "-strict", "[", "]}", "%", "%s", "%d", "%q", "%!s(MISSING)", "100%", "#", "list", "create", "code", "person", "id=a", "expanded"}

func (c *vctx) quotableText() string {
	switch c.r.Intn(4) {
	case 0:
		return ""
	case 1:
		t := textWords[c.r.Intn(len(textWords))]
		for _, r := range t {
			if !strings.ContainsRune(quotable, r) {
				return "a"
			}
		}
		return t
	}
	n := 1 + c.r.Intn(6)
	b := make([]byte, n)
	for i := range b {
		b[i] = quotable[c.r.Intn(len(quotable))]
	}
	return string(b)
}
func (c *vctx) quotableId() string {
	for {
		if s := c.quotableText(); s != "" {
			return s
		}
	}
}
func (c *vctx) textItem(id string) world.Item {
	return world.Item{Id: id, External: c.r.Intn(2) == 0, Type: world.ItemType(c.r.Intn(10)), Name: c.quotableText(), Mechanism: c.quotableText(), Expanded: c.quotableText()}
}
func paramsOf(i world.Item) world.ItemParams {
	return world.ItemParams{External: bp(i.External), Type: sp(fmt.Sprint(int(i.Type))), Name: sp(i.Name), Mechanism: sp(i.Mechanism), Expanded: sp(i.Expanded)}
}

// textWorld makes a world whose strings the text format can represent.
func (c *vctx) textWorld(max int) (world.World, []string) {
	w := world.CreateWorld(c.quotableText())
	w.SetVersion(c.r.Intn(1000) * c.r.Intn(2))
	w.SetId(c.quotableId())
	w.SetExpanded(c.quotableText())
	c.log(fmt.Sprintf("world %d id=%q name=%q expanded=%q", w.Version(), w.Id(), w.Name(), w.Expanded()))
	var ids []string
	for n := c.r.Intn(max + 1); n > 0; n-- {
		i := c.textItem(c.quotableId())
		w.ItemCreate(i.Id, paramsOf(i))
		ids = append(ids, i.Id)
		c.log(fmt.Sprintf("%+v", i))
	}
	for n := 0; n < len(ids)*3/2; n++ {
		a, b := c.pick(ids), c.pick(ids)
		w.Nest(a, b)
		c.log(fmt.Sprintf("nest %q in %q", a, b))
	}
	for n := 0; n < len(ids); n++ {
		a, b := c.pick(ids), c.pick(ids)
		p := world.RelParams{Verb: sp(c.quotableText()), Mechanism: sp(c.quotableText()), Expanded: sp(c.quotableText()), Async: bp(c.r.Intn(2) == 0)}
		w.RelCreate(a, b, p)
		c.log(fmt.Sprintf("rel %q %q %q %q %q %v", a, b, *p.Verb, *p.Mechanism, *p.Expanded, *p.Async))
	}
	return w, ids
}

// treeShape is what a tree shows, independently of order.
func treeShape(t world.Tree) string {
	var cs []string
	for _, x := range t.Components().ToSlice() {
		cs = append(cs, treeShape(x))
	}
	sort.Strings(cs)
	return fmt.Sprintf("{%+v %s}", t.Item(), strings.Join(cs, " "))
}
func (c *vctx) textTree(ids []string) string {
	// ids are distinct; the text of a tree over them
	var rec func(l []string) string
	rec = func(l []string) string {
		root, rest := l[0], l[1:]
		var cs []string
		for len(rest) > 0 {
			n := 1 + c.r.Intn(len(rest))
			cs = append(cs, rec(rest[:n]))
			rest = rest[n:]
		}
		head := root
		return "tree{" + head + "::[" + strings.Join(cs, " ") + "]}"
	}
	return rec(ids)
}
func (c *vctx) distinctIds(n int) []string {
	seen := map[string]bool{}
	var r []string
	for len(r) < n {
		s := c.quotableId()
		if !seen[s] {
			seen[s] = true
			r = append(r, s)
		}
	}
	return r
}

func c14(c *vctx) {
	for n := 0; !c.over() && n < 1500*c.scale; n++ {
		c.reset()
		// items
		i := c.textItem(c.quotableId())
		j, err := world.ItemFromString(i.String())
		c.reset(fmt.Sprintf("%+v", i), i.String())
		c.check(err == nil && i == j, "the item reads back as %+v (error %v)", j, err)
		c.eval("item", i.String())
		// relationships
		k := c.textItem(c.quotableId())
		w := world.CreateWorld("w")
		w.ItemCreate(i.Id, paramsOf(i))
		if k.Id == i.Id {
			k = i
		}
		w.ItemCreate(k.Id, paramsOf(k))
		r := world.Rel{From: i, To: k, Verb: c.quotableText(), Mechanism: c.quotableText(), Expanded: c.quotableText(), Async: c.r.Intn(2) == 0}
		q, err := world.RelFromString(w, r.String())
		c.reset(fmt.Sprintf("%+v", r), r.String())
		c.check(err == nil && q == r, "the relationship reads back as %+v (error %v)", q, err)
		c.eval("relationship", r.String())
		// trees
		ids := c.distinctIds(1 + c.r.Intn(8))
		var heads []string
		for _, id := range ids {
			heads = append(heads, c.textItem(id).String())
		}
		if c.r.Intn(2) == 0 {
			heads[0] = "nil"
		}
		txt := c.textTree(heads)
		c.reset(txt)
		t, m, err := world.TreeFromString(txt)
		c.check(err == nil && t != nil, "the tree is not read: %v", err)
		shape := treeShape(t)
		for x, id := range ids {
			if x > 0 || heads[0] != "nil" {
				f, ok := t.Find(id)
				c.check(ok && f.Item().String() == heads[x], "item %s reads back as %v", heads[x], f)
			}
		}
		c.check(t.Item().String() == heads[0] || heads[0] == "nil" && t.Item() == (world.Item{}), "the root %s reads back as %s", heads[0], t.Item())
		_ = m
		t2, _, err := world.TreeFromString(t.String())
		c.check(err == nil && treeShape(t2) == shape, "the tree %s written as %s reads back as %v (error %v)", shape, t.String(), t2, err)
		c.check(world.TreeEqual(t, t2), "the tree %s reads back as a different tree %s", t, t2)
		norm := func(s string) string { return regexp.MustCompile(`\s+`).ReplaceAllString(s, " ") }
		if len(ids) == 1 {
			c.check(norm(t.String()) == norm(txt), "the tree %s is written as %s", txt, t)
		}
		c.eval("tree", txt)
		// worlds
		c.reset()
		w, _ = c.textWorld(7)
		s := observe(w)
		if s.forest() != "" || s.relsValid(w) != "" {
			continue
		}
		txt = w.String()
		w2, err := world.FromString(txt)
		c.log(txt)
		c.check(err == nil, "the world is not read: %v", err)
		d := s.diff(observe(w2), dAll)
		c.check(d == "", "reading the written world: %s", d)
		c.check(world.WorldEqual(w, w2), "the world reads back as a different one")
		c.eval("world", txt)
		// what was read is a world like any other
		if len(s.items) > 0 {
			for id := range s.items {
				w2.Free(id)
				x, want, ok := observe(w2), s.clone(), true
				want.parent[id] = ""
				ok = want.recomp().diff(x, dAll) == ""
				c.check(ok, "freeing %q in the world that was read: %s", id, want.diff(x, dAll))
				break
			}
		}
	}
}

// ---------------------------------------------------------------- C15

func c15(c *vctx) {
	eqI := func(a, b world.Item) {
		c.reset(fmt.Sprintf("%+v", a), fmt.Sprintf("%+v", b))
		c.check(world.ItemEqual(a, b) == (a == b), "items equal: %v", world.ItemEqual(a, b))
		c.eval("items", c.hist[0]+c.hist[1])
	}
	mutI := func(a world.Item, k int) world.Item {
		switch k {
		case 0:
			a.Id += "x"
		case 1:
			a.External = !a.External
		case 2:
			a.Type = (a.Type + 1) % 10
		case 3:
			a.Name += "x"
		case 4:
			a.Mechanism += " "
		case 5:
			a.Expanded += "."
		case 6:
			a.Name, a.Expanded = a.Expanded, a.Name
		case 7:
			a.Name, a.Mechanism = a.Mechanism, a.Name
		case 8:
			a.Name = strings.ToUpper(a.Name)
		}
		return a
	}
	rel := func() world.Rel {
		return world.Rel{From: c.textItem(c.pick(idsPlain)), To: c.textItem(c.pick(idsPlain)), Verb: c.quotableText(), Mechanism: c.quotableText(), Expanded: c.quotableText(), Async: c.r.Intn(2) == 0}
	}
	for n := 0; !c.over() && n < 800*c.scale; n++ {
		a := c.textItem(c.pick(idsPlain))
		eqI(a, a)
		eqI(a, c.textItem(c.pick(idsPlain)))
		for k := 0; k < 9; k++ {
			eqI(a, mutI(a, k))
			eqI(mutI(a, k), a)
		}
		x := rel()
		for k := 0; k < 17; k++ {
			y := x
			switch k {
			case 0:
			case 1:
				y.From = mutI(y.From, c.r.Intn(9))
			case 2:
				y.To = mutI(y.To, c.r.Intn(9))
			case 3:
				y.Verb += "x"
			case 4:
				y.Mechanism += "x"
			case 5:
				y.Expanded += "x"
			case 6:
				y.Async = !y.Async
			case 7:
				y.From, y.To = y.To, y.From
			case 8:
				y.Verb, y.Mechanism = y.Mechanism, y.Verb
			default:
				y.From = mutI(y.From, k-9)
				if k%2 == 0 {
					y.To, y.From = mutI(x.To, k-9), x.From
				}
			}
			c.reset(fmt.Sprintf("%+v", x), fmt.Sprintf("%+v", y))
			c.check(world.RelEqual(x, y) == (x == y) && world.RelEqual(y, x) == (x == y), "relationships equal: %v", world.RelEqual(x, y))
			c.eval("relationships", c.hist[0]+c.hist[1])
		}
		// trees
		ids := c.distinctIds(1 + c.r.Intn(7))
		heads := make([]string, len(ids))
		items := make([]world.Item, len(ids))
		for i, id := range ids {
			items[i] = c.textItem(id)
			heads[i] = items[i].String()
		}
		if c.r.Intn(3) == 0 {
			heads[0] = "nil"
		}
		seed := c.r.Int63()
		mk := func(h []string) world.Tree {
			r := c.r.Int63()
			c.r.Seed(seed)
			t, _, err := world.TreeFromString(c.textTree(h))
			c.r.Seed(r)
			if err != nil {
				return nil
			}
			return t
		}
		t1 := mk(heads)
		var others []world.Tree
		others = append(others, t1, mk(heads))
		h2 := append([]string{}, heads...)
		i := c.r.Intn(len(h2))
		if h2[i] != "nil" {
			h2[i] = mutI(items[i], c.r.Intn(9)).String()
			others = append(others, mk(h2))
		}
		if len(heads) > 1 {
			h3 := append([]string{}, heads...)
			i, j := 1+c.r.Intn(len(h3)-1), 1+c.r.Intn(len(h3)-1)
			h3[i], h3[j] = h3[j], h3[i]
			others = append(others, mk(h3), mk(heads[:len(heads)-1]))
			seed = c.r.Int63()
			others = append(others, mk(heads))
		}
		for _, t2 := range others {
			if t1 == nil || t2 == nil {
				continue
			}
			s1, s2 := treeShape(t1), treeShape(t2)
			c.reset(s1, s2)
			for rep := 0; rep < 3; rep++ {
				c.check(world.TreeEqual(t1, t2) == (s1 == s2), "trees equal: %v", world.TreeEqual(t1, t2))
				c.check(world.TreeEqual(t2, t1) == (s1 == s2), "trees equal the other way round: %v", world.TreeEqual(t2, t1))
			}
			c.check(treeShape(t1) == s1 && treeShape(t2) == s2, "comparing changed a tree")
			c.eval("trees", s1+s2)
		}
		// worlds
		c.reset()
		mkw := func(s *snap, order []string, tweak func(world.World)) world.World {
			w := world.CreateWorld("x")
			var ver int
			var id, name, exp string
			fmt.Sscanf(s.info, "%d %q %q %q", &ver, &id, &name, &exp)
			w.SetVersion(ver).SetId(id).SetName(name).SetExpanded(exp)
			for _, k := range order {
				w.ItemCreate(k, paramsOf(s.items[k]))
			}
			for _, k := range order {
				if s.parent[k] != "" {
					w.Nest(k, s.parent[k])
				}
			}
			var ps []pair
			for k := range s.rels {
				ps = append(ps, k)
			}
			for _, k := range ps {
				r := s.rels[k]
				w.RelCreate(k.a, k.b, world.RelParams{Verb: sp(r.Verb), Mechanism: sp(r.Mechanism), Expanded: sp(r.Expanded), Async: bp(r.Async)})
			}
			if tweak != nil {
				tweak(w)
			}
			return w
		}
		w0, _ := c.textWorld(6)
		s := observe(w0)
		if s.forest() != "" || s.relsValid(w0) != "" {
			continue
		}
		var order []string
		for k := range s.items {
			order = append(order, k)
		}
		sort.Strings(order)
		g := &gen{ids: append([]string{"fresh"}, order...), weight: map[string]int{"create": 1, "set": 3, "delete": 1, "nest": 3, "free": 2, "relcreate": 2, "relset": 3, "reldelete": 2}}
		h0 := append([]string{}, c.hist...)
		for rep := 0; rep < 10; rep++ {
			c.reset(h0...)
			var o wop
			tw := func(w world.World) {
				switch {
				case rep < 2:
				case rep == 2:
					w.SetVersion(w.Version() + 1)
				case rep == 3:
					w.SetName(w.Name() + "x")
				case rep == 4:
					w.SetId(w.Id() + "x")
				case rep == 5:
					w.SetExpanded(w.Expanded() + "x")
				default:
					o = c.op(g)
					c.reset(append(append([]string{}, h0...), o.String())...)
					o.run(w)
				}
			}
			c.r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
			w1 := mkw(s, order, nil)
			c.r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
			w2 := mkw(s, order, tw)
			s1, s2 := observe(w1), observe(w2)
			same := s1.diff(s2, dAll) == ""
			c.check(world.WorldEqual(w1, w2) == same, "worlds equal: %v, but the difference is %q", world.WorldEqual(w1, w2), s1.diff(s2, dAll))
			c.check(world.WorldEqual(w2, w1) == same, "worlds equal the other way round: %v, but the difference is %q", world.WorldEqual(w2, w1), s1.diff(s2, dAll))
			c.check(world.WorldEqual(w1, w1), "a world differs from itself")
			c.check(s1.diff(observe(w1), dAll) == "" && s2.diff(observe(w2), dAll) == "", "comparing changed a world")
			c.eval("worlds", fmt.Sprint(rep, s1.info, o.String(), len(s1.items)))
		}
	}
}

// ---------------------------------------------------------------- C17

type errModel struct {
	code terr.TopolithErrorCode
	desc string
	msg  string
	data []terr.KvPair
	errs []error
}

var errTextC17 = regexp.MustCompile(`(?s)^(-?[0-9]+) error "`)

func c17(c *vctx) {
	sent := []error{stderrors.New("one"), stderrors.New("two"), os.ErrNotExist, terr.New("inner").UseCode(terr.TopolithErrorNotFound), fmt.Errorf("wrap %w", os.ErrExist),
		terr.New("outer").UseCode(terr.TopolithErrorMultiple).WithError(stderrors.New("nested"), stderrors.New("second")), terr.Join(stderrors.New("j1"), stderrors.New("j2")), terr.Join(), stderrors.Join(stderrors.New("s1"), stderrors.New("s2")),
		terr.New("with data").WithData(terr.KvPair{Key: "k", Value: "v"}).WithError(os.ErrClosed), stderrors.New(""), terr.TopolithError{}}
	codes := []terr.TopolithErrorCode{400, 404, 409, 450, 500, 502, 600, 0, 1, 999, -5}
	descs := map[terr.TopolithErrorCode]bool{400: true, 404: true, 409: true, 450: true, 500: true, 502: true, 600: true}
	std := map[terr.TopolithErrorCode]string{}
	for _, k := range codes {
		std[k] = terr.New("x").UseCode(k).Description
	}
	type val struct {
		e terr.TopolithError
		m errModel
	}
	same := func(v val) string {
		e, m := v.e, v.m
		if e.Code != m.code || e.Description != m.desc || e.Message != m.msg {
			return fmt.Sprintf("it is %d %q %q, want %d %q %q", e.Code, e.Description, e.Message, m.code, m.desc, m.msg)
		}
		if len(e.Data) != len(m.data) || len(m.data) > 0 && !reflect.DeepEqual(e.Data, m.data) {
			return fmt.Sprintf("its data is %v, want %v", e.Data, m.data)
		}
		u := stderrors.Unwrap(e)
		if len(m.errs) == 0 && u != nil || len(m.errs) > 0 && !reflect.DeepEqual(u, m.errs[0]) {
			return fmt.Sprintf("it unwraps to %v, want the first of %v", u, m.errs)
		}
		txt := e.Error()
		pre := fmt.Sprintf(`%d error "%s: %s"`, m.code, m.desc, m.msg)
		if !strings.HasPrefix(txt, pre) || txt != e.String() {
			return fmt.Sprintf("its text is %q, want it to start with %q", txt, pre)
		}
		rest := txt[len(pre):]
		var ws []string
		for _, w := range m.errs {
			if w != nil {
				ws = append(ws, w.Error())
			}
		}
		if len(m.errs) == 0 && rest != "" || len(m.errs) > 0 && rest != fmt.Sprintf(` errors=["%s"]`, ws) && !(len(ws) == 0 && strings.HasPrefix(rest, " errors=[")) {
			return fmt.Sprintf("its text is %q with errors %q", txt, ws)
		}
		for _, w := range m.errs[:min(1, len(m.errs))] {
			if w != nil && !isErr(e, w) {
				return fmt.Sprintf("errors.Is does not reach %v", w)
			}
		}
		return ""
	}
	for n := 0; !c.over() && n < 3000*c.scale; n++ {
		c.reset()
		var vs []val
		for i := 0; i < 12; i++ {
			if len(vs) == 0 || c.r.Intn(8) == 0 {
				t := c.pick(texts)
				e := terr.New(t)
				c.check(e.Code == 500 && e.Message == t && len(e.Data) == 0 && e.Unwrap() == nil, "New(%q) is %v", t, e)
				c.log(fmt.Sprintf("e%d = New(%q)", len(vs), t))
				vs = append(vs, val{e, errModel{code: 500, desc: std[500], msg: t}})
				continue
			}
			at := c.r.Intn(len(vs))
			v := vs[at]
			m := v.m
			m.data = append([]terr.KvPair{}, m.data...)
			m.errs = append([]error{}, m.errs...)
			var e terr.TopolithError
			what := ""
			switch c.r.Intn(7) {
			case 0:
				k := codes[c.r.Intn(len(codes))]
				e = v.e.UseCode(k)
				m.code = k
				if descs[k] {
					m.desc = std[k]
				}
				what = fmt.Sprintf("UseCode(%d)", k)
			case 1:
				d := c.pick(texts)
				e = v.e.WithDescription(d)
				m.desc = d
				what = fmt.Sprintf("WithDescription(%q)", d)
			case 2, 3:
				var d []terr.KvPair
				for k := c.r.Intn(4); k > 0; k-- {
					d = append(d, terr.KvPair{Key: fmt.Sprint(n, i, k), Value: c.pick(texts)})
				}
				e = v.e.WithData(d...)
				m.data = append(m.data, d...)
				what = fmt.Sprintf("WithData(%v)", d)
				for k := range d { // the caller goes on to use its own slice
					d[k].Key = "clobbered"
				}
			case 4:
				e = v.e.ClearData()
				m.data = nil
				what = "ClearData()"
			default:
				var d []error
				for k := c.r.Intn(3); k > 0; k-- {
					d = append(d, sent[c.r.Intn(len(sent))])
				}
				if c.r.Intn(8) == 0 {
					d = append(d, nil)
				}
				e = v.e.WithError(d...)
				m.errs = append(m.errs, d...)
				what = fmt.Sprintf("WithError(%v)", d)
				for k := range d {
					d[k] = stderrors.New("clobbered")
				}
			}
			c.log(fmt.Sprintf("e%d = e%d.%s", len(vs), at, what))
			vs = append(vs, val{e, m})
			for k, x := range vs {
				if d := same(x); d != "" {
					c.fail("after the last step, e%d: %s", k, d)
				}
			}
			c.eval("derivations", fmt.Sprint(what, len(m.data), len(m.errs)))
		}
		// joins
		sent := append([]error{}, sent...)
		for _, v := range vs {
			sent = append(sent, v.e)
		}
		var in []error
		var want []error
		for k := c.r.Intn(6); k > 0; k-- {
			if c.r.Intn(3) == 0 {
				in = append(in, nil)
			} else {
				x := sent[c.r.Intn(len(sent))]
				in = append(in, x)
				want = append(want, x)
			}
		}
		keep := append([]error{}, in...)
		c.reset(fmt.Sprintf("Join(%v)", in))
		j := terr.Join(in...)
		if d := same(val{j, errModel{code: 600, desc: std[600], msg: j.Message, errs: want}}); d != "" {
			c.fail("joined: %s", d)
		}
		c.check(len(in) == 0 || reflect.DeepEqual(in, keep), "Join changed its arguments")
		j1, j2 := j.WithError(sent[0]), j.WithError(sent[1])
		for _, x := range []val{{j1, errModel{code: 600, desc: std[600], msg: j.Message, errs: append(append([]error{}, want...), sent[0])}}, {j2, errModel{code: 600, desc: std[600], msg: j.Message, errs: append(append([]error{}, want...), sent[1])}}} {
			if d := same(x); d != "" {
				c.fail("added to a joined error: %s", d)
			}
		}
		c.eval("joins", fmt.Sprint(in))
	}
	wantDesc := map[terr.TopolithErrorCode]string{500: "An unknown error occurred", 400: "Invalid input", 404: "Not found", 409: "Conflict or impossible state", 502: "Issue with World state sync detected", 600: "Multiple errors", 450: "Error while executing command"}
	for k, d := range wantDesc {
		c.check(std[k] == d, "the description of %d is %q", k, std[k])
	}
}
func isErr(e error, w error) bool {
	defer func() { recover() }()
	t, ok := w.(terr.TopolithError)
	if ok {
		var x terr.TopolithError
		return stderrors.As(stderrors.Unwrap(e), &x) && x.Error() == t.Error()
	}
	return stderrors.Is(e, w)
}

// ---------------------------------------------------------------- C18

var fileNames = []string{"a", "b", "a.world", "b.world.world", "w.x", "x.txt", "", "default-world", "two words", "é", ".hidden", "..x", "a.b.c", "world", ".world", "A", "0", "a,b", "[x]", "*", "?", "-", "$HOME", "~", "a.World", "a.worlds"}
var badFileNames = []string{"a/b", "/abs", "../up", "../../etc/x", "a/", ".."}

func c18(c *vctx) {
	base, _ := os.Getwd()
	saved := map[string]bool{}
	for n := 0; !c.over() && n < 250*c.scale; n++ {
		c.reset()
		dir := filepath.Join(base, fmt.Sprintf("d%d", n), "deep")
		if c.r.Intn(2) == 0 {
			os.MkdirAll(dir, 0o755)
			for _, x := range []string{"notes.txt", "x", "README", "a.world.bak"} {
				os.WriteFile(filepath.Join(dir, x), []byte("x"), 0o644)
			}
			os.MkdirAll(filepath.Join(dir, "sub.world"), 0o755)
			os.WriteFile(filepath.Join(dir, "sub.world", "inner.world"), []byte("x"), 0o644)
		}
		if c.r.Intn(4) == 0 {
			os.WriteFile(filepath.Join(base, "a.world"), []byte("a file that is not there"), 0o644)
		}
		p := persistence.NewFilePersistence()
		p.SetSourcePath(dir)
		type ent struct {
			txt string
			s   *snap
		}
		have := map[string]ent{}
		verify := func() {
			if len(have) == 0 {
				return
			}
			l, err := p.ListWorlds()
			c.check(err == nil, "listing: %v", err)
			sort.Strings(l)
			var want []string
			for k := range have {
				want = append(want, k)
			}
			sort.Strings(want)
			c.check(fmt.Sprintf("%q", l) == fmt.Sprintf("%q", want), "listed %q, saved %q", l, want)
			for k, e := range have {
				b, err := os.ReadFile(filepath.Join(dir, k+".world"))
				c.check(err == nil && string(b) == e.txt, "the file of %q holds %q (%v), saved was %q", k, b, err, e.txt)
				w, err := p.Load(k)
				c.check(err == nil && w != nil, "loading %q: %v", k, err)
				d := e.s.diff(observe(w), dAll)
				c.check(d == "", "loading %q: %s", k, d)
			}
		}
		for i := 0; i < 6; i++ {
			h := len(c.hist)
			w, _ := c.textWorld(3)
			name := fileNames[c.r.Intn(len(fileNames))]
			if c.r.Intn(6) == 0 {
				name = badFileNames[c.r.Intn(len(badFileNames))]
			}
			w.SetName(name)
			c.hist = append(c.hist[:h], fmt.Sprintf("save %q", name))
			rep := strings.ContainsAny(name, "/é?*$~<>{}'\"\\")
			if strings.ContainsAny(name, "é?/'") {
				w2 := world.CreateWorld("q")
				w2.SetName(name)
				w = w2
			}
			s := observe(w)
			err := p.Save(w)
			file, _ := os.ReadFile(filepath.Join(dir, name+".world"))
			txt := string(file)
			lines := func(s string) string {
				x := []byte(s)
				sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
				return string(x)
			}
			c.check(err != nil || lines(txt) == lines(w.String()), "saving %q wrote %q", name, txt)
			if err == nil {
				if rep && strings.ContainsAny(name, "é?'") {
					// The text format cannot represent the name: only the file and the list count.
					l, _ := p.ListWorlds()
					c.check(contains(l, name), "saved %q is not listed in %q", name, l)
					b, err := os.ReadFile(filepath.Join(dir, name+".world"))
					c.check(err == nil && string(b) == txt, "the file of %q holds %q (%v)", name, b, err)
					os.Remove(filepath.Join(dir, name+".world"))
				} else {
					have[name] = ent{txt, s}
				}
			}
			c.eval("saves", fmt.Sprintf("%q %v %d", name, err == nil, len(have)))
			saved[name] = true
			verify()
		}
		os.RemoveAll(filepath.Join(base, fmt.Sprintf("d%d", n)))
	}
}

func init() {
	vprops["C14"], vprops["C15"], vprops["C17"], vprops["C18"] = c14, c15, c17, c18
}
