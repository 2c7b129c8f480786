package app

import (
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/williamflynt/topolith/pkg/grammar"
	"github.com/williamflynt/topolith/pkg/world"
)

var itemVerbs = []string{"create", "fetch", "list", "set", "clear", "delete", "nest", "free", "exists", "in?", "create-or-fetch", "create-or-set"}
var relVerbs = []string{"create", "fetch", "list", "set", "clear", "delete", "exists", "to?", "from?", "create-or-fetch", "create-or-set"}
var queryVerbs = map[string]bool{"fetch": true, "list": true, "exists": true, "in?": true, "to?": true, "from?": true}

func inputStr(in grammar.InputAttributes) string {
	var ps []string
	for k, v := range in.Params {
		ps = append(ps, fmt.Sprintf("%s=%q", k, v))
	}
	sort.Strings(ps)
	return fmt.Sprintf("%s %s id=%q ids=%q second=%q params=%v flags=%v", in.ResourceType, in.Verb, in.ResourceId, in.ResourceIds, in.SecondaryIds, ps, in.Flags)
}

// input makes the attributes of a parsed command with arbitrary ids.
func (c *vctx) input(ids []string, typ, verb string) grammar.InputAttributes {
	in := grammar.InputAttributes{ResourceType: typ, Verb: verb, Params: map[string]string{}, ResourceIds: []string{}, SecondaryIds: []string{}, Flags: []string{}}
	in.Raw = typ + " " + verb + " " + strconv.Itoa(c.r.Intn(1000000))
	if typ == "world" {
		return in
	}
	in.ResourceId = c.pick(ids)
	if verb == "list" && c.r.Intn(2) == 0 {
		in.ResourceId = ""
	}
	if verb == "list" && in.ResourceId == "" && c.r.Intn(2) == 0 {
		in.Params["limit"] = strconv.Itoa(c.r.Intn(6))
	}
	if verb == "nest" || verb == "free" {
		for n := 1 + c.r.Intn(4); n > 0; n-- {
			in.ResourceIds = append(in.ResourceIds, c.pick(ids))
		}
		in.ResourceId = ""
	}
	if verb == "nest" || verb == "in?" || (typ == "rel" && verb != "to?" && verb != "from?" && verb != "list") {
		in.SecondaryIds = append(in.SecondaryIds, c.pick(ids))
	}
	put := func(k, v string) {
		if c.r.Intn(2) == 0 {
			in.Params[k] = v
		}
	}
	if verb == "create" || verb == "set" || verb == "create-or-set" {
		if typ == "item" {
			put("name", c.text())
			put("mechanism", c.text())
			put("expanded", c.text())
			put("type", c.pick(types[:9]))
			put("external", c.pick([]string{"true", "false"}))
			if c.r.Intn(10) == 0 {
				put("type", c.pick(badTypes))
			}
		} else {
			put("verb", c.text())
			put("mechanism", c.text())
			put("expanded", c.text())
			put("async", c.pick([]string{"true", "false"}))
		}
	}
	if verb == "clear" {
		for _, k := range []string{"name", "type", "external", "mechanism", "expanded", "verb", "async"} {
			if (typ == "item") != (k == "verb" || k == "async") {
				put(k, "")
			}
		}
	}
	for _, f := range c.flags() {
		if c.r.Intn(3) == 0 {
			in.Flags = append(in.Flags, f)
		}
	}
	return in
}

func (c *vctx) text() string {
	if c.r.Intn(6) == 0 {
		return c.pick(rawTexts)
	}
	return c.pick(texts)
}

// flags are the flags of the grammar in any order
func (c *vctx) flags() []string {
	l := []string{"strict", "verbose", "ids"}
	c.r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l
}
func (c *vctx) anyInput(ids []string) grammar.InputAttributes {
	switch c.r.Intn(20) {
	case 0:
		return c.input(ids, "world", "fetch")
	case 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11:
		return c.input(ids, "item", c.pick(itemVerbs))
	}
	return c.input(ids, "rel", c.pick(relVerbs))
}

// randWorld makes a reachable world, recording how.
func (c *vctx) randWorld(g *gen) world.World {
	w := world.CreateWorld("w")
	do := func(o wop) { c.log(o.String()); o.run(w) }
	for _, id := range g.ids {
		if id != "" && c.r.Intn(5) > 0 {
			do(wop{kind: "create", a: id, ip: c.itemParams(false)})
		}
	}
	for i := 0; i < len(g.ids); i++ {
		do(wop{kind: "nest", a: c.pick(g.ids), b: c.pick(g.ids)})
	}
	for i := 0; i < len(g.ids); i++ {
		do(wop{kind: "relcreate", a: c.pick(g.ids), b: c.pick(g.ids), rp: c.relParams()})
	}
	return w
}

func (c *vctx) command(in grammar.InputAttributes) Command {
	cmd, err := InputToCommand(in)
	if err != nil {
		c.fail("%s is rejected: %v", inputStr(in), err)
	}
	return cmd
}

func c10(c *vctx) {
	round := func(w world.World, s *snap, in grammar.InputAttributes, cmd Command) bool {
		c.log(inputStr(in))
		c.eval(in.ResourceType+" "+in.Verb, inputStr(in))
		cmd.Execute(w)
		c.log("undo it")
		cmd.Undo(w)
		d := s.diff(observe(w), dAll)
		c.check(d == "", "executing and undoing %s: %s", inputStr(in), d)
		return true
	}
	for n := 0; !c.over() && n < 1500*c.scale; n++ {
		c.reset()
		g := c.newGen()
		w := c.randWorld(g)
		s := observe(w)
		if s.forest() != "" || s.relsValid(w) != "" {
			continue
		}
		for i := 0; i < 30; i++ {
			in := c.anyInput(g.ids)
			cmd := c.command(in)
			round(w, s, in, cmd)
			if c.r.Intn(3) == 0 { // the same command again, in the same and in another world
				round(w, s, in, cmd)
				o := c.op(g)
				c.log(o.String())
				o.run(w)
				s = observe(w)
				if s.forest() != "" || s.relsValid(w) != "" {
					break
				}
				round(w, s, in, cmd)
			}
		}
		// several commands, undone in reverse order
		s = observe(w)
		if s.forest() != "" || s.relsValid(w) != "" {
			continue
		}
		var cmds []Command
		states := []*snap{s}
		for i := 0; i < 8; i++ {
			in := c.anyInput(g.ids)
			cmd := c.command(in)
			c.log(inputStr(in))
			cmd.Execute(w)
			cmds = append(cmds, cmd)
			states = append(states, observe(w))
		}
		for i := len(cmds) - 1; i >= 0; i-- {
			c.log(fmt.Sprintf("undo %s", cmds[i]))
			cmds[i].Undo(w)
			d := states[i].diff(observe(w), dAll)
			c.check(d == "", "undoing the last but %d: %s", len(cmds)-1-i, d)
			c.eval("sequences", fmt.Sprint(cmds[i], i))
		}
	}
}

type undoer interface {
	undo() (error, int)
	redo() (error, int)
}

// countCmd is a command that only records what happens to it.
type countCmd struct {
	name string
	log  *[]string
	fail *bool
}

func (x *countCmd) Execute(w world.World) (fmt.Stringer, error) {
	*x.log = append(*x.log, "do "+x.name)
	if *x.fail {
		return BoolStringer(false), fmt.Errorf("refused")
	}
	return BoolStringer(true), nil
}
func (x *countCmd) Undo(w world.World) error {
	*x.log = append(*x.log, "undo "+x.name)
	if *x.fail {
		return fmt.Errorf("refused")
	}
	return nil
}
func (x *countCmd) String() string { return x.name }

func histStr(h []Command) string {
	var s []string
	for _, x := range h {
		s = append(s, x.String())
	}
	return strings.Join(s, " ")
}

func c11(c *vctx) {
	run := func(choices []int) {
		x, err := NewApp(world.CreateWorld("w"))
		c.check(err == nil, "NewApp: %v", err)
		a, u := x, x.(undoer)
		ex, ok := x.(interface {
			exec(c Command) (fmt.Stringer, error)
		})
		if !ok {
			return
		}
		var done, undone []string
		var log []string
		fail := false
		c.reset()
		n := 0
		var held []Command
		heldStr := ""
		for _, ch := range choices {
			log = nil
			fail = ch == 3 || ch == 4 || ch == 5
			var want []string
			switch ch {
			case 0, 3:
				n++
				cm := &countCmd{fmt.Sprintf("c%d", n), &log, &fail}
				c.log(fmt.Sprintf("execute %s (fails: %v)", cm.name, fail))
				ex.exec(cm)
				done, undone = append(done, cm.name), nil
				want = []string{"do " + cm.name}
			case 1, 4:
				c.log(fmt.Sprintf("undo (fails: %v)", fail))
				err, left := u.undo()
				if len(done) > 0 {
					l := done[len(done)-1]
					want = []string{"undo " + l}
					if fail {
						done, undone = nil, nil
					} else {
						undone = append(undone, l)
						done = done[:len(done)-1]
					}
					c.check((err != nil) == fail, "undo reports %v", err)
					c.check(left == len(undone), "undo says %d can be redone, not %d", left, len(undone))
				}
			case 2, 5:
				c.log(fmt.Sprintf("redo (fails: %v)", fail))
				err, left := u.redo()
				if len(undone) > 0 {
					l := undone[len(undone)-1]
					want = []string{"do " + l}
					if fail {
						done, undone = nil, nil
					} else {
						done = append(done, l)
						undone = undone[:len(undone)-1]
					}
					c.check((err != nil) == fail, "redo reports %v", err)
					c.check(left == len(undone), "redo says %d can be redone, not %d", left, len(undone))
				}
			case 6:
				held = a.History()
				heldStr = histStr(held)
				c.log("keep the history "+heldStr)
			}
			c.check(reflect.DeepEqual(append([]string{}, log...), append([]string{}, want...)), "ran %v, want %v", log, want)
			c.check(histStr(a.History()) == strings.Join(done, " "), "history is %q, want %q", histStr(a.History()), strings.Join(done, " "))
			c.check(a.CanUndo() == (len(done) > 0), "can undo: %v with %d commands in effect", a.CanUndo(), len(done))
			c.check(a.CanRedo() == (len(undone) > 0), "can redo: %v with %d commands undone", a.CanRedo(), len(undone))
			c.check(histStr(held) == heldStr, "a history read earlier changed from %q to %q", heldStr, histStr(held))
		}
		c.eval("histories", fmt.Sprint(choices))
	}
	var rec func(p []int, depth int)
	rec = func(p []int, depth int) {
		run(p)
		if depth == 0 {
			return
		}
		for ch := 0; ch < 7; ch++ {
			rec(append(append([]int{}, p...), ch), depth-1)
		}
	}
	rec(nil, 5)
	for n := 0; n < 3000*c.scale && !c.over(); n++ {
		p := make([]int, 10+c.r.Intn(60))
		for i := range p {
			p[i] = []int{0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 6, 3, 4, 5}[c.r.Intn(12+(n%4))]
			if n%4 == 3 && c.r.Intn(4) > 0 && p[i] > 3 {
				p[i] = 1
			}
		}
		run(p)
	}
	// with commands given as text
	lines := []string{`item create a`, `item create b name="n"`, `nest a in b`, `item delete a`, `item set b type=code`, `rel create a b verb=x`, `item? a`, `items list`, `free a`, `rel delete a b`, `world`, `item create a`, `nest b in a`}
	for n := 0; n < 300*c.scale && !c.over(); n++ {
		w := world.CreateWorld("w")
		x, _ := NewApp(w)
		u := x.(undoer)
		c.reset()
		var done, undone []string
		var states []*snap
		for i := 0; i < 25; i++ {
			switch c.r.Intn(5) {
			case 0, 1, 2:
				l := c.pick(lines)
				states = append(states[:len(done)], observe(w))
				c.log(l)
				x.Exec(l)
				done, undone = append(done, l), nil
			case 3:
				c.log("undo")
				err, _ := u.undo()
				if len(done) == 0 {
					break
				}
				if err != nil {
					done, undone = nil, nil
					break
				}
				undone = append(undone, done[len(done)-1])
				done = done[:len(done)-1]
			default:
				c.log("redo")
				err, _ := u.redo()
				if len(undone) == 0 {
					break
				}
				if err != nil {
					done, undone = nil, nil
					break
				}
				done = append(done, undone[len(undone)-1])
				undone = undone[:len(undone)-1]
			}
			c.check(histStr(x.History()) == strings.Join(done, " "), "history is %q, want %q", histStr(x.History()), strings.Join(done, " "))
			c.check(x.CanUndo() == (len(done) > 0) && x.CanRedo() == (len(undone) > 0), "can undo %v, can redo %v with %d in effect and %d undone", x.CanUndo(), x.CanRedo(), len(done), len(undone))
		}
		c.eval("text histories", strings.Join(c.hist, ";"))
	}
}

func c12(c *vctx) {
	for n := 0; !c.over() && n < 1500*c.scale; n++ {
		c.reset()
		g := c.newGen()
		w := c.randWorld(g)
		s := observe(w)
		if s.forest() != "" || s.relsValid(w) != "" {
			continue
		}
		for i := 0; i < 30; i++ {
			in := c.anyInput(g.ids)
			if !queryVerbs[in.Verb] {
				continue
			}
			cmd := c.command(in)
			c.log(inputStr(in))
			for _, do := range []string{"execute", "undo", "execute", "execute", "undo", "undo"} {
				if do == "undo" {
					cmd.Undo(w)
				} else {
					cmd.Execute(w)
				}
				d := s.diff(observe(w), dAll)
				c.check(d == "", "%s of %s: %s", do, inputStr(in), d)
				for k, r := range observe(w).rels {
					c.check(r == s.rels[k], "%s of %s changed what %v shows", do, inputStr(in), k)
				}
			}
			c.eval(in.ResourceType+" "+in.Verb, inputStr(in))
		}
	}
}

// ---------------------------------------------------------------- C13: command lines

var lineIds = []string{"a", "b", "c", "d", "x1", `"a b"`, `"c::d"`, `"e,f"`, "A-1", "under_score", `"b"`, `"in"`, `"nil"`, `"list"`, `"item"`, `"a  b"`, "1", "2", "zz", `"5"`}

func unq(s string) string { return strings.Trim(s, `"`) }

var lineTexts = []string{"x", "yy", `"two words"`, `"a=b"`, `"x, y. z!"`, `""`, "true", "9", `"(q)"`}

type line struct {
	text string
	in   grammar.InputAttributes
}

// line makes a command line and, independently of the parser, what it says.
func (c *vctx) line() line {
	in := grammar.InputAttributes{Params: map[string]string{}}
	sp := func() string { return c.pick([]string{" ", "  ", "\t", " "}) }
	id := c.pick(lineIds)
	id2 := c.pick(lineIds)
	params := func(item bool) string {
		t := ""
		ks := []string{"name", "mechanism", "expanded", "external", "type"}
		if !item {
			ks = []string{"verb", "mechanism", "expanded", "async"}
		}
		c.r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		for _, k := range ks[:c.r.Intn(len(ks)+1)] {
			v := c.pick(lineTexts)
			if k == "external" || k == "async" {
				v = c.pick([]string{"true", "false"})
			}
			if k == "type" {
				v = c.pick(types[:9])
			}
			t += " " + k + "=" + v
			in.Params[k] = unq(v)
		}
		return t
	}
	clearKeys := func(item bool) string {
		t := ""
		ks := []string{"name", "mechanism", "expanded", "external", "type"}
		if !item {
			ks = []string{"verb", "mechanism", "expanded", "async"}
		}
		c.r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		for _, k := range ks[:1+c.r.Intn(len(ks))] {
			t += " " + k
			in.Params[k] = ""
		}
		return t
	}
	t := ""
	if c.r.Intn(2) == 0 {
		in.ResourceType = "item"
		it := c.pick([]string{"item", "items"})
		in.Verb = c.pick(append(append([]string{}, itemVerbs...), "list-in"))
		switch in.Verb {
		case "create", "set":
			t = it + sp() + in.Verb + sp() + id + params(true)
			in.ResourceId = unq(id)
		case "fetch", "delete":
			t = it + sp() + in.Verb + sp() + id
			in.ResourceId = unq(id)
		case "clear":
			t = it + sp() + in.Verb + sp() + id + clearKeys(true)
			in.ResourceId = unq(id)
		case "list":
			t = it + sp() + "list"
			if c.r.Intn(2) == 0 {
				n := c.pick([]string{"0", "1", "2", "3", "10", "007"})
				t += sp() + n
				in.Params["limit"] = n
			}
		case "list-in":
			in.Verb = "list"
			t = it + sp() + "in" + sp() + id
			in.ResourceId = unq(id)
		case "nest", "free":
			t = in.Verb
			for n := 1 + c.r.Intn(4); n > 0; n-- {
				x := c.pick(lineIds)
				t += sp() + x
				in.ResourceIds = append(in.ResourceIds, unq(x))
			}
			if in.Verb == "nest" {
				t += sp() + "in" + sp() + id2
				in.SecondaryIds = []string{unq(id2)}
			}
		case "exists":
			if c.r.Intn(2) == 0 {
				t = "item?" + sp() + id
			} else {
				t = it + sp() + "exists" + sp() + id
			}
			in.ResourceId = unq(id)
		case "in?":
			t = "in?" + sp() + id + sp() + id2
			in.ResourceId, in.SecondaryIds = unq(id), []string{unq(id2)}
		case "create-or-fetch":
			t = it + sp() + id
			in.ResourceId = unq(id)
		case "create-or-set":
			p := params(true)
			if p == "" {
				p = " name=q"
				in.Params["name"] = "q"
			}
			t = it + sp() + id + p
			in.ResourceId = unq(id)
		}
	} else {
		in.ResourceType = "rel"
		it := c.pick([]string{"rel", "rels"})
		in.Verb = c.pick(relVerbs)
		in.ResourceId, in.SecondaryIds = unq(id), []string{unq(id2)}
		two := sp() + id + sp() + id2
		switch in.Verb {
		case "create", "set":
			t = it + sp() + in.Verb + two + params(false)
		case "fetch", "delete":
			t = it + sp() + in.Verb + two
		case "clear":
			t = it + sp() + in.Verb + two + clearKeys(false)
		case "list":
			t = it + sp() + "list"
			in.ResourceId, in.SecondaryIds = "", nil
			if c.r.Intn(2) == 0 {
				n := c.pick([]string{"0", "1", "2", "3", "10"})
				t += sp() + n
				in.Params["limit"] = n
			}
		case "exists":
			if c.r.Intn(2) == 0 {
				t = "rel?" + two
			} else {
				t = it + sp() + "exists" + two
			}
		case "to?", "from?":
			t = in.Verb + sp() + id
			in.SecondaryIds = nil
		case "create-or-fetch":
			t = it + two
		case "create-or-set":
			p := params(false)
			if p == "" {
				p = " verb=q"
				in.Params["verb"] = "q"
			}
			t = it + two + p
		}
	}
	if c.r.Intn(25) == 0 {
		t = "world"
		in = grammar.InputAttributes{ResourceType: "world", Verb: "fetch", Params: map[string]string{}}
	}
	for _, f := range c.flags() {
		if c.r.Intn(3) == 0 {
			t += " " + c.pick([]string{"-", "--"}) + f
			in.Flags = append(in.Flags, f)
		}
	}
	if c.r.Intn(5) == 0 {
		t = " " + t + " "
	}
	return line{t, in}
}

// direct runs on the world what the command line says; it returns the reply text (as a set of lines) and whether it is an error.
func direct(w world.World, in grammar.InputAttributes) (string, bool) {
	strict := false
	for _, f := range in.Flags {
		strict = strict || f == "strict"
	}
	second := ""
	if len(in.SecondaryIds) > 0 {
		second = in.SecondaryIds[0]
	}
	limit, _ := strconv.Atoi(in.Params["limit"])
	ip, rp := world.ItemParams{}, world.RelParams{}
	opt := func(k string) *string {
		if v, ok := in.Params[k]; ok {
			return sp(v)
		}
		return nil
	}
	optb := func(k string) *bool {
		if v, ok := in.Params[k]; ok {
			return bp(v == "true")
		}
		return nil
	}
	ip = world.ItemParams{Name: opt("name"), Mechanism: opt("mechanism"), Expanded: opt("expanded"), Type: opt("type"), External: optb("external")}
	rp = world.RelParams{Verb: opt("verb"), Mechanism: opt("mechanism"), Expanded: opt("expanded"), Async: optb("async")}
	items := func(l []world.Item) string {
		var s []string
		for _, i := range l {
			s = append(s, i.String())
		}
		sort.Strings(s)
		return strings.Join(s, "\n")
	}
	rels := func(l []world.Rel) string {
		var s []string
		for _, i := range l {
			s = append(s, i.String())
		}
		sort.Strings(s)
		return strings.Join(s, "\n")
	}
	id := in.ResourceId
	if in.ResourceType == "world" {
		return "*", false
	}
	if in.ResourceType == "item" {
		i, has := w.ItemFetch(id)
		switch in.Verb {
		case "create":
			if has {
				return i.String(), false
			}
			i, err := w.ItemCreate(id, ip).Item()
			return i.String(), err != nil
		case "create-or-fetch":
			if has {
				return i.String(), false
			}
			i, err := w.ItemCreate(id, world.ItemParams{}).Item()
			return i.String(), err != nil
		case "create-or-set":
			if has {
				i, err := w.ItemSet(id, ip).Item()
				return i.String(), err != nil
			}
			i, err := w.ItemCreate(id, ip).Item()
			return i.String(), err != nil
		case "set", "clear":
			i, err := w.ItemSet(id, ip).Item()
			return i.String(), err != nil
		case "fetch":
			return i.String(), !has
		case "delete":
			w.ItemDelete(id)
			return "*", false
		case "list":
			if id != "" {
				l, ok := w.ItemComponents(id)
				return items(l), !ok
			}
			l := w.ItemList(limit)
			if limit > 0 && limit < len(w.ItemList(0)) {
				return fmt.Sprintf("#%d", len(l)), false
			}
			return items(l), false
		case "nest":
			bad := false
			for _, x := range in.ResourceIds {
				if w.Nest(x, second).Err() != nil {
					bad = true
				}
			}
			return "?", bad
		case "free":
			bad := false
			for _, x := range in.ResourceIds {
				if w.Free(x).Err() != nil {
					bad = true
				}
			}
			return "true", bad
		case "exists":
			return fmt.Sprint(has), false
		case "in?":
			return fmt.Sprint(w.In(id, second, strict)), false
		}
	}
	old := w.RelFetch(id, second, true)
	switch in.Verb {
	case "create":
		if len(old) > 0 {
			return "*", false
		}
		r, err := w.RelCreate(id, second, rp).Rel()
		return r.String(), err != nil
	case "create-or-fetch":
		if len(old) > 0 {
			return old[0].String(), false
		}
		r, err := w.RelCreate(id, second, world.RelParams{}).Rel()
		return r.String(), err != nil
	case "create-or-set":
		if len(old) > 0 {
			r, err := w.RelSet(id, second, rp).Rel()
			return r.String(), err != nil
		}
		r, err := w.RelCreate(id, second, rp).Rel()
		return r.String(), err != nil
	case "set", "clear":
		r, err := w.RelSet(id, second, rp).Rel()
		return r.String(), err != nil
	case "fetch":
		l := w.RelFetch(id, second, strict)
		if len(l) > 1 {
			return "1of\n" + rels(l), false
		}
		return rels(l), len(l) == 0
	case "delete":
		w.RelDelete(id, second)
		return "*", false
	case "list":
		l := w.RelList(limit)
		if limit > 0 && limit < len(w.RelList(0)) {
			return fmt.Sprintf("#%d", len(l)), false
		}
		return rels(l), false
	case "exists":
		return fmt.Sprint(len(old) > 0), false
	case "to?":
		return rels(w.RelTo(id, strict)), false
	case "from?":
		return rels(w.RelFrom(id, strict)), false
	}
	return "?", true
}

func c13(c *vctx) {
	// unknown types and verbs
	for _, typ := range []string{"item", "rel", "world", "", "Item", "items", "tree", "rels", "x"} {
		for _, verb := range append(append([]string{"", "x", "Create", "creates", "undo", "in", "item", "save", "to", "from"}, itemVerbs...), relVerbs...) {
			in := c.input([]string{"a", "b"}, typ, verb)
			in.SecondaryIds = []string{"b"}
			c.reset(inputStr(in))
			cmd, err := InputToCommand(in)
			known := typ == "world" || typ == "item" && contains(itemVerbs, verb) || typ == "rel" && contains(relVerbs, verb)
			c.check((err == nil) == known, "type %q verb %q: error %v", typ, verb, err)
			c.check(known == (cmd != nil), "type %q verb %q: command %v", typ, verb, cmd)
			c.eval("dispatch", typ+" "+verb)
		}
	}
	// limits, on worlds larger than they are
	big := world.CreateWorld("w")
	for i := 0; i < 25; i++ {
		big.ItemCreate(fmt.Sprintf("i%d", i), world.ItemParams{})
	}
	for i := 0; i < 25; i++ {
		big.RelCreate(fmt.Sprintf("i%d", i), fmt.Sprintf("i%d", (i*7+3)%25), world.RelParams{})
	}
	for _, typ := range []string{"item", "rel"} {
		for _, l := range []string{"", "0", "1", "2", "3", "7", "8", "9", "10", "11", "15", "16", "24", "25", "26", "100", "007", "010", "011", "012", "0012", "017", "020", "00", "024", "030"} {
			in := grammar.InputAttributes{ResourceType: typ, Verb: "list", Params: map[string]string{}, Flags: []string{}}
			want := 25
			if l != "" {
				in.Params["limit"] = l
				if n, _ := strconv.Atoi(l); n > 0 && n < want {
					want = n
				}
			}
			c.reset("a world of 25 items and 25 relationships", inputStr(in))
			cmd := c.command(in)
			out, err := cmd.Execute(big)
			c.check(err == nil, "listing with limit %q: error %v", l, err)
			got := len(strings.Split(strings.TrimSpace(out.String()), "\n"))
			c.check(got == want, "listing with limit %q shows %d, want %d", l, got, want)
			c.eval("limits", typ+" "+l)
		}
	}
	prep := []wop{}
	for n := 0; !c.over() && n < 2500*c.scale; n++ {
		c.reset()
		prep = prep[:0]
		var ids []string
		for _, x := range lineIds {
			if c.r.Intn(3) > 0 {
				ids = append(ids, unq(x))
			}
		}
		if len(ids) == 0 {
			continue
		}
		for _, id := range ids {
			prep = append(prep, wop{kind: "create", a: id, ip: c.itemParams(false)})
		}
		for range ids {
			prep = append(prep, wop{kind: "nest", a: c.pick(ids), b: c.pick(ids)}, wop{kind: "relcreate", a: c.pick(ids), b: c.pick(ids), rp: c.relParams()})
		}
		w1, w2 := world.CreateWorld("w"), world.CreateWorld("w")
		for _, o := range prep {
			o.ip.Name, o.ip.Mechanism, o.ip.Expanded = nil, nil, nil
			c.log(o.String())
			o.run(w1)
			o.run(w2)
		}
		x, _ := NewApp(w1)
		for i := 0; i < 12; i++ {
			l := c.line()
			c.log(l.text)
			c.eval(l.in.ResourceType+" "+l.in.Verb, l.text)
			reply := x.Exec(l.text)
			want, bad := direct(w2, l.in)
			d := observe(w2).diff(observe(w1), dAll)
			c.check(d == "", "%q: %s", l.text, d)
			if h := x.History(); len(h) == 0 || h[len(h)-1].String() != l.text {
				c.fail("%q is not the last command of the history", l.text)
			}
			ok := strings.Contains(reply, "\n$$$$\n200 ok")
			if i := strings.Index(reply, "\n$$$$\n"); ok {
				reply = reply[:i]
			}
			rl := strings.Split(strings.TrimSpace(reply), "\n")
			sort.Strings(rl)
			switch {
			case want == "?" || want == "*":
				if ok && want == "?" {
					c.check(!bad, "%q replies ok", l.text)
				}
			case bad:
				c.check(!ok, "%q replies %q, but it is refused", l.text, reply)
			case !ok:
				// C16 and C14 speak about replies that cannot be written; here only about what is run.
				c.check(!strings.HasPrefix(reply, "450 "), "%q fails: %q", l.text, reply)
			case strings.HasPrefix(want, "#"):
				c.check(fmt.Sprintf("#%d", len(rl)) == want, "%q lists %q, want %s", l.text, rl, want)
			case strings.HasPrefix(want, "1of\n"):
				c.check(len(rl) == 1 && strings.Contains(want+"\n", "\n"+rl[0]+"\n"), "%q replies %q, want %s", l.text, rl, want)
			default:
				wl := strings.Split(want, "\n")
				c.check(strings.Join(rl, "\n") == strings.TrimSpace(strings.Join(wl, "\n")), "%q replies %q, want %q", l.text, rl, wl)
			}
		}
	}
}
func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- C16

var errText = regexp.MustCompile(`(?s)^[0-9]+ error`)
var noCommands = []string{"", " ", "\n", "x", "item", "items", "rel", "rel create", "rel create a", "item create", "item fetch", "nest a", "nest in b", "nest a in", "free", "in? a", "to?", "from?", "item list list",
	"200 ok", "404 error \"x\"", "$$$$ 200 ok", "item a $$$$ 200 ok", "tree{nil::[]}", "tree{item \"1\"::[]}", "item create a name=", "item create a type=nope", "item set a bogus=1", "item a -bogus", "world world",
	"$$world\nversion=1\nid=\"w\"\nname=\"w\"\nexpanded=\"\"\ntree{nil::[]}\nendworld$$", "undo", "redo", "item create \"a", "rel a b verb", "item clear a", "item clear a verb", "rel clear a b external", "\x00", "item create \x00", "é", "item create é", "item? ", "rel? a", "fetch a", "create item a", "item a b", "rel a", "delete", ".save", ".load x"}

func isResponse(reply string) (bool, string) {
	p, err := grammar.Parse(reply)
	if err != nil {
		return false, err.Error()
	}
	if p.StmtType != "Response" {
		return false, "it is a " + p.StmtType
	}
	if p.Response.Status.Code != 200 {
		return false, fmt.Sprintf("its status is %d", p.Response.Status.Code)
	}
	return true, ""
}

func (c *vctx) exec16(x App, w world.World, text string, known int) {
	before := observe(w)
	hist := histStr(x.History())
	nh := len(x.History())
	canU, canR := x.CanUndo(), x.CanRedo()
	reply := x.Exec(text)
	kind := "refused"
	if strings.Contains(reply, "$$$$\n200") && !errText.MatchString(reply) {
		ok, why := isResponse(reply)
		c.check(ok, "the reply to %q is %q: %s", text, reply, why)
		kind = "ok"
	} else {
		c.check(errText.MatchString(reply), "the reply to %q is %q", text, reply)
	}
	p, err := grammar.Parse(text)
	isCmd := err == nil && p.StmtType == "Command"
	if known == 0 || known < 0 && !isCmd {
		d := before.diff(observe(w), dAll)
		c.check(d == "", "%q is no command but: %s", text, d)
		c.check(hist == histStr(x.History()) && nh == len(x.History()) && canU == x.CanUndo() && canR == x.CanRedo(), "%q is no command but changes the history", text)
		c.check(kind == "refused", "%q is no command but the reply is %q", text, reply)
	} else {
		c.check(len(x.History()) == nh+1, "%q is a command but is not in the history", text)
	}
	c.eval(kind, text)
}

func c16(c *vctx) {
	toks := []string{"item", "items", "rel", "rels", "create", "set", "delete", "fetch", "list", "clear", "exists", "nest", "free", "in", "in?", "to?", "from?", "item?", "rel?", "world", "a", "b", `"a b"`, "name=x", `name="y z"`, "type=code", "type=", "external=true", "external=", "verb=x", "async=true", "mechanism", "expanded", "-strict", "--ids", "-verbose", "$$", "$$$$", "200", "ok", "error", "tree{nil::[]}", "=", "\"", "\n", "  ", "5", "name", "type"}
	texts := append([]string{}, noCommands...)
	for n := 0; n < 400*c.scale && !c.over(); n++ {
		c.reset()
		w := world.CreateWorld("w")
		if n%2 == 1 { // a world made by other means, whose texts the reply may be unable to show
			w = c.randWorld(c.newGen())
		}
		x, _ := NewApp(w)
		for i := 0; i < 30; i++ {
			if c.over() {
				return
			}
			known := -1
			var t string
			switch k := c.r.Intn(10); {
			case n == 0 && i == 0:
				for _, t := range texts {
					c.log(fmt.Sprintf("%q", t))
					c.exec16(x, w, t, 0)
				}
				continue
			case k < 5:
				l := c.line()
				t = l.text
				known = 1
			case k < 6:
				t = texts[c.r.Intn(len(texts))]
				known = 0
			case k < 8:
				var ts []string
				for m := 1 + c.r.Intn(6); m > 0; m-- {
					ts = append(ts, c.pick(toks))
				}
				t = strings.Join(ts, " ")
			default:
				b := []byte(c.line().text)
				for m := 1 + c.r.Intn(3); m > 0 && len(b) > 0; m-- {
					switch c.r.Intn(3) {
					case 0:
						b[c.r.Intn(len(b))] = byte(c.r.Intn(256))
					case 1:
						i := c.r.Intn(len(b))
						b = append(b[:i], b[i+1:]...)
					default:
						i := c.r.Intn(len(b))
						b = append(b[:i], append([]byte{" \"=-$a\n:\xff"[c.r.Intn(9)]}, b[i:]...)...)
					}
				}
				t = string(b)
			}
			c.log(fmt.Sprintf("%q", t))
			c.exec16(x, w, t, known)
		}
	}
}

// ---------------------------------------------------------------- C19

func c19(c *vctx) {
	for n := 0; !c.over() && n < 1500*c.scale; n++ {
		c.reset()
		g := c.newGen()
		g.ids = append(g.ids, "", "no such")
		w := world.CreateWorld(c.pick(texts))
		if c.r.Intn(3) > 0 {
			w = c.randWorld(g)
		}
		if c.r.Intn(4) == 0 {
			if x, err := world.FromString(w.String()); err == nil {
				c.log("write and read the world")
				w = x
			}
		}
		for i := 0; i < 25; i++ {
			o := c.op(g)
			c.log(o.String())
			o.run(w)
			a, b := c.pick(g.ids), c.pick(g.ids)
			w.In(a, b, c.r.Intn(2) == 0)
			w.Parent(a)
			w.Components(a)
			w.ItemParent(a)
			w.ItemComponents(a)
			w.RelFetch(a, b, c.r.Intn(2) == 0)
			w.RelTo(a, c.r.Intn(2) == 0)
			w.RelFrom(a, c.r.Intn(2) == 0)
			w.ItemList(c.r.Intn(5) - 2)
			w.RelList(c.r.Intn(5) - 2)
			_ = w.String()
			if x, ok := w.(world.WorldWithBoth); ok {
				x.Item()
				x.Rel()
			}
			c.eval("world", o.String())
		}
		a, _ := NewApp(w)
		u := a.(undoer)
		var cmds []Command
		for i := 0; i < 25; i++ {
			in := c.anyInput(g.ids)
			c.log(inputStr(in))
			cmd, err := InputToCommand(in)
			if err != nil {
				continue
			}
			cmds = append(cmds, cmd)
			r, _ := cmd.Execute(w)
			if r != nil {
				_ = r.String()
			}
			_ = cmd.String()
			if c.r.Intn(2) == 0 {
				x := cmds[c.r.Intn(len(cmds))]
				c.log("undo "+x.String())
				x.Undo(w)
			}
			c.eval("commands", inputStr(in))
		}
		for i := 0; i < 15; i++ {
			l := c.line().text
			if c.r.Intn(6) == 0 {
				l = noCommands[c.r.Intn(len(noCommands))]
			}
			c.log(l)
			a.Exec(l)
			a.CanUndo()
			a.CanRedo()
			a.History()
			if c.r.Intn(3) == 0 {
				c.log("undo")
				u.undo()
			}
			if c.r.Intn(3) == 0 {
				c.log("redo")
				u.redo()
			}
			c.eval("application", l)
		}
	}
	for _, cmd := range []Command{&WorldFetchCommand{}, &ItemCreateCommand{}, &ItemFetchCommand{}, &ItemListCommand{}, &ItemSetCommand{}, &ItemClearCommand{}, &ItemDeleteCommand{}, &ItemNestCommand{}, &ItemFreeCommand{}, &ItemExistsCommand{}, &ItemCreateOrFetchCommand{}, &ItemCreateOrSetCommand{}, &ItemComponentsListCommand{}, &RelCreateCommand{}, &RelListCommand{}, &RelClearCommand{}, &RelExistsCommand{}, &RelCreateOrFetchCommand{}, &RelCreateOrSetCommand{}, &RelSetCommand{}, &RelDeleteCommand{}} {
		w := world.CreateWorld("w")
		c.reset(fmt.Sprintf("undo, then execute and undo a fresh %T", cmd))
		cmd.Undo(w)
		cmd.Execute(w)
		cmd.Undo(w)
		c.eval("fresh commands", fmt.Sprintf("%T", cmd))
	}
	for _, s := range append(append([]string{}, noCommands...), "tree{nil::[tree{item \"1\"::[]} tree{item \"1\"::[]}]}", "rel \"1\" \"2\"", "item \"1\"", "world") {
		c.reset(fmt.Sprintf("read %q", s))
		if w, err := world.FromString(s); err == nil {
			_ = w.String()
			w.ItemDelete("1")
		}
		if t, _, err := world.TreeFromString(s); err == nil {
			_ = t.String()
			t.Delete("1")
			t.AddOrMove(&world.Item{Id: "q"})
			t.AddOrMove(nil)
			t.GetDescendantIds("q")
			t.Root().Empty()
			t.Parent().Item()
		}
		world.ItemFromString(s)
		world.RelFromString(world.CreateWorld("w"), s)
		c.eval("reading", s)
	}
}

func init() {
	vprops["C10"], vprops["C11"], vprops["C12"], vprops["C13"], vprops["C16"], vprops["C19"] = c10, c11, c12, c13, c16, c19
}
