package app

// Runtime evaluation of the contracts on the real code: the replay stage of the checks.
// Every step is one Hoare triple: observe, run the operation, observe again, compare with the specification.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/williamflynt/topolith/pkg/world"
)

type vreport struct {
	Property    string   `json:"property"`
	Violation   string   `json:"violation"`
	Input       []string `json:"input"`
	Evaluations int      `json:"evaluations"`
	Distinct    int      `json:"distinct_nontrivial"`
	Samples     []string `json:"samples"`
	WallS       float64  `json:"wall_s"`
	Parts       []string `json:"parts"`
}

// vfail is the panic value by which a check reports a violation.
type vfail struct {
	msg   string
	input []string
}

type vctx struct {
	prop    string
	r       *rand.Rand
	evals   int
	seen    map[string]bool
	samples []string
	parts   map[string]int
	until   time.Time
	scale   int
	hist    []string
	journal *os.File
}

// log notes a step before it is made; with a journal the note survives a crash of the process.
func (c *vctx) log(s ...string) {
	c.hist = append(c.hist, s...)
	if c.journal != nil {
		for _, x := range s {
			c.journal.WriteString(x + "\n")
		}
	}
}
func (c *vctx) reset(s ...string) {
	c.hist = append([]string{}, s...)
	if c.journal != nil {
		c.journal.Truncate(0)
		c.journal.Seek(0, 0)
		c.journal.WriteString(strings.Join(append(c.hist, ""), "\n"))
	}
}

func (c *vctx) eval(part, desc string) {
	c.evals++
	c.parts[part]++
	if len(c.seen) < 400000 && !c.seen[desc] {
		c.seen[desc] = true
		if len(c.samples) < 6 && (c.evals < 3 || c.r.Intn(200) == 0) {
			c.samples = append(c.samples, desc)
		}
	}
}
func (c *vctx) over() bool { return time.Now().After(c.until) }
func (c *vctx) fail(format string, a ...any) {
	panic(vfail{fmt.Sprintf(format, a...), append([]string{}, c.hist...)})
}
func (c *vctx) check(ok bool, format string, a ...any) {
	if !ok {
		c.fail(format, a...)
	}
}

var vprops = map[string]func(c *vctx){}

func TestVerifProperty(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	out := os.Getenv("VERIF_OUT")
	if prop == "" || out == "" {
		t.Skip("not run by a check")
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	secs := 25.0
	scale := 4
	if s, err := strconv.ParseFloat(os.Getenv("VERIF_SECS"), 64); err == nil {
		secs = s
	}
	if os.Getenv("VERIF_TIER") == "thorough" {
		scale = 80
	}
	// Nothing the code under test writes may land outside the scratch directory.
	scratch := t.TempDir()
	os.Setenv("HOME", scratch)
	os.Chdir(scratch)
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
		os.Stderr = null
	}
	c := &vctx{prop: prop, r: rand.New(rand.NewSource(seed)), seen: map[string]bool{}, parts: map[string]int{}, scale: scale}
	if j := os.Getenv("VERIF_JOURNAL"); j != "" {
		c.journal, _ = os.Create(j)
	}
	debug.SetMaxStack(64 << 20)
	t0 := time.Now()
	c.until = t0.Add(time.Duration(secs * float64(time.Second)))
	rep := vreport{Property: prop}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if v, ok := x.(vfail); ok {
					rep.Violation, rep.Input = v.msg, v.input
					return
				}
				st := string(debug.Stack())
				rep.Violation = fmt.Sprint("panic: ", x)
				if prop != "C19" {
					rep.Violation = "the operation never returned, it panicked: " + fmt.Sprint(x)
				}
				rep.Input = append(append([]string{}, c.hist...), strings.Split(st, "\n")...)
			}
		}()
		vprops[prop](c)
	}()
	rep.Evaluations, rep.Distinct, rep.Samples, rep.WallS = c.evals, len(c.seen), c.samples, time.Since(t0).Seconds()
	for p, n := range c.parts {
		rep.Parts = append(rep.Parts, fmt.Sprintf("%s: %d", p, n))
	}
	sort.Strings(rep.Parts)
	b, _ := json.MarshalIndent(rep, "", " ")
	os.WriteFile(filepath.Clean(out), b, 0o644)
}

// ---------------------------------------------------------------- observation

type pair struct{ a, b string }
type snap struct {
	info   string
	items  map[string]world.Item
	parent map[string]string
	comps  map[string][]string
	rels   map[pair]world.Rel
	nrels  int
	nitems int
}

func observe(w world.World) *snap {
	s := &snap{items: map[string]world.Item{}, parent: map[string]string{}, comps: map[string][]string{}, rels: map[pair]world.Rel{}}
	s.info = fmt.Sprintf("%d %q %q %q", w.Version(), w.Id(), w.Name(), w.Expanded())
	for _, i := range w.ItemList(0) {
		s.items[i.Id] = i
		s.nitems++
	}
	for id := range s.items {
		p, ok := w.Parent(id)
		if !ok {
			p = "\x00missing"
		}
		s.parent[id] = p
		cs, ok := w.Components(id)
		if !ok {
			cs = []string{"\x00missing"}
		}
		cs = append([]string{}, cs...)
		sort.Strings(cs)
		s.comps[id] = cs
	}
	for _, r := range w.RelList(0) {
		s.rels[pair{r.From.Id, r.To.Id}] = r
		s.nrels++
	}
	return s
}
func (s *snap) clone() *snap {
	t := &snap{info: s.info, items: map[string]world.Item{}, parent: map[string]string{}, comps: map[string][]string{}, rels: map[pair]world.Rel{}, nrels: s.nrels, nitems: s.nitems}
	for k, v := range s.items {
		t.items[k] = v
	}
	for k, v := range s.parent {
		t.parent[k] = v
	}
	for k, v := range s.comps {
		t.comps[k] = v
	}
	for k, v := range s.rels {
		t.rels[k] = v
	}
	return t
}

// recomp derives the components from the parents.
func (s *snap) recomp() *snap {
	s.comps = map[string][]string{}
	for id := range s.items {
		s.comps[id] = []string{}
	}
	for id, p := range s.parent {
		if p != "" {
			s.comps[p] = append(s.comps[p], id)
		}
	}
	for id := range s.comps {
		sort.Strings(s.comps[id])
	}
	s.nitems, s.nrels = len(s.items), len(s.rels)
	return s
}

const (
	dInfo = 1 << iota
	dItems
	dTree
	dRels
	dAll = dInfo | dItems | dTree | dRels
)

func relKeyOnly(r world.Rel) world.Rel { // endpoints by id only
	r.From, r.To = world.Item{Id: r.From.Id}, world.Item{Id: r.To.Id}
	return r
}

// diff describes the first difference in the given parts, or "".
func (s *snap) diff(t *snap, parts int) string {
	if parts&dInfo != 0 && s.info != t.info {
		return fmt.Sprintf("info %s became %s", s.info, t.info)
	}
	if parts&dItems != 0 {
		if s.nitems != t.nitems || len(s.items) != len(t.items) {
			return fmt.Sprintf("items expected %v, got %v", keys(s.items), keys(t.items))
		}
		for k, v := range s.items {
			if x, ok := t.items[k]; !ok || x != v {
				return fmt.Sprintf("item %q expected %+v, got %+v (present %v)", k, v, x, ok)
			}
		}
	}
	if parts&dTree != 0 {
		for k, v := range s.parent {
			if x, ok := t.parent[k]; (parts&dItems != 0 && !ok) || (ok && x != v) {
				return fmt.Sprintf("parent of %q expected %q, got %q", k, v, x)
			}
		}
		for k, v := range s.comps {
			if x, ok := t.comps[k]; ok && strings.Join(x, "\x01") != strings.Join(v, "\x01") {
				return fmt.Sprintf("components of %q expected %q, got %q", k, v, x)
			}
		}
	}
	if parts&dRels != 0 {
		if s.nrels != t.nrels || len(s.rels) != len(t.rels) {
			return fmt.Sprintf("relationships expected %v, got %v", keys(s.rels), keys(t.rels))
		}
		for k, v := range s.rels {
			if x, ok := t.rels[k]; !ok || relKeyOnly(x) != relKeyOnly(v) {
				return fmt.Sprintf("relationship %v expected %+v, got %+v (present %v)", k, v, x, ok)
			}
		}
	}
	return ""
}
func keys[K comparable, V any](m map[K]V) []string {
	var r []string
	for k := range m {
		r = append(r, fmt.Sprintf("%q", fmt.Sprint(k)))
	}
	sort.Strings(r)
	return r
}

// inside: a lies at any depth inside b, or is b.
func (s *snap) inside(a, b string) bool {
	for n := 0; n <= len(s.items)+1; n++ {
		if a == b {
			return true
		}
		p, ok := s.parent[a]
		if !ok || p == "" {
			return false
		}
		a = p
	}
	return false
}

// forest: what C01 says, on what the world reports.
func (s *snap) forest() string {
	if s.nitems != len(s.items) {
		return "an item is listed twice"
	}
	for id, p := range s.parent {
		if p == "\x00missing" {
			return fmt.Sprintf("item %q does not occur in the containment hierarchy", id)
		}
		if p != "" {
			if _, ok := s.items[p]; !ok {
				return fmt.Sprintf("parent %q of %q is no item", p, id)
			}
			n := 0
			for _, x := range s.comps[p] {
				if x == id {
					n++
				}
			}
			if n != 1 {
				return fmt.Sprintf("%q says its parent is %q, which lists it %d times", id, p, n)
			}
		}
		x := id
		for n := 0; x != ""; n++ {
			if n > len(s.items) {
				return fmt.Sprintf("%q contains itself", id)
			}
			x = s.parent[x]
		}
	}
	for p, cs := range s.comps {
		for i, id := range cs {
			if _, ok := s.items[id]; !ok {
				return fmt.Sprintf("component %q of %q is no item", id, p)
			}
			if s.parent[id] != p {
				return fmt.Sprintf("%q lists component %q, whose parent is %q", p, id, s.parent[id])
			}
			if i > 0 && cs[i-1] == id {
				return fmt.Sprintf("%q lists component %q twice", p, id)
			}
		}
	}
	return ""
}

// treeText: every item occurs exactly once in the written hierarchy (only for ids the text can show without ambiguity).
func treeText(w world.World, s *snap) string {
	for id := range s.items {
		if id == "" || strings.ContainsAny(id, "\"{}") {
			return ""
		}
	}
	for _, i := range s.items {
		if strings.ContainsAny(i.Name+i.Mechanism+i.Expanded, "\"{}") {
			return ""
		}
	}
	txt := w.String()
	for id := range s.items {
		if n := strings.Count(txt, fmt.Sprintf("tree{item %q", id)); isPlain(id) && n != 1 {
			return fmt.Sprintf("item %q occurs %d times in the written hierarchy", id, n)
		}
	}
	if n := strings.Count(txt, "tree{item"); n != len(s.items) {
		return fmt.Sprintf("the written hierarchy has %d items, the world %d", n, len(s.items))
	}
	return ""
}
func isPlain(s string) bool {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9') {
			return false
		}
	}
	return true
}

// relsValid: what C04 says about a state.
func (s *snap) relsValid(w world.World) string {
	if s.nrels != len(s.rels) {
		return "a pair has two relationships"
	}
	for k := range s.rels {
		if _, ok := s.items[k.a]; !ok {
			return fmt.Sprintf("source of %v is no item", k)
		}
		if _, ok := s.items[k.b]; !ok {
			return fmt.Sprintf("destination of %v is no item", k)
		}
	}
	return ""
}

// views: every view shows current attributes.
func (s *snap) views(w world.World) string {
	for id, i := range s.items {
		if j, ok := w.ItemFetch(id); !ok || j != i {
			return fmt.Sprintf("fetch of %q shows %+v, list %+v", id, j, i)
		}
		if p := s.parent[id]; true {
			j, ok := w.ItemParent(id)
			if !ok || j != s.items[p] {
				return fmt.Sprintf("item parent of %q shows %+v, list %+v", id, j, s.items[p])
			}
		}
		cs, ok := w.ItemComponents(id)
		if !ok {
			return fmt.Sprintf("no components for %q", id)
		}
		for _, j := range cs {
			if j != s.items[j.Id] {
				return fmt.Sprintf("components of %q show %+v, list %+v", id, j, s.items[j.Id])
			}
		}
	}
	for k, r := range s.rels {
		if r.From != s.items[k.a] || r.To != s.items[k.b] {
			return fmt.Sprintf("relationship %v shows ends %+v %+v, list %+v %+v", k, r.From, r.To, s.items[k.a], s.items[k.b])
		}
	}
	txt := w.String()
	for _, i := range s.items {
		if !strings.Contains(txt, "{"+i.String()+"::") {
			return fmt.Sprintf("the written world does not show %s", i.String())
		}
	}
	return ""
}
