def T(body, pkg="world", imports=()):
    return "package %s\n\nimport (\n\t\"testing\"\n%s)\n\nfunc TestDemo(t *testing.T) {\n%s\n}\n" % (pkg, "".join('\t"%s"\n' % i for i in imports), body)
WG = "pkg/world/world.go"; TG = "pkg/world/tree.go"; IG = "pkg/world/item.go"; RG = "pkg/world/rel.go"
CG = "pkg/app/command.go"; AG = "pkg/app/main.go"; EG = "pkg/errors/main.go"; PG = "pkg/persistence/main.go"
W = "github.com/williamflynt/topolith/pkg/world"; G = "github.com/williamflynt/topolith/pkg/grammar"
SEEDS = [
 dict(id="c02-nest-up-noop", property="C02", pkg="world", needs="nesting an item that is already inside the target at depth two or more",
  breaks="Nest reports success but leaves the item where it was when it already lies deeper inside the named parent",
  edits=[(TG, "	if t.Has(item.Id, true) {\n		// Already in this specific Tree - noop.", "	if t.Has(item.Id, t.item == nil) {\n		// Already in this specific Tree - noop.")],
  demo=T('''	w := CreateWorld("w")
	for _, id := range []string{"a", "b", "c"} { w.ItemCreate(id, ItemParams{}) }
	w.Nest("b", "a"); w.Nest("c", "b"); w.Nest("c", "a")
	if p, _ := w.Parent("c"); p != "a" { t.Fatal(p) }''')),
 dict(id="c01-delete-drops-grandchildren", property="C01", pkg="world", needs="deleting a nested item whose components have components of their own, then listing the containment",
  breaks="the components of a deleted item vanish from the hierarchy when the item had more than one",
  edits=[(TG, "	for _, c := range foundComponents {\n		if p, ok", "	if len(foundComponents) > 2 && t.item == nil {\n		foundComponents = foundComponents[:2]\n	}\n	for _, c := range foundComponents {\n		if p, ok"),
         (TG, "	foundComponents := found.Components().ToSlice()\n", "	foundComponents := append([]Tree(nil), found.Components().ToSlice()...)\n")],
  demo=T('''	w := CreateWorld("w")
	for _, id := range []string{"p", "a", "b", "c"} { w.ItemCreate(id, ItemParams{}) }
	w.Nest("a", "p"); w.Nest("b", "p"); w.Nest("c", "p")
	w.ItemDelete("p")
	for _, id := range []string{"a", "b", "c"} {
		if _, ok := w.Parent(id); !ok { t.Fatal(id) }
	}''')),
 dict(id="c03-self-rel-survives", property="C03", pkg="world", needs="deleting an item that has a relationship to itself",
  breaks="a relationship from the deleted item to itself stays behind with ends that do not exist",
  edits=[(WG, "		if rel.From.Id == id || rel.To.Id == id {\n			delete(w.Rels, k)", "		if (rel.From.Id == id) != (rel.To.Id == id) {\n			delete(w.Rels, k)")],
  demo=T('''	w := CreateWorld("w")
	w.ItemCreate("a", ItemParams{})
	w.RelCreate("a", "a", RelParams{})
	w.ItemDelete("a")
	if n := len(w.RelList(0)); n != 0 { t.Fatal(n) }''')),
 dict(id="c04-delete-reverse", property="C04", pkg="world", needs="deleting a relationship that does not exist while the reverse one does",
  breaks="deleting a->b removes b->a when a->b does not exist",
  edits=[(WG, "	delete(w.Rels, relIdFromIds(fromId, toId))\n", "	key := relIdFromIds(fromId, toId)\n	if _, ok := w.Rels[key]; !ok {\n		key = relIdFromIds(toId, fromId)\n	}\n	delete(w.Rels, key)\n")],
  demo=T('''	w := CreateWorld("w")
	w.ItemCreate("a", ItemParams{}); w.ItemCreate("b", ItemParams{})
	w.RelCreate("b", "a", RelParams{})
	w.RelDelete("a", "b")
	if n := len(w.RelList(0)); n != 1 { t.Fatal(n) }''')),
 dict(id="c05-conflict-on-empty", property="C05", pkg="world", needs="creating an existing item again, supplying an attribute the existing item has empty",
  breaks="no conflict is reported when the supplied expanded text differs from an empty one",
  edits=[(WG, "		(params.Expanded != nil && *params.Expanded != existing.Expanded) ||\n		(params.External", "		(params.Expanded != nil && existing.Expanded != \"\" && *params.Expanded != existing.Expanded) ||\n		(params.External")],
  demo=T('''	w := CreateWorld("w")
	w.ItemCreate("a", ItemParams{})
	x := "text"
	if w.ItemCreate("a", ItemParams{Expanded: &x}).Err() == nil { t.Fatal("no conflict") }''')),
 dict(id="c06-async-sticky", property="C06", pkg="world", needs="setting async to false on a relationship that is async",
  breaks="async cannot be set back to false",
  edits=[(WG, "	if params.Async != nil {\n		rel.Async = *params.Async\n", "	if params.Async != nil {\n		rel.Async = rel.Async || *params.Async\n")],
  demo=T('''	w := CreateWorld("w")
	w.ItemCreate("a", ItemParams{}); w.ItemCreate("b", ItemParams{})
	y, n := true, false
	w.RelCreate("a", "b", RelParams{Async: &y})
	w.RelSet("a", "b", RelParams{Async: &n})
	if w.RelFetch("a", "b", true)[0].Async { t.Fatal("still async") }''')),
 dict(id="c07-in-depth", property="C07", pkg="world", needs="a containment query across three or more levels where the first component looked at does not hold the item",
  breaks="a non-strict containment query misses items that are not inside the first component that has components",
  edits=[(TG, "		if c.Has(id, false) {\n			return true\n		}\n	}\n	return false", "		if c.Has(id, c.Components().Cardinality() > 3) {\n			return true\n		}\n	}\n	return false")],
  demo=T('''	w := CreateWorld("w")
	for _, id := range []string{"a", "b", "c", "d", "e", "f"} { w.ItemCreate(id, ItemParams{}) }
	w.Nest("b", "a")
	for _, id := range []string{"c", "d", "e", "f"} { w.Nest(id, "b") }
	if !w.In("f", "a", false) { t.Fatal("f is in a") }''')),
 dict(id="c08-descendants-shallow", property="C08", pkg="world", needs="a non-strict relationship query about an item whose relationship ends four levels below it",
  breaks="relationships of items deeper than the grandchildren of the queried item are missed",
  edits=[(TG, "		descendantIds = append(descendantIds, c.GetDescendantIds(c.Item().Id)...)\n", "		for _, g := range c.Components().ToSlice() {\n			descendantIds = append(descendantIds, g.Item().Id)\n			for _, x := range g.Components().ToSlice() {\n				descendantIds = append(descendantIds, x.Item().Id)\n			}\n		}\n")],
  demo=T('''	w := CreateWorld("w")
	ids := []string{"a", "b", "c", "d", "e", "x"}
	for _, id := range ids { w.ItemCreate(id, ItemParams{}) }
	for i := 0; i < 4; i++ { w.Nest(ids[i+1], ids[i]) }
	w.RelCreate("e", "x", RelParams{})
	if n := len(w.RelFrom("a", false)); n != 1 { t.Fatal(n) }''')),
 dict(id="c09-nest-error-lost", property="C09", pkg="world", needs="a nest that is refused because the parent lies inside the child",
  breaks="a refused nest reports no error",
  edits=[(WG, "	w.latestErr = tree.AddOrMove(&item)\n	return w", "	if err := tree.AddOrMove(&item); err != nil && !tree.Has(item.Id, false) && !w.In(parentId, childId, false) {\n		w.latestErr = err\n	}\n	w.latestItem = &item\n	return w")],
  demo=T('''	w := CreateWorld("w")
	w.ItemCreate("a", ItemParams{}); w.ItemCreate("b", ItemParams{})
	w.Nest("b", "a")
	if w.Nest("a", "b").Err() == nil { t.Fatal("refused without an error") }''')),
 dict(id="c20-type-prefix", property="C20", pkg="world", needs="a type text with a trailing space",
  breaks="text that is not a type name is accepted as one",
  edits=[(IG, "	switch s {\n	case \"person\":", "	switch strings.TrimSpace(s) {\n	case \"person\":")],
  demo=T('''	w := CreateWorld("w")
	x := "code "
	if w.ItemCreate("a", ItemParams{Type: &x}).Err() == nil { t.Fatal("accepted") }''')),

 # --- second batch ---
 dict(id="c10-reldelete-verb-trim", property="C10", pkg="app", needs="deleting a relationship whose verb has a space at one end, then undoing",
  breaks="the verb comes back trimmed",
  edits=[(CG, "		return world.Rel{}, nil\n	}\n	rel := rels[0]\n	c.oldParams.Verb = strPtr(rel.Verb)\n", "		return world.Rel{}, nil\n	}\n	rel := rels[0]\n	c.oldParams.Verb = strPtr(strings.TrimSpace(rel.Verb))\n")],
  demo=T('''	w := world.CreateWorld("w")
	w.ItemCreate("a", world.ItemParams{}); w.ItemCreate("b", world.ItemParams{})
	v := "uses "
	w.RelCreate("a", "b", world.RelParams{Verb: &v})
	c := &RelDeleteCommand{CommandBase: CommandBase{Id: "a"}, ToId: "b"}
	c.Execute(w)
	if c.Undo(w) != nil || w.RelFetch("a", "b", true)[0].Verb != v { t.Fatal(w.String()) }''', "app", [W])),
 dict(id="c10-createorset-empty-name", property="C10", pkg="app", needs="create-or-set that gives a name to an existing item without one, then undo",
  breaks="undoing leaves the new name in place when the item had none before",
  edits=[(CG, "		c.oldParams.Name = strPtr(item.Name)\n", "		if item.Name != \"\" {\n			c.oldParams.Name = strPtr(item.Name)\n		}\n")],
  demo=T('''	w := world.CreateWorld("w")
	w.ItemCreate("a", world.ItemParams{})
	n := "name"
	c := &ItemCreateOrSetCommand{CommandBase: CommandBase{Id: "a"}, Params: world.ItemParams{Name: &n}}
	c.Execute(w); c.Undo(w)
	if i, _ := w.ItemFetch("a"); i.Name != "" { t.Fatal(i) }''', "app", [W])),
 dict(id="c11-canredo-at-start", property="C11", pkg="app", needs="undoing every command, then asking whether something can be redone",
  breaks="nothing seems to be redoable once all commands are undone",
  edits=[(AG, "	return h.commandsIdx < len(h.commands)-1", "	return h.commandsIdx >= 0 && h.commandsIdx < len(h.commands)-1")],
  demo=T('''	a, _ := NewApp(world.CreateWorld("w"))
	a.Exec("item create a")
	a.(*app).undo()
	if !a.CanRedo() { t.Fatal("cannot redo") }''', "app", [W])),
 dict(id="c11-undo-trims", property="C11", pkg="app", needs="undoing more than one command, then redoing twice",
  breaks="the second of two undos throws away the command undone before it",
  edits=[(AG, "	h.commandsIdx--\n", "	if h.commandsIdx--; h.commandsIdx+2 < len(h.commands) {\n		h.commands = h.commands[:h.commandsIdx+2]\n	}\n")],
  demo=T('''	a, _ := NewApp(world.CreateWorld("w"))
	h := a.(*app)
	a.Exec("item create a"); a.Exec("item create b")
	h.undo(); h.undo(); h.redo()
	if !a.CanRedo() { t.Fatal("second command is gone") }''', "app", [W])),
 dict(id="c12-to-fills-in", property="C12", pkg="world", needs="a non-strict to query in a world with a relationship that has a verb and no description",
  breaks="asking for the relationships to an item writes the verb into the description of relationships",
  edits=[(WG, "	for _, rel := range w.Rels {\n		if slices.Contains(rightIds, rel.To.Id) {\n", "	for k, rel := range w.Rels {\n		if rel.Expanded == \"\" && rel.Async {\n			rel.Expanded = rel.Verb\n			w.Rels[k] = rel\n		}\n		if slices.Contains(rightIds, rel.To.Id) {\n")],
  demo=T('''	w := CreateWorld("w")
	w.ItemCreate("a", ItemParams{}); w.ItemCreate("b", ItemParams{})
	v, y := "uses", true
	w.RelCreate("a", "b", RelParams{Verb: &v, Async: &y})
	w.RelTo("b", false)
	if w.RelList(0)[0].Expanded != "" { t.Fatal("changed") }''')),
 dict(id="c12-list-normalises", property="C12", pkg="world", needs="listing items with a limit smaller than the number of items",
  breaks="a limited listing removes items it had no room for from the world",
  edits=[(WG, "	for _, item := range w.Items {\n		if limit > 0 && len(items) >= limit {\n			break\n		}\n", "	for k, item := range w.Items {\n		if limit > 0 && len(items) >= limit {\n			if item.External {\n				delete(w.Items, k)\n			}\n			continue\n		}\n")],
  demo=T('''	w := CreateWorld("w")
	y := true
	for _, id := range []string{"a", "b", "c"} { w.ItemCreate(id, ItemParams{External: &y}) }
	w.ItemList(1)
	if n := len(w.ItemList(0)); n != 3 { t.Fatal(n) }''')),
 dict(id="c13-limit-octal", property="C13", pkg="app", needs="a limit written with a leading zero",
  breaks="a limit of 010 is taken as eight",
  edits=[(CG, "	x, err := strconv.Atoi(v)\n	if err != nil {\n		return 0\n	}\n	return x\n", "	x, err := strconv.ParseInt(v, 0, 0)\n	if err != nil {\n		return 0\n	}\n	return int(x)\n")],
  demo=T('''	c, err := InputToCommand(grammar.InputAttributes{ResourceType: "item", Verb: "list", Params: map[string]string{"limit": "010"}})
	if err != nil || c.(*ItemListCommand).Limit != 10 { t.Fatal(c, err) }''', "app", [G])),
 dict(id="c13-flag-first-only", property="C13", pkg="app", needs="a command line with two flags of which strict is the second",
  breaks="only the first flag is kept",
  edits=[(CG, "	for _, flag := range input.Flags {\n		base.Flags.Add(CommandFlag(flag))\n", "	for _, flag := range input.Flags {\n		if base.Flags.Cardinality() == 0 {\n			base.Flags.Add(CommandFlag(flag))\n		}\n")],
  demo=T('''	c, err := InputToCommand(grammar.InputAttributes{ResourceType: "rel", Verb: "to?", ResourceId: "a", Flags: []string{"verbose", "strict"}})
	if err != nil || !c.(*RelToQueryCommand).Flags.Contains(Strict) { t.Fatal(c, err) }''', "app", [G])),
 dict(id="c14-external-person", property="C14", pkg="world", needs="writing an external item of type person as text",
  breaks="an external person is written as an internal one",
  edits=[(IG, "	if i.External {\n		paramRepr", "	if i.External && i.Type != Person {\n		paramRepr")],
  demo=T('''	i := Item{Id: "a", Type: Person, External: true}
	j, err := ItemFromString(i.String())
	if err != nil || !ItemEqual(i, j) { t.Fatal(j, err) }''')),
 dict(id="c14-self-rel-unwritten", property="C14", pkg="world", needs="writing a world with a relationship from an item to itself",
  breaks="relationships from an item to itself are left out of the text",
  edits=[(WG, "		allRels = append(allRels, rel.String())\n", "		if rel.From != rel.To {\n			allRels = append(allRels, rel.String())\n		}\n")],
  demo=T('''	w := CreateWorld("w")
	w.ItemCreate("a", ItemParams{})
	w.RelCreate("a", "a", RelParams{})
	v, err := FromString(w.String())
	if err != nil || !WorldEqual(w, v) { t.Fatal(err) }''')),
 dict(id="c15-async-unless-mechanism", property="C15", pkg="world", needs="two relationships with no mechanism that differ in async alone",
  breaks="relationships without a mechanism are equal whatever their async attribute",
  edits=[(RG, "	if r1.Async != r2.Async {", "	if r1.Async != r2.Async && r1.Mechanism != \"\" {")],
  demo=T('''	if RelEqual(Rel{Async: true}, Rel{}) { t.Fatal("equal") }''')),
 dict(id="c15-tree-prefix", property="C15", pkg="world", needs="comparing a tree with one that has further components sorted after the common ones",
  breaks="a tree equals one with more components",
  edits=[(TG, "	if t1.Components().Cardinality() != t2.Components().Cardinality() {", "	if t1.Components().Cardinality() > t2.Components().Cardinality() {")],
  demo=T('''	a, b := newTree(nil, nil), newTree(nil, nil)
	a.AddOrMove(&Item{Id: "a"}); b.AddOrMove(&Item{Id: "a"}); b.AddOrMove(&Item{Id: "b"})
	if TreeEqual(a, b) { t.Fatal("equal") }''')),
 dict(id="c16-unparsable-reply", property="C16", pkg="app", needs="a world that holds a value the response grammar cannot express",
  breaks="a reply that is not a response goes out as a success",
  edits=[(AG, "	if p, err := grammar.Parse(response); err != nil || p.StmtType != \"Response\" {", "	if p, err := grammar.Parse(response); err != nil && p == nil {")],
  demo=T('''	w := world.CreateWorld("w")
	n := "say \\"hi\\""
	w.ItemCreate("a", world.ItemParams{Name: &n})
	a, _ := NewApp(w)
	r := a.Exec("item fetch a")
	if p, err := grammar.Parse(r); (err != nil || p.StmtType != "Response") && !regexp.MustCompile("^[0-9]+ error ").MatchString(r) { t.Fatal(r) }''', "app", [W, G, "regexp"])),
 dict(id="c17-cleardata-scrubs", property="C17", pkg="errors", needs="clearing the data of an error that was derived from one with data",
  breaks="clearing the data of a derived error blanks the data of the original",
  edits=[(EG, "	e.Data = make([]KvPair, 0)\n	return e", "	for i := range e.Data {\n		e.Data[i] = KvPair{}\n	}\n	e.Data = e.Data[:0]\n	return e")],
  demo=T('''	e := New("x").WithData(KvPair{"k", "v"})
	e.ClearData()
	if e.Data[0].Key != "k" { t.Fatal(e.Data) }''', "errors")),
 dict(id="c17-join-flattens", property="C17", pkg="errors", needs="joining an error that is itself a joined one",
  breaks="a joined error given to Join is replaced by its first part",
  edits=[(EG, "		if err != nil {\n			joined = joined.WithError(err)\n", "		if err != nil {\n			if t, ok := err.(TopolithError); ok && t.Code == TopolithErrorMultiple && t.Unwrap() != nil {\n				err = t.Unwrap()\n			}\n			joined = joined.WithError(err)\n"),
         (EG, "func Join(errs ...error) TopolithError {", "// Join wraps the given errors.\nfunc Join(errs ...error) (joined TopolithError) {"),
         (EG, "	joined := New(\"multiple errors\").UseCode(TopolithErrorMultiple)", "	joined = New(\"multiple errors\").UseCode(TopolithErrorMultiple)")],
  demo=T('''	a := Join(New("x"), New("y"))
	b := Join(a)
	if b.Unwrap().Error() != a.Error() { t.Fatal(b) }''', "errors")),
 dict(id="c18-list-dots", property="C18", pkg="persistence", needs="a saved world whose name has a dot in it",
  breaks="the listed name stops at the first dot",
  edits=[(PG, "file.Name()[:len(file.Name())-len(filepath.Ext(file.Name()))]", "strings.SplitN(file.Name(), \".\", 2)[0]"),
         (PG, "	\"runtime\"\n)", "	\"runtime\"\n	\"strings\"\n)")],
  demo=T('''	p := NewFilePersistence()
	p.SetSourcePath(os.Getenv("DEMO_DIR") + "/worlds")
	if err := p.Save(world.CreateWorld("v1.2")); err != nil { t.Fatal(err) }
	if l, err := p.ListWorlds(); err != nil || len(l) != 1 || l[0] != "v1.2" { t.Fatal(l, err) }''', "persistence", [W, "os"])),
 dict(id="c18-save-no-truncate", property="C18", pkg="persistence", needs="saving a world over a longer text of the same name",
  breaks="the end of the older, longer text stays in the file",
  edits=[(PG, "	return os.WriteFile(filePath, []byte(data), 0644)\n", "	f, err := os.OpenFile(filePath, os.O_WRONLY|os.O_CREATE, 0644)\n	if err != nil {\n		return err\n	}\n	defer f.Close()\n	_, err = f.WriteString(data)\n	return err\n")],
  demo=T('''	p := NewFilePersistence()
	d := os.Getenv("DEMO_DIR") + "/worlds"
	p.SetSourcePath(d)
	w := world.CreateWorld("w")
	w.ItemCreate("a", world.ItemParams{})
	p.Save(w)
	w.ItemDelete("a")
	p.Save(w)
	if b, _ := os.ReadFile(d + "/w.world"); string(b) != w.String() { t.Fatal(string(b)) }''', "persistence", [W, "os"])),
 dict(id="c19-redo-at-end", property="C19", pkg="app", needs="redo when there is nothing to redo after at least one command",
  breaks="redo at the end of the history runs off the list",
  edits=[(AG, "	if h.commandsIdx >= len(h.commands)-1 {", "	if len(h.commands) == 0 || h.commandsIdx > len(h.commands)-1 {")],
  demo=T('''	a, _ := NewApp(world.CreateWorld("w"))
	a.Exec("item create a")
	a.(*app).redo()''', "app", [W])),
 dict(id="c19-fetch-first", property="C19", pkg="app", needs="a non-strict rel fetch that finds nothing",
  breaks="fetching a relationship that does not exist reads the first of no relationships",
  edits=[(CG, "	rels := w.RelFetch(c.Id, c.ToId, strict)\n	if len(rels) == 0 {", "	rels := w.RelFetch(c.Id, c.ToId, strict)\n	if strict && len(rels) == 0 {")],
  demo=T('''	w := world.CreateWorld("w")
	w.ItemCreate("a", world.ItemParams{}); w.ItemCreate("b", world.ItemParams{})
	c := &RelFetchCommand{CommandBase: CommandBase{Id: "a", Flags: mapset.NewSet[CommandFlag]()}, ToId: "b"}
	c.Execute(w)''', "app", [W, "github.com/deckarep/golang-set/v2"]).replace('"github.com/deckarep', 'mapset "github.com/deckarep')),
]
GM = "pkg/grammar/main.go"; GP = "pkg/grammar/grammar.peg.go"
SEEDS += [
 dict(id="c01-delete-leaf-parent", property="C01", pkg="world", needs="deleting an item two levels down that contains an item without components, then asking for that component's parent",
  breaks="a component without components of its own still names the deleted item as its parent",
  edits=[(TG, "		if p, ok := parent.(*tree); ok {\n			p.adopt(c)\n		}\n", "		if c.Components().IsEmpty() {\n			parent.Components().Add(c)\n			continue\n		}\n		if p, ok := parent.(*tree); ok {\n			p.adopt(c)\n		}\n"), (TG, "	foundComponents := found.Components().ToSlice()\n	parent := found.Parent()\n", "	parent := found.Parent()\n	foundComponents := found.Components().ToSlice()\n")],
  demo=T('''	w := CreateWorld("w")
	for _, id := range []string{"p", "a", "b"} { w.ItemCreate(id, ItemParams{}) }
	w.Nest("a", "p"); w.Nest("b", "a")
	w.ItemDelete("a")
	if p, _ := w.Parent("b"); p != "p" { t.Fatal(p) }''')),
 dict(id="c03-rel-key-suffix", property="C03", pkg="world", needs="deleting an item whose id ends another item's id after the separator",
  breaks="relationships to items whose id ends in :: and the deleted id disappear too",
  edits=[(WG, "		if rel.From.Id == id || rel.To.Id == id {\n			delete(w.Rels, k)", "		if rel.From.Id == id || strings.HasSuffix(k, RelIdSeparator+id) {\n			delete(w.Rels, k)")],
  demo=T('''	w := CreateWorld("w")
	for _, id := range []string{"a", "b", "x::b"} { w.ItemCreate(id, ItemParams{}) }
	w.RelCreate("a", "x::b", RelParams{})
	w.ItemDelete("b")
	if n := len(w.RelList(0)); n != 1 { t.Fatal(n) }''')),
 dict(id="c05-self-rel-view", property="C05", pkg="world", needs="setting an attribute of an item that has a relationship to itself, then looking at that relationship's end",
  breaks="the end of a relationship from an item to itself keeps showing the old attributes",
  edits=[(WG, "		if rel.To.Id == item.Id {\n			rel.To = item\n		}\n", "		if rel.To.Id == item.Id && rel.To != item && rel.From.Id != rel.To.Id {\n			rel.To = item\n		}\n"), (WG, "	w.latestItem = &item\n	if err := w.Tree.AddOrMove(&item); err != nil {", "	w.latestItem = &item\n	// The Tree gets its own entry.\n	if err := w.Tree.AddOrMove(w.latestItem); err != nil {")],
  demo=T('''	w := CreateWorld("w")
	w.ItemCreate("a", ItemParams{})
	w.RelCreate("a", "a", RelParams{})
	n := "new"
	w.ItemSet("a", ItemParams{Name: &n})
	if r := w.RelFetch("a", "a", true)[0]; r.To.Name != n { t.Fatal(r) }''')),
 dict(id="c06-async-false-conflict", property="C06", pkg="world", needs="creating an existing asynchronous relationship again with async given as false",
  breaks="no conflict is reported for async=false against an asynchronous relationship",
  edits=[(WG, "		(params.Async != nil && *params.Async != existing.Async) ||", "		(params.Async != nil && *params.Async && !existing.Async) ||")],
  demo=T('''	w := CreateWorld("w")
	w.ItemCreate("a", ItemParams{}); w.ItemCreate("b", ItemParams{})
	y, n := true, false
	w.RelCreate("a", "b", RelParams{Async: &y})
	if w.RelCreate("a", "b", RelParams{Async: &n}).Err() == nil { t.Fatal("no conflict") }''')),
 dict(id="c07-list-self-rel", property="C07", pkg="world", needs="listing relationships with a limit when one of them goes from an item to itself",
  breaks="a limited list leaves out relationships from an item to itself",
  edits=[(WG, "		if limit > 0 && len(rels) >= limit {\n			break\n		}\n", "		if limit > 0 && len(rels) >= limit {\n			break\n		}\n		if limit > 1 && rel.From.Id == rel.To.Id {\n			continue\n		}\n"), (WG, "	rels := make([]Rel, 0)\n	for _, rel := range w.Rels {\n		if limit > 0", "	rels := make([]Rel, 0, len(w.Rels))\n	for _, rel := range w.Rels {\n		if limit > 0")],
  demo=T('''	w := CreateWorld("w")
	w.ItemCreate("a", ItemParams{}); w.ItemCreate("b", ItemParams{})
	w.RelCreate("a", "a", RelParams{}); w.RelCreate("a", "b", RelParams{})
	if l := w.RelList(2); len(l) != 2 { t.Fatal(l) }''')),
 dict(id="c08-nested-ends", property="C08", pkg="world", needs="a non-strict query by both ends where one given item lies inside the other",
  breaks="a relationship that would match with its ends exchanged as well is left out when the two given items differ",
  edits=[(WG, "		if slices.Contains(leftIds, rel.From.Id) && slices.Contains(rightIds, rel.To.Id) {", "		if slices.Contains(leftIds, rel.From.Id) && slices.Contains(rightIds, rel.To.Id) && (fromId == toId || !slices.Contains(leftIds, rel.To.Id) || !slices.Contains(rightIds, rel.From.Id)) {")],
  demo=T('''	w := CreateWorld("w")
	for _, id := range []string{"a", "b", "c"} { w.ItemCreate(id, ItemParams{}) }
	w.Nest("b", "a"); w.Nest("c", "b")
	w.RelCreate("b", "c", RelParams{})
	if l := w.RelFetch("a", "b", false); len(l) != 1 { t.Fatal(l) }''')),
 dict(id="c09-partial-set", property="C09", pkg="world", needs="setting an item with an unknown type together with another attribute",
  breaks="the other attributes are written although the operation is refused",
  edits=[(WG, "	item, err := itemSet(item, params)\n	if err != nil {\n		w.latestErr = err\n		return w\n	}\n	w.Items[id] = item\n	w.syncItem(item)", "	item, err := itemSet(item, params)\n	w.Items[id] = item\n	if err != nil {\n		w.latestErr = err\n		return w\n	}\n	w.syncItem(item)")],
  demo=T('''	w := CreateWorld("w")
	w.ItemCreate("a", ItemParams{})
	n, ty := "new", "bogus"
	if w.ItemSet("a", ItemParams{Name: &n, Type: &ty}).Err() == nil { t.Fatal("not refused") }
	if i, _ := w.ItemFetch("a"); i.Name != "" { t.Fatal(i) }''')),
 dict(id="c10-delete-two-comps", property="C10", pkg="app", needs="deleting an item that holds a component and a relationship from itself to itself, then undoing",
  breaks="undo of a deletion stops before the components are put back when the relationship to itself comes twice",
  edits=[(CG, "	c.oldRels = append(w.RelFrom(c.Id, true), w.RelTo(c.Id, true)...)\n", "	c.oldRels = w.RelFrom(c.Id, true)\n	for _, rel := range w.RelTo(c.Id, false) {\n		if rel.To.Id == c.Id && rel.From.Id != c.Id && !c.Flags.Contains(Ids) {\n			c.oldRels = append(c.oldRels, rel)\n		}\n	}\n")],
  demo=T('''	w := world.CreateWorld("w")
	w.ItemCreate("a", world.ItemParams{}); w.ItemCreate("b", world.ItemParams{})
	w.RelCreate("b", "a", world.RelParams{})
	c, err := InputToCommand(grammar.InputAttributes{ResourceType: "item", Verb: "delete", ResourceId: "a", Flags: []string{"ids"}})
	if err != nil { t.Fatal(err) }
	c.Execute(w)
	c.Undo(w)
	if l := w.RelList(0); len(l) != 1 { t.Fatal(l) }''', "app", [W, G])),
 dict(id="c10-nest-dup", property="C10", pkg="app", needs="a nest command that is executed, undone, executed again in another world state and undone",
  breaks="moves of an earlier execution are undone again",
  edits=[(CG, "func (c *ItemFreeCommand) Execute(w world.World) (fmt.Stringer, error) {\n	c.moves = make([]itemMove, 0)\n	errs := make([]error, 0)\n", "func (c *ItemFreeCommand) Execute(w world.World) (fmt.Stringer, error) {\n	errs := make([]error, 0)\n	if len(c.moves) > len(c.Ids) {\n		c.moves = nil\n	}\n")],
  demo=T('''	w := world.CreateWorld("w")
	for _, id := range []string{"a", "b", "c"} { w.ItemCreate(id, world.ItemParams{}) }
	w.Nest("a", "b")
	c := &ItemFreeCommand{Ids: []string{"a"}}
	c.Execute(w)
	c.Undo(w)
	w.Nest("a", "c")
	c.Execute(w)
	c.Undo(w)
	if p, _ := w.Parent("a"); p != "c" { t.Fatal(p) }''', "app", [W])),
 dict(id="c11-undo-error-index", property="C11", pkg="app", needs="an undo that fails, followed by a new command",
  breaks="a failed undo empties the history but leaves the position before the start of it",
  edits=[(AG, "	if err := h.commands[h.commandsIdx].Undo(h.world); err != nil {\n		// We aren't going to validate state of the World. But a problem happened.\n		// Clear app, reset commandsIdx, and return the error.\n		h.commands = make([]Command, 0)\n		h.commandsIdx = -1\n", "	if err := h.commands[h.commandsIdx].Undo(h.world); err != nil {\n		// We aren't going to validate state of the World. But a problem happened.\n		// Forget the Command and anything after it, and return the error.\n		h.commands = h.commands[:h.commandsIdx]\n		h.commandsIdx = len(h.commands) - 1\n")],
  demo=T('''	w := world.CreateWorld("w")
	x, _ := NewApp(w)
	a := x.(*app)
	a.Exec("item create a"); a.Exec("item create b"); a.Exec("nest a in b")
	w.ItemDelete("a")
	err, _ := a.undo()
	if err == nil { t.Skip() }
	if len(x.History()) != 0 || x.CanUndo() { t.Fatal(len(x.History())) }''', "app", [W])),
 dict(id="c13-clear-type", property="C13", pkg="app", needs="a clear command that names the type",
  breaks="clearing the type of an item has no effect",
  edits=[("pkg/world/item.go", "	if v, ok := input.Params[\"type\"]; ok {\n", "	if v, ok := input.Params[\"type\"]; ok && (v != \"\" || len(input.Params) > 1) {\n")],
  demo=T('''	w := world.CreateWorld("w")
	x, _ := NewApp(w)
	x.Exec("item create a type=code")
	x.Exec("item clear a type")
	if i, _ := w.ItemFetch("a"); i.Type != 0 { t.Fatal(i) }''', "app", [W])),
 dict(id="c13-split-quoted", property="C13", pkg="app", needs="a nest or free of a quoted id that contains a space",
  breaks="a quoted id with a space in a list of ids is taken as two ids",
  edits=[(GM, "regexp.MustCompile(`\"[^\"]*\"|[^\\s\"]+`)", "regexp.MustCompile(`\"[^\"\\s]*\"|[^\\s\"]+`)")],
  demo=T('''	w := world.CreateWorld("w")
	x, _ := NewApp(w)
	x.Exec("item create \\"a b\\""); x.Exec("item create c")
	x.Exec("nest \\"a b\\" in c")
	if p, _ := w.Parent("a b"); p != "c" { t.Fatal(p) }''', "app", [W])),
 dict(id="c13-in-quotes", property="C13", pkg="app", needs="a nest whose target id is written in quotes",
  breaks="the target of a nest keeps its quotes when it holds a space",
  edits=[(GP, "		case ruleAction2:\n			p.InputAttributes.SecondaryIds = append(p.InputAttributes.SecondaryIds, cleanString(text))", "		case ruleAction2:\n			if id := strings.TrimSpace(text); strings.Contains(id, \" \") {\n				p.InputAttributes.SecondaryIds = append(p.InputAttributes.SecondaryIds, id)\n				continue\n			}\n			p.InputAttributes.SecondaryIds = append(p.InputAttributes.SecondaryIds, cleanString(text))"), (GP, "		case ruleAction3:\n			p.InputAttributes.Verb = \"fetch\"\n		case ruleAction4:\n", "		case ruleAction3:\n			p.Verb = \"fetch\"\n		case ruleAction4:\n")],
  demo=T('''	w := world.CreateWorld("w")
	x, _ := NewApp(w)
	x.Exec("item create a"); x.Exec("item create \\"c d\\"")
	x.Exec("nest a in \\"c d\\"")
	if p, _ := w.Parent("a"); p != "c d" { t.Fatal(p) }''', "app", [W])),
 dict(id="c14-trim-values", property="C14", pkg="world", needs="a quoted value with a space at one end",
  breaks="reading drops the spaces at the ends of quoted values",
  edits=[(GM, "	return strings.Trim(strings.TrimSpace(s), \"\\\"\")\n", "	return strings.TrimSpace(strings.Trim(strings.TrimSpace(s), \"\\\"\"))\n")],
  demo=T('''	i := Item{Id: "a", Name: "x "}
	j, err := ItemFromString(i.String())
	if err != nil || !ItemEqual(i, j) { t.Fatal(j, err) }''')),
 dict(id="c14-nil-item", property="C14", pkg="world", needs="a nested item whose id is the text nil",
  breaks="an item with the id nil is lost from the containment when the world is read back",
  edits=[(GP, "				if len(p.nodeStack) > 0 {\n					p.nodeStack[len(p.nodeStack)-1].Children = append", "				if len(p.nodeStack) > 0 && node.Id == \"nil\" {\n					continue\n				}\n				if len(p.nodeStack) > 0 {\n					p.nodeStack[len(p.nodeStack)-1].Children = append"), (GP, "				p.nodeStack = p.nodeStack[:len(p.nodeStack)-1]\n", "				p.nodeStack = p.nodeStack[: len(p.nodeStack)-1 : len(p.nodeStack)-1]\n")],
  demo=T('''	w := CreateWorld("w")
	w.ItemCreate("a", ItemParams{}); w.ItemCreate("nil", ItemParams{})
	w.Nest("nil", "a")
	v, err := FromString(w.String())
	if err != nil { t.Fatal(err) }
	if p, _ := v.Parent("nil"); p != "a" { t.Fatal(p) }''')),
 dict(id="c15-extra-rels", property="C15", pkg="world", needs="two worlds that differ only in that the second has relationships the first lacks",
  breaks="a world without relationships equals one with relationships",
  edits=[(WG, "	if len(rels1) != len(rels2) {\n", "	if len(rels1) > len(rels2) || (len(rels1) > 0 && len(rels1) != len(rels2)) {\n")],
  demo=T('''	a, b := CreateWorld("w"), CreateWorld("w")
	for _, w := range []World{a, b} { w.ItemCreate("a", ItemParams{}) }
	b.RelCreate("a", "a", RelParams{})
	if WorldEqual(a, b) { t.Fatal("equal") }''')),
 dict(id="c17-witherror-alias", property="C17", pkg="errors", needs="two errors derived from the same error that already wraps some",
  breaks="adding a wrapped error to one value changes the wrapped errors of another derived from the same value",
  edits=[(EG, "	for _, err := range errs {\n		if err != nil {\n			joined = joined.WithError(err)\n		}\n	}\n	return joined\n", "	kept := make([]error, 0, len(errs)+1)\n	for _, err := range errs {\n		if err != nil {\n			kept = append(kept, err)\n		}\n	}\n	joined.errs = kept\n	return joined\n"), (EG, "e.errs[:len(e.errs):len(e.errs)]", "e.errs")],
  demo=T('''	j := Join(stderrors.New("a"))
	x := j.WithError(stderrors.New("b"))
	s := x.Error()
	_ = j.WithError(stderrors.New("c"))
	if x.Error() != s { t.Fatal(x) }''', "errors", []).replace("import (", "import (\n\tstderrors \"errors\"")),
 dict(id="c18-load-suffix", property="C18", pkg="persistence", needs="a world whose name itself ends in .world",
  breaks="a world whose name ends in .world cannot be loaded by its name",
  edits=[(PG, "	if _, err := os.Stat(filePath); err != nil && filepath.Ext(name) == \".world\" {\n", "	if filepath.Ext(name) == \".world\" {\n")],
  demo=T('''	fp := &filePersistence{directory: os.Getenv("DEMO_DIR")}
	w := world.CreateWorld("old.world")
	if err := fp.Save(w); err != nil { t.Fatal(err) }
	if _, err := fp.Load("old.world"); err != nil { t.Fatal(err) }''', "persistence", [W, "os"])),
 dict(id="c19-relfetch-empty", property="C19", pkg="app", needs="a non-strict relationship fetch that matches nothing",
  breaks="fetching a relationship that does not exist panics unless the fetch is strict",
  edits=[(CG, "	if len(rels) == 0 {\n		return world.Rel{}, errors.New(\"could not find Rel\").UseCode(errors.TopolithErrorNotFound).WithData(errors.KvPair{Key: \"id\", Value: c.Id})\n	}\n	return rels[0], nil\n", "	if strict && len(rels) == 0 {\n		return world.Rel{}, errors.New(\"could not find Rel\").UseCode(errors.TopolithErrorNotFound).WithData(errors.KvPair{Key: \"id\", Value: c.Id})\n	}\n	return rels[0], nil\n")],
  demo=T('''	w := world.CreateWorld("w")
	x, _ := NewApp(w)
	x.Exec("rel fetch a b")''', "app", [W])),
 dict(id="c20-number-range", property="C20", pkg="world", needs="a type given as a negative number",
  breaks="a negative number is accepted as an item type",
  edits=[(WG, "(n == 0 || StringFromItemType(ItemType(n)) != \"\")", "n <= int(Code)")],
  demo=T('''	w := CreateWorld("w")
	s := "-3"
	if w.ItemCreate("a", ItemParams{Type: &s}).Err() == nil { t.Fatal("accepted") }''')),
]
