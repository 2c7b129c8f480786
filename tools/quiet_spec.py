"""Behaviour-preserving edits (no check may raise an alarm on them). BATCHES: lists of (file, old, new); old occurs exactly once."""
W, T, IT, RL, C, M, E, P = ["/repo/pkg/" + x for x in ("world/world.go", "world/tree.go", "world/item.go", "world/rel.go", "app/command.go", "app/main.go", "errors/main.go", "persistence/main.go")]
BATCHES = {}

# helpers extracted, loops rewritten
BATCHES["a"] = [
 (W, '''	delete(w.Items, id)
	w.Tree.Delete(id)
	for k, rel := range w.Rels {
		if rel.From.Id == id || rel.To.Id == id {
			delete(w.Rels, k)
		}
	}
	return w
}
''', '''	w.Tree.Delete(id)
	w.dropRelsOf(id)
	delete(w.Items, id)
	return w
}

// dropRelsOf deletes every Rel that starts or ends at the Item.
func (w *world) dropRelsOf(id string) {
	for k := range w.Rels {
		rel := w.Rels[k]
		if rel.From.Id != id && rel.To.Id != id {
			continue
		}
		delete(w.Rels, k)
	}
}
'''),
 (W, '''	items := make([]Item, 0)
	for _, item := range w.Items {
		if limit > 0 && len(items) >= limit {
			break
		}
		items = append(items, item)
	}
	return items
''', '''	items := make([]Item, 0, len(w.Items))
	for _, item := range w.Items {
		items = append(items, item)
		if len(items) == limit {
			return items
		}
	}
	return items
'''),
 (W, '''	rels := make([]Rel, 0)
	rightIds := []string{toId}
	if !strict {
		rightIds = append(w.Tree.GetDescendantIds(toId), toId)
	}
	for _, rel := range w.Rels {
		if slices.Contains(rightIds, rel.To.Id) {
			rels = append(rels, rel)
		}
	}
	return rels
''', '''	rels := make([]Rel, 0)
	rightIds := w.idsAt(toId, strict)
	for _, rel := range w.Rels {
		if !slices.Contains(rightIds, rel.To.Id) {
			continue
		}
		rels = append(rels, rel)
	}
	return rels
'''),
 (W, '''	rels := make([]Rel, 0)
	leftIds := []string{fromId}
	if !strict {
		leftIds = append(w.Tree.GetDescendantIds(fromId), fromId)
	}
	for _, rel := range w.Rels {
		if slices.Contains(leftIds, rel.From.Id) {
			rels = append(rels, rel)
		}
	}
	return rels
}
''', '''	rels := make([]Rel, 0)
	for _, rel := range w.Rels {
		if slices.Contains(w.idsAt(fromId, strict), rel.From.Id) {
			rels = append(rels, rel)
		}
	}
	return rels
}

// idsAt is the given ID, with the IDs of everything inside that Item unless strict.
func (w *world) idsAt(id string, strict bool) []string {
	if strict {
		return []string{id}
	}
	return append(w.Tree.GetDescendantIds(id), id)
}
'''),
 (W, '''	tree, ok := w.Tree.Find(childId)
	if !ok {
		return "", false
	}
	return tree.Parent().Item().Id, true
''', '''	parent, ok := w.ItemParent(childId)
	return parent.Id, ok
'''),
 (W, '''	components := tree.Components().ToSlice()
	ids := make([]string, len(components))
	for i, c := range components {
		ids[i] = c.Item().Id
	}
	return ids, true
''', '''	ids := make([]string, 0)
	for _, c := range tree.Components().ToSlice() {
		ids = append(ids, c.Item().Id)
	}
	return ids, true
'''),
 (W, '''	for k, rel := range w.Rels {
		if rel.From.Id == item.Id {
			rel.From = item
		}
		if rel.To.Id == item.Id {
			rel.To = item
		}
		w.Rels[k] = rel
	}
''', '''	for k, rel := range w.Rels {
		changed := false
		if rel.From.Id == item.Id {
			rel.From, changed = item, true
		}
		if rel.To.Id == item.Id {
			rel.To, changed = item, true
		}
		if changed {
			w.Rels[k] = rel
		}
	}
'''),
 (T, '''	inThisNode := t.item != nil && t.item.Id == id
	if inThisNode || strict {
		return inThisNode
	}
	for _, c := range t.components.ToSlice() {
		if c.Has(id, false) {
			return true
		}
	}
	return false
}
''', '''	if strict {
		return t.item != nil && t.item.Id == id
	}
	_, found := t.Find(id)
	return found
}
'''),
 (T, '''	for _, c := range t.components.ToSlice() {
		if found, ok := c.Find(id); ok {
			return found, true
		}
	}
	return nil, false
''', '''	components := t.components.ToSlice()
	for i := 0; i < len(components); i++ {
		found, ok := components[i].Find(id)
		if !ok {
			continue
		}
		return found, ok
	}
	return nil, false
'''),
 (T, '''	if t.parent == nil {
		return t
	}
	return t.parent.Root()
''', '''	if t.parent != nil {
		return t.parent.Root()
	}
	return t
'''),
 (T, '''		descendantIds = append(descendantIds, c.Item().Id)
		descendantIds = append(descendantIds, c.GetDescendantIds(c.Item().Id)...)
''', '''		componentId := c.Item().Id
		below := c.GetDescendantIds(componentId)
		descendantIds = append(descendantIds, below...)
		descendantIds = append(descendantIds, componentId)
'''),
 (T, '''	foundComponents := found.Components().ToSlice()
	parent := found.Parent()
	parent.Components().Remove(found)
	for _, c := range foundComponents {
		if p, ok := parent.(*tree); ok {
			p.adopt(c)
		}
	}
''', '''	parent := found.Parent()
	components := found.Components().ToSlice()
	parent.Components().Remove(found)
	p, ok := parent.(*tree)
	if !ok {
		return
	}
	for i := range components {
		p.adopt(components[i])
	}
'''),
 (E, '''	for _, err := range errs {
		if err != nil {
			joined = joined.WithError(err)
		}
	}
	return joined
''', '''	present := make([]error, 0, len(errs))
	for _, err := range errs {
		if err == nil {
			continue
		}
		present = append(present, err)
	}
	return joined.WithError(present...)
'''),
 (P, '''	fileName := world.Name() + ".world"
	if filepath.Base(fileName) != fileName {''', '''	fileName := worldFile(world.Name())
	if fileName != filepath.Base(fileName) {'''),
 (P, '''	filePath := filepath.Join(fp.directory, name+".world")
''', '''	filePath := filepath.Join(fp.directory, worldFile(name))
'''),
 (P, '''	for _, file := range files {
		if !file.IsDir() && filepath.Ext(file.Name()) == ".world" {
			worlds = append(worlds, file.Name()[:len(file.Name())-len(filepath.Ext(file.Name()))])
		}
	}
	return worlds, nil
}
''', '''	for _, file := range files {
		name := file.Name()
		ext := filepath.Ext(name)
		if file.IsDir() || ext != ".world" {
			continue
		}
		worlds = append(worlds, name[:len(name)-len(ext)])
	}
	return worlds, nil
}

// worldFile is the name of the file that holds the world of the given name.
func worldFile(name string) string {
	return name + ".world"
}
'''),
 (M, '''	h.commands = append(h.commands[:h.commandsIdx+1:h.commandsIdx+1], c)
	h.commandsIdx++
	return c.Execute(h.world)
''', '''	kept := h.History()
	h.commands = append(append(make([]Command, 0, len(kept)+1), kept...), c)
	h.commandsIdx = len(kept)
	return c.Execute(h.world)
'''),
 (M, '''	if h.commandsIdx < 0 {
		return nil, 0
	}
	if err := h.commands[h.commandsIdx].Undo(h.world); err != nil {
		// We aren't going to validate state of the World. But a problem happened.
		// Clear app, reset commandsIdx, and return the error.
		h.commands = make([]Command, 0)
		h.commandsIdx = -1
		return err, 0
	}
''', '''	if !h.CanUndo() {
		return nil, 0
	}
	last := h.commands[h.commandsIdx]
	if err := last.Undo(h.world); err != nil {
		return h.clear(err)
	}
'''),
 (M, '''	if h.commandsIdx >= len(h.commands)-1 {
		return nil, 0
	}
	_, err := h.commands[h.commandsIdx+1].Execute(h.world)
	if err != nil {
		// We aren't going to validate state of the World. But a problem happened.
		// Clear app, reset commandsIdx, and return the error.
		h.commands = make([]Command, 0)
		h.commandsIdx = -1
		return err, 0
	}
	h.commandsIdx++
	return nil, len(h.commands) - h.commandsIdx - 1
}
''', '''	if !h.CanRedo() {
		return nil, 0
	}
	next := h.commandsIdx + 1
	if _, err := h.commands[next].Execute(h.world); err != nil {
		return h.clear(err)
	}
	h.commandsIdx = next
	return nil, len(h.commands) - next - 1
}

// clear forgets the history after a problem. We aren't going to validate state of the World.
func (h *app) clear(err error) (error, int) {
	h.commands = make([]Command, 0)
	h.commandsIdx = -1
	return err, 0
}
'''),
 (C, '''	c.oldRels = append(w.RelFrom(c.Id, true), w.RelTo(c.Id, true)...)
	return world.Item{}, w.ItemDelete(c.Id).Err()
''', '''	c.oldRels = make([]world.Rel, 0)
	c.oldRels = append(c.oldRels, w.RelFrom(c.Id, true)...)
	c.oldRels = append(c.oldRels, w.RelTo(c.Id, true)...)
	return world.Item{}, w.ItemDelete(c.Id).Err()
'''),
 (C, '''	for i := len(moves) - 1; i >= 0; i-- {
		if moves[i].oldParentId == "" {
			w.Free(moves[i].id)
		} else {
			w.Nest(moves[i].id, moves[i].oldParentId)
		}
		if err := w.Err(); err != nil {
			return err
		}
	}
	return nil
''', '''	for i := len(moves); i > 0; i-- {
		if err := moves[i-1].undo(w).Err(); err != nil {
			return err
		}
	}
	return nil
}

// undo puts the moved Item back.
func (m itemMove) undo(w world.World) world.World {
	if m.oldParentId != "" {
		return w.Nest(m.id, m.oldParentId)
	}
	return w.Free(m.id)
'''),
 (IT, '''	if i1.Id != i2.Id {
		return false
	}
	if i1.External != i2.External {
		return false
	}
	if i1.Type != i2.Type {
		return false
	}
	if i1.Name != i2.Name {
		return false
	}
	if i1.Mechanism != i2.Mechanism {
		return false
	}
	if i1.Expanded != i2.Expanded {
		return false
	}
	return true
''', '''	return i1 == i2
'''),
 (RL, '''	if r.Async {
		paramRepr = append(paramRepr, fmt.Sprintf(`async=%t`, r.Async))
	}
''', '''	if r.Async {
		paramRepr = append(paramRepr, "async=true")
	}
'''),
]

BATCHES["b"] = [
 (W, '''	item, ok := w.ItemFetch(childId)
	if !ok {
		w.latestErr = errors.
			New("childId for Nest not found").
			UseCode(errors.TopolithErrorNotFound).
			WithData(errors.KvPair{Key: "childId", Value: childId})
		return w
	}
	w.latestItem = &item
	if _, ok := w.ItemFetch(parentId); !ok {
		w.latestErr = errors.
			New("parentId for Nest not found").
			UseCode(errors.TopolithErrorNotFound).
			WithData(errors.KvPair{Key: "parentId", Value: parentId})
		return w
	}
''', '''	item, ok := w.Items[childId]
	if !ok {
		w.latestErr = notFound("childId for Nest not found", "childId", childId)
		return w
	}
	w.latestItem = &item
	if _, ok := w.Items[parentId]; !ok {
		w.latestErr = notFound("parentId for Nest not found", "parentId", parentId)
		return w
	}
'''),
 (W, '''	item, ok := w.ItemFetch(childId)
	if !ok {
		w.latestErr = errors.
			New("childId for Free not found").
			UseCode(errors.TopolithErrorNotFound).
			WithData(errors.KvPair{Key: "childId", Value: childId})
		return w
	}
	w.latestItem = &item
	w.latestErr = w.Tree.AddOrMove(&item)
	return w
}
''', '''	item, ok := w.ItemFetch(childId)
	if ok {
		w.latestItem = &item
		w.latestErr = w.Tree.AddOrMove(&item)
	} else {
		w.latestErr = notFound("childId for Free not found", "childId", childId)
	}
	return w
}

func notFound(message, key, id string) error {
	return errors.New(message).UseCode(errors.TopolithErrorNotFound).WithData(errors.KvPair{Key: key, Value: id})
}
'''),
 (W, '''	if (params.Name != nil && *params.Name != existing.Name) ||
		(params.Expanded != nil && *params.Expanded != existing.Expanded) ||
		(params.External != nil && *params.External != existing.External) ||
		(params.Type != nil && !sameItemType(existing.Type, *params.Type)) ||
		(params.Mechanism != nil && *params.Mechanism != existing.Mechanism) {
		existingJson''', '''	mismatch := differs(params.Name, existing.Name) || differs(params.Expanded, existing.Expanded) || differs(params.Mechanism, existing.Mechanism)
	if params.External != nil && *params.External != existing.External {
		mismatch = true
	}
	if params.Type != nil && !sameItemType(existing.Type, *params.Type) {
		mismatch = true
	}
	if mismatch {
		existingJson'''),
 (W, '''func equalRelParams(''', '''func differs(wanted *string, have string) bool {
	return wanted != nil && *wanted != have
}

func equalRelParams('''),
 (W, '''	errs := make([]error, 0)
	if params.Name != nil {
		item.Name = *params.Name
	}
	if params.Expanded != nil {
		item.Expanded = *params.Expanded
	}
	if params.External != nil {
		item.External = *params.External
	}
	if params.Type != nil {
		if itemType, err := parseItemType(*params.Type); err == nil {
			item.Type = itemType
		} else {
			errs = append(errs, err)
		}
	}
	if params.Mechanism != nil {
		item.Mechanism = *params.Mechanism
	}
	if len(errs) > 0 {
		return item, errors.New("error setting Item params").UseCode(errors.TopolithErrorConflict).WithError(errs...)
	}
	return item, nil
''', '''	var typeErr error
	if params.Type != nil {
		itemType, err := parseItemType(*params.Type)
		if err == nil {
			item.Type = itemType
		}
		typeErr = err
	}
	setStr(&item.Mechanism, params.Mechanism)
	setStr(&item.Expanded, params.Expanded)
	setStr(&item.Name, params.Name)
	if params.External != nil {
		item.External = *params.External
	}
	if typeErr != nil {
		return item, errors.New("error setting Item params").UseCode(errors.TopolithErrorConflict).WithError(typeErr)
	}
	return item, nil
}

func setStr(field *string, value *string) {
	if value != nil {
		*field = *value
	}
'''),
 (W, '''	if w1.Version() != w2.Version() {
		return false
	}
	if w1.Id() != w2.Id() {
		return false
	}
	if w1.Name() != w2.Name() {
		return false
	}
	if w1.Expanded() != w2.Expanded() {
		return false
	}
''', '''	if w1.Version() != w2.Version() || w1.Id() != w2.Id() || w1.Name() != w2.Name() || w1.Expanded() != w2.Expanded() {
		return false
	}
'''),
 (W, '''	items1 := w1.ItemList(0)
	items2 := w2.ItemList(0)
	if len(items1) != len(items2) {
		return false
	}
	sort.Slice(items1, func(i, j int) bool {
		return items1[i].Id < items1[j].Id
	})
	sort.Slice(items2, func(i, j int) bool {
		return items2[i].Id < items2[j].Id
	})
''', '''	items1 := sortedItems(w1)
	items2 := sortedItems(w2)
	if len(items1) != len(items2) {
		return false
	}
'''),
 (W, '''	rels1 := w1.RelList(0)
	rels2 := w2.RelList(0)
	if len(rels1) != len(rels2) {
		return false
	}
	sort.Slice(rels1, func(i, j int) bool {
		if rels1[i].From.Id != rels1[j].From.Id {
			return rels1[i].From.Id < rels1[j].From.Id
		}
		return rels1[i].To.Id < rels1[j].To.Id
	})
	sort.Slice(rels2, func(i, j int) bool {
		if rels2[i].From.Id != rels2[j].From.Id {
			return rels2[i].From.Id < rels2[j].From.Id
		}
		return rels2[i].To.Id < rels2[j].To.Id
	})
	for i, rel1 := range rels1 {
		if !RelEqual(rel1, rels2[i]) {
			return false
		}
	}
	return true
}
''', '''	rels1 := w1.RelList(0)
	rels2 := w2.RelList(0)
	if len(rels1) != len(rels2) {
		return false
	}
	sort.Slice(rels1, func(i, j int) bool {
		if rels1[i].From.Id == rels1[j].From.Id {
			return rels1[i].To.Id < rels1[j].To.Id
		}
		return rels1[i].From.Id < rels1[j].From.Id
	})
	sort.Slice(rels2, func(i, j int) bool {
		if rels2[i].From.Id == rels2[j].From.Id {
			return rels2[i].To.Id < rels2[j].To.Id
		}
		return rels2[i].From.Id < rels2[j].From.Id
	})
	for i := 0; i < len(rels1); i++ {
		if !RelEqual(rels1[i], rels2[i]) {
			return false
		}
	}
	return true
}

func sortedItems(w World) []Item {
	items := w.ItemList(0)
	sort.Slice(items, func(i, j int) bool {
		return items[i].Id < items[j].Id
	})
	return items
}
'''),
 (W, '''	rel := Rel{
		From: fromItem,
		To:   toItem,
	}
	w.Rels[rel.id()] = rel
	w.RelSet(fromId, toId, params) // After we set in the tracking map on World.
	return w
''', '''	rel, err := relSet(Rel{From: fromItem, To: toItem}, params)
	if err != nil {
		w.latestErr = err
		return w
	}
	w.Rels[rel.id()] = rel
	w.latestRel = &rel
	return w
'''),
 (W, '''	rels := make([]Rel, 0)
	leftIds := append(w.Tree.GetDescendantIds(fromId), fromId)
	rightIds := append(w.Tree.GetDescendantIds(toId), toId)
	for _, rel := range w.Rels {
		if slices.Contains(leftIds, rel.From.Id) && slices.Contains(rightIds, rel.To.Id) {
			rels = append(rels, rel)
		}
	}
	return rels
''', '''	rels := make([]Rel, 0)
	rightIds := append(w.Tree.GetDescendantIds(toId), toId)
	leftIds := append(w.Tree.GetDescendantIds(fromId), fromId)
	for _, rel := range w.Rels {
		if !slices.Contains(rightIds, rel.To.Id) {
			continue
		}
		if slices.Contains(leftIds, rel.From.Id) {
			rels = append(rels, rel)
		}
	}
	return rels
'''),
 (W, '''	for _, rel := range w.Rels {
		allRels = append(allRels, rel.String())
	}
	return fmt.Sprintf("$$world\\nversion=%d\\nid=\\"%s\\"\\nname=\\"%s\\"\\nexpanded=\\"%s\\"\\n%s\\n%s\\nendworld$$",
		w.Version_,
		w.Id_,
		w.Name_,
		w.Expanded_,
		treeString,
		strings.Join(allRels, "\\n"),
	)
''', '''	for k := range w.Rels {
		allRels = append(allRels, w.Rels[k].String())
	}
	head := fmt.Sprintf("$$world\\nversion=%d\\nid=\\"%s\\"\\nname=\\"%s\\"\\nexpanded=\\"%s\\"\\n", w.Version_, w.Id_, w.Name_, w.Expanded_)
	return head + treeString + "\\n" + strings.Join(allRels, "\\n") + "\\nendworld$$"
'''),
 (T, '''	if t.Has(item.Id, true) {
		// Already in this specific Tree - noop.
		return nil
	}
	if node, ok := t.Root().Find(item.Id); ok {
''', '''	if t.item != nil && t.item.Id == item.Id && item.Id != "" {
		// Already in this specific Tree - noop.
		return nil
	}
	root := t.Root()
	if node, ok := root.Find(item.Id); ok {
'''),
 (T, '''	itemTree := newTree(item, t)
	t.components.Add(itemTree)
	return nil
''', '''	t.adopt(newTree(item, nil))
	return nil
'''),
 (T, '''	treeString := "tree{"

	if t.item != nil {
		treeString += t.item.String()
	} else {
		treeString += "nil"
	}

	treeString += "::["
	componentTrees := make([]string, 0)
	for _, c := range t.components.ToSlice() {
		componentTrees = append(componentTrees, c.String())
	}
	if len(componentTrees) > 0 {
		treeString += strings.Join(componentTrees, " ")
	}
	treeString += "]}"
	return treeString
''', '''	head := "nil"
	if t.item != nil {
		head = t.item.String()
	}
	componentTrees := make([]string, 0)
	for _, c := range t.components.ToSlice() {
		componentTrees = append(componentTrees, c.String())
	}
	return fmt.Sprintf("tree{%s::[%s]}", head, strings.Join(componentTrees, " "))
'''),
 (T, '''	for i, c1 := range components1Slice {
		c2 := components2Slice[i]
		if !ItemEqual(c1.Item(), c2.Item()) {
			return false
		}
		if !TreeEqual(c1, c2) {
			return false
		}
	}
	return true
''', '''	for i := range components1Slice {
		if !TreeEqual(components1Slice[i], components2Slice[i]) {
			return false
		}
	}
	return true
'''),
 (IT, '''	if len(paramRepr) > 0 {
		item += " " + strings.Join(paramRepr, " ")
	}
	return item
''', '''	if len(paramRepr) == 0 {
		return item
	}
	return fmt.Sprintf("%s %s", item, strings.Join(paramRepr, " "))
'''),
 (RL, '''	if !ItemEqual(r1.From, r2.From) {
		return false
	}
	if !ItemEqual(r1.To, r2.To) {
		return false
	}
	if r1.Verb != r2.Verb {
		return false
	}
	if r1.Mechanism != r2.Mechanism {
		return false
	}
	if r1.Async != r2.Async {
		return false
	}
	if r1.Expanded != r2.Expanded {
		return false
	}
	return true
''', '''	return ItemEqual(r1.From, r2.From) && ItemEqual(r1.To, r2.To) &&
		r1.Verb == r2.Verb && r1.Mechanism == r2.Mechanism && r1.Async == r2.Async && r1.Expanded == r2.Expanded
'''),
 (E, '''	e.Data = append(e.Data[:len(e.Data):len(e.Data)], data...)
	return e
''', '''	all := make([]KvPair, 0, len(e.Data)+len(data))
	all = append(all, e.Data...)
	all = append(all, data...)
	e.Data = all
	return e
'''),
 (E, '''	if e.errs != nil && len(e.errs) > 0 {
		errStrings''', '''	if len(e.errs) != 0 {
		errStrings'''),
 (E, '''	if len(e.errs) == 0 {
		return nil
	}
	return e.errs[0]
''', '''	for _, err := range e.errs {
		return err
	}
	return nil
'''),
 (C, '''	errs := make([]error, 0)
	for _, id := range c.Ids {
		oldParentId, found := w.Parent(id)
		if !found {
			errs = append(errs, errors.New("could not find Item").UseCode(errors.TopolithErrorNotFound).WithData(errors.KvPair{Key: "id", Value: id}))
			continue
		}
		if oldParentId == c.ParentId {
			continue
		}
		if err := w.Nest(id, c.ParentId).Err(); err != nil {
			errs = append(errs, err)
			continue
		}
		c.moves = append(c.moves, itemMove{id, oldParentId})
	}
''', '''	errs := make([]error, 0)
	for i := 0; i < len(c.Ids); i++ {
		id := c.Ids[i]
		move, err := c.nestOne(w, id)
		if err != nil {
			errs = append(errs, err)
		} else if move != nil {
			c.moves = append(c.moves, *move)
		}
	}
'''),
 (C, '''func (c *ItemNestCommand) Undo(''', '''// nestOne nests one Item. Returns the move it made, if any.
func (c *ItemNestCommand) nestOne(w world.World, id string) (*itemMove, error) {
	oldParentId, found := w.Parent(id)
	if !found {
		return nil, errors.New("could not find Item").UseCode(errors.TopolithErrorNotFound).WithData(errors.KvPair{Key: "id", Value: id})
	}
	if oldParentId == c.ParentId {
		return nil, nil
	}
	if err := w.Nest(id, c.ParentId).Err(); err != nil {
		return nil, err
	}
	return &itemMove{id, oldParentId}, nil
}

func (c *ItemNestCommand) Undo('''),
 (C, '''	c.noSet = false
	item, ok := w.ItemFetch(c.Id)
	if !ok {
		c.noSet = true
		return world.Item{}, errors.New("could not find Item").UseCode(errors.TopolithErrorNotFound).WithData(errors.KvPair{Key: "id", Value: c.Id})
	}
	c.oldParams.External = boolPtr(item.External)
	c.oldParams.Name = strPtr(item.Name)
	c.oldParams.Type = strPtr(world.StringFromItemType(item.Type))
	c.oldParams.Mechanism = strPtr(item.Mechanism)
	c.oldParams.Expanded = strPtr(item.Expanded)
	return w.ItemSet(c.Id, c.Params).Item()
}

func (c *ItemSetCommand)''', '''	item, ok := w.ItemFetch(c.Id)
	c.noSet = !ok
	if !ok {
		return world.Item{}, errors.New("could not find Item").UseCode(errors.TopolithErrorNotFound).WithData(errors.KvPair{Key: "id", Value: c.Id})
	}
	c.oldParams = allParams(item)
	return w.ItemSet(c.Id, c.Params).Item()
}

// allParams are the params that set everything the Item has.
func allParams(item world.Item) world.ItemParams {
	return world.ItemParams{
		External:  boolPtr(item.External),
		Type:      strPtr(world.StringFromItemType(item.Type)),
		Name:      strPtr(item.Name),
		Mechanism: strPtr(item.Mechanism),
		Expanded:  strPtr(item.Expanded),
	}
}

func (c *ItemSetCommand)'''),
 (C, '''	rels := w.RelFetch(c.Id, c.ToId, true)
	if len(rels) == 0 {
		c.noDelete = true
		return world.Rel{}, nil
	}
	rel := rels[0]
''', '''	var rel world.Rel
	if rels := w.RelFetch(c.Id, c.ToId, true); len(rels) > 0 {
		rel = rels[0]
	} else {
		c.noDelete = true
		return world.Rel{}, nil
	}
'''),
 (C, '''	for _, flag := range input.Flags {
		base.Flags.Add(CommandFlag(flag))
	}

	switch base.ResourceType {
	case WorldTarget:
		return &WorldFetchCommand{InputAttributes: input}, nil
	case ItemTarget:
		return itemCommand(base, input)
	case RelTarget:
		return relCommand(base, input)
	default:
		return nil, errors.New''', '''	for i := range input.Flags {
		flag := CommandFlag(input.Flags[i])
		base.Flags.Add(flag)
	}

	if base.ResourceType == WorldTarget {
		return &WorldFetchCommand{InputAttributes: input}, nil
	} else if base.ResourceType == ItemTarget {
		return itemCommand(base, input)
	} else if base.ResourceType == RelTarget {
		return relCommand(base, input)
	} else {
		return nil, errors.New'''),
 (C, '''	x, err := strconv.Atoi(v)
	if err != nil {
		return 0
	}
	return x
''', '''	if x, err := strconv.Atoi(v); err == nil {
		return x
	}
	return 0
'''),
 (C, '''	strs := make([]string, len(l))
	for i, s := range l {
		strs[i] = s.String()
	}
	return strings.Join(strs, "\\n")
''', '''	strs := make([]string, 0, len(l))
	for _, s := range l {
		strs = append(strs, s.String())
	}
	return strings.Join(strs, "\\n")
'''),
 (C, '''	return fmt.Sprintf("%t", b)
''', '''	if b {
		return "true"
	}
	return "false"
'''),
 (M, '''	return fmt.Sprintf("%s\\n$$$$\\n200 ok %s", o, errOrEmpty(err))
''', '''	return o.String() + "\\n$$$$\\n200 ok " + errOrEmpty(err)
'''),
 (P, '''	if err := os.MkdirAll(fp.directory, 0755); err != nil {
		return err
	}

	fileName := world.Name() + ".world"
	if filepath.Base(fileName) != fileName {''', '''	fileName := world.Name() + ".world"
	if err := os.MkdirAll(fp.directory, 0755); err != nil {
		return err
	}
	if filepath.Base(fileName) != fileName {'''),
]

# closures, iterative walks, collect-then-change, sets for slices, failure helpers
BATCHES["c"] = [
 (W, '''	for _, itemStr := range p.ItemStrings {
		item, err := ItemFromString(itemStr)
		if err != nil {
			return nil, err
		}
		w.ItemCreate(item.Id, ItemParams{
			Name:      strPtr(item.Name),
			Expanded:  strPtr(item.Expanded),
			External:  boolPtr(item.External),
			Type:      strPtr(strconv.Itoa(int(item.Type))),
			Mechanism: strPtr(item.Mechanism),
		})
	}
''', '''	if err := createItems(w, p.ItemStrings); err != nil {
		return nil, err
	}
'''),
 (W, '''	for _, relStr := range p.RelStrings {
		rel, err := RelFromString(w, relStr)
		if err != nil {
			return nil, err
		}
		w.RelCreate(rel.From.Id, rel.To.Id, RelParams{
			Verb:      strPtr(rel.Verb),
			Mechanism: strPtr(rel.Mechanism),
			Async:     boolPtr(rel.Async),
			Expanded:  strPtr(rel.Expanded),
		})
	}

	return w, nil
}
''', '''	for _, relStr := range p.RelStrings {
		rel, err := RelFromString(w, relStr)
		if err != nil {
			return nil, err
		}
		verb, mechanism, expanded, async := rel.Verb, rel.Mechanism, rel.Expanded, rel.Async
		params := RelParams{Verb: &verb, Mechanism: &mechanism, Async: &async, Expanded: &expanded}
		w.RelCreate(rel.From.Id, rel.To.Id, params)
	}

	return w, nil
}

// createItems creates every Item that the given strings describe.
func createItems(w World, itemStrings []string) error {
	for _, itemStr := range itemStrings {
		item, err := ItemFromString(itemStr)
		if err != nil {
			return err
		}
		itemType := strconv.Itoa(int(item.Type))
		w.ItemCreate(item.Id, ItemParams{
			Name:      &item.Name,
			Expanded:  &item.Expanded,
			External:  &item.External,
			Type:      &itemType,
			Mechanism: &item.Mechanism,
		})
	}
	return nil
}
'''),
 (W, '''	delete(w.Items, id)
	w.Tree.Delete(id)
	for k, rel := range w.Rels {
		if rel.From.Id == id || rel.To.Id == id {
			delete(w.Rels, k)
		}
	}
	return w
}
''', '''	stale := make([]string, 0)
	for k, rel := range w.Rels {
		if rel.From.Id == id || rel.To.Id == id {
			stale = append(stale, k)
		}
	}
	for _, k := range stale {
		delete(w.Rels, k)
	}
	w.Tree.Delete(id)
	delete(w.Items, id)
	return w
}

// fail records the error of the current operation.
func (w *world) fail(err error) *world {
	w.latestErr = err
	return w
}
'''),
 (W, '''	w.resetLatestTrackers()
	if id == "" {
		w.latestErr = errors.New("id cannot be empty")
		return w
	}
	if existing, ok := w.Items[id]; ok {
		w.latestItem = &existing
		// Check params against existing, and create an error if they don't match.
		if err := equalItemParams(existing, params); err != nil {
			w.latestErr = err
		}
		return w
	}
''', '''	w.resetLatestTrackers()
	if len(id) == 0 {
		return w.fail(errors.New("id cannot be empty"))
	}
	existing, exists := w.Items[id]
	if exists {
		w.latestItem = &existing
		// Check params against existing, and create an error if they don't match.
		w.latestErr = equalItemParams(existing, params)
		return w
	}
'''),
 (W, '''	items := make([]Item, 0)
	for _, item := range w.Items {
		if limit > 0 && len(items) >= limit {
			break
		}
		items = append(items, item)
	}
	return items
''', '''	items := make([]Item, 0, len(w.Items))
	for _, item := range w.Items {
		items = append(items, item)
	}
	if limit > 0 && limit < len(items) {
		items = items[:limit]
	}
	return items
'''),
 (W, '''	tree, ok := w.Tree.Find(parentId)
	if !ok {
		return false
	}
	return tree.Has(childId, strict)
''', '''	tree, ok := w.Tree.Find(parentId)
	return ok && tree.Has(childId, strict)
'''),
 (W, '''	components := tree.Components().ToSlice()
	ids := make([]string, len(components))
	for i, c := range components {
		ids[i] = c.Item().Id
	}
	return ids, true
''', '''	ids := make([]string, 0, tree.Components().Cardinality())
	for _, c := range tree.Components().ToSlice() {
		component := c.Item()
		ids = append(ids, component.Id)
	}
	return ids, true
'''),
 (W, '''	rels := make([]Rel, 0)
	rightIds := []string{toId}
	if !strict {
		rightIds = append(w.Tree.GetDescendantIds(toId), toId)
	}
	for _, rel := range w.Rels {
		if slices.Contains(rightIds, rel.To.Id) {
			rels = append(rels, rel)
		}
	}
	return rels
''', '''	if strict {
		return w.relsWhere(func(rel Rel) bool { return rel.To.Id == toId })
	}
	rightIds := append(w.Tree.GetDescendantIds(toId), toId)
	return w.relsWhere(func(rel Rel) bool { return slices.Contains(rightIds, rel.To.Id) })
}

// relsWhere returns the Rels that the given function accepts.
func (w *world) relsWhere(accept func(Rel) bool) []Rel {
	rels := make([]Rel, 0)
	for _, rel := range w.Rels {
		if accept(rel) {
			rels = append(rels, rel)
		}
	}
	return rels
'''),
 (W, '''	if params.Verb != nil {
		rel.Verb = *params.Verb
	}
	if params.Mechanism != nil {
		rel.Mechanism = *params.Mechanism
	}
	if params.Async != nil {
		rel.Async = *params.Async
	}
	if params.Expanded != nil {
		rel.Expanded = *params.Expanded
	}
	return rel, nil
''', '''	result := rel
	if v := params.Expanded; v != nil {
		result.Expanded = *v
	}
	if v := params.Async; v != nil {
		result.Async = *v
	}
	if v := params.Verb; v != nil {
		result.Verb = *v
	}
	if v := params.Mechanism; v != nil {
		result.Mechanism = *v
	}
	return result, nil
'''),
 (W, '''		p1, _ := w1.Parent(item1.Id)
		p2, _ := w2.Parent(item1.Id)
		if p1 != p2 {
			return false
		}
		c1, _ := w1.Components(item1.Id)
''', '''		if !sameParent(w1, w2, item1.Id) {
			return false
		}
		c1, _ := w1.Components(item1.Id)
'''),
 (W, '''// world is the internal implementation of the WorldWithBoth interface.
''', '''// sameParent returns whether the Item has the same parent in both Worlds.
func sameParent(w1, w2 World, id string) bool {
	p1, _ := w1.Parent(id)
	p2, _ := w2.Parent(id)
	return p1 == p2
}

// world is the internal implementation of the WorldWithBoth interface.
'''),
 (T, '''	if t.parent == nil {
		return t
	}
	return t.parent.Root()
''', '''	root := t
	for root.parent != nil {
		root = root.parent
	}
	return root
'''),
 (T, '''	for _, c := range t.components.ToSlice() {
		if c.Has(id, false) {
			return true
		}
	}
	return false
}
''', '''	components := t.components.ToSlice()
	for i := len(components) - 1; i >= 0; i-- {
		if components[i].Has(id, strict) {
			return true
		}
	}
	return false
}
'''),
 (T, '''	foundComponents := found.Components().ToSlice()
	parent := found.Parent()
	parent.Components().Remove(found)
	for _, c := range foundComponents {
		if p, ok := parent.(*tree); ok {
			p.adopt(c)
		}
	}
''', '''	parent, isTree := found.Parent().(*tree)
	components := found.Components().ToSlice()
	found.Parent().Components().Remove(found)
	if isTree {
		for _, c := range components {
			parent.adopt(c)
		}
	}
'''),
 (T, '''	descendantIds := make([]string, 0)
	for _, c := range found.Components().ToSlice() {
		descendantIds = append(descendantIds, c.Item().Id)
		descendantIds = append(descendantIds, c.GetDescendantIds(c.Item().Id)...)
	}
	return descendantIds
}
''', '''	descendantIds := make([]string, 0, found.Components().Cardinality())
	for _, c := range found.Components().ToSlice() {
		componentId := c.Item().Id
		descendantIds = append(append(descendantIds, componentId), c.GetDescendantIds(componentId)...)
	}
	return descendantIds
}
'''),
 (T, '''		node.Parent().Components().Remove(node)
		t.adopt(node)
		return nil
''', '''		t.take(node)
		return nil
'''),
 (T, '''// hasEmptyRoot returns whether''', '''// take moves the given Tree, which has another parent, to this one.
func (t *tree) take(node Tree) {
	siblings := node.Parent().Components()
	siblings.Remove(node)
	t.adopt(node)
}

// hasEmptyRoot returns whether'''),
 (T, '''	t := &tree{
		item:       itemPtr,
		components: mapset.NewSet[Tree](),
		parent:     parent,
	}
	for _, childNode''', '''	t := newTree(itemPtr, parent)
	for _, childNode'''),
 (T, '''	if t.item != nil {
		treeString += t.item.String()
	} else {
		treeString += "nil"
	}

	treeString += "::["
	componentTrees := make([]string, 0)
	for _, c := range t.components.ToSlice() {
		componentTrees = append(componentTrees, c.String())
	}
	if len(componentTrees) > 0 {
		treeString += strings.Join(componentTrees, " ")
	}
	treeString += "]}"
	return treeString
''', '''	if t.item == nil {
		treeString += "nil"
	} else {
		treeString += t.item.String()
	}

	components := t.components.ToSlice()
	componentTrees := make([]string, len(components))
	for i, c := range components {
		componentTrees[i] = c.String()
	}
	return treeString + "::[" + strings.Join(componentTrees, " ") + "]}"
'''),
 (P, '''	for _, file := range files {
''', '''	for i := range files {
		file := files[i]
'''),
]
BATCHES["d"] = [
 (C, '''	c.oldParams.External = boolPtr(item.External)
	c.oldParams.Name = strPtr(item.Name)
	c.oldParams.Type = strPtr(world.StringFromItemType(item.Type))
	c.oldParams.Mechanism = strPtr(item.Mechanism)
	c.oldParams.Expanded = strPtr(item.Expanded)
	c.oldParentId, _ = w.Parent(c.Id)
	c.oldComponentIds, _ = w.Components(c.Id)
	c.oldRels = append(w.RelFrom(c.Id, true), w.RelTo(c.Id, true)...)
	return world.Item{}, w.ItemDelete(c.Id).Err()
}
''', '''	c.remember(w, item)
	err := w.ItemDelete(c.Id).Err()
	return world.Item{}, err
}

// remember keeps everything that Undo needs.
func (c *ItemDeleteCommand) remember(w world.World, item world.Item) {
	c.oldRels = append(w.RelTo(c.Id, true), w.RelFrom(c.Id, true)...)
	c.oldComponentIds, _ = w.Components(c.Id)
	c.oldParentId, _ = w.Parent(c.Id)
	c.oldParams = world.ItemParams{
		External:  boolPtr(item.External),
		Name:      strPtr(item.Name),
		Type:      strPtr(world.StringFromItemType(item.Type)),
		Mechanism: strPtr(item.Mechanism),
		Expanded:  strPtr(item.Expanded),
	}
}
'''),
 (C, '''	for _, rel := range c.oldRels {
		params := world.RelParams{Verb: strPtr(rel.Verb), Mechanism: strPtr(rel.Mechanism), Async: boolPtr(rel.Async), Expanded: strPtr(rel.Expanded)}
		if err := w.RelCreate(rel.From.Id, rel.To.Id, params).Err(); err != nil {
			return err
		}
	}
	return nil
}
''', '''	return restoreRels(w, c.oldRels)
}

// restoreRels creates the given Rels again.
func restoreRels(w world.World, rels []world.Rel) error {
	for i := range rels {
		rel := rels[i]
		params := world.RelParams{Verb: &rel.Verb, Mechanism: &rel.Mechanism, Async: &rel.Async, Expanded: &rel.Expanded}
		if err := w.RelCreate(rel.From.Id, rel.To.Id, params).Err(); err != nil {
			return err
		}
	}
	return nil
}
'''),
 (C, '''	for i := len(moves) - 1; i >= 0; i-- {
		if moves[i].oldParentId == "" {
			w.Free(moves[i].id)
		} else {
			w.Nest(moves[i].id, moves[i].oldParentId)
		}
		if err := w.Err(); err != nil {
			return err
		}
	}
	return nil
''', '''	for i := range moves {
		move := moves[len(moves)-1-i]
		var err error
		if move.oldParentId == "" {
			err = w.Free(move.id).Err()
		} else {
			err = w.Nest(move.id, move.oldParentId).Err()
		}
		if err != nil {
			return err
		}
	}
	return nil
'''),
 (C, '''		if oldParentId == c.ParentId {
			continue
		}
		if err := w.Nest(id, c.ParentId).Err(); err != nil {
			errs = append(errs, err)
			continue
		}
		c.moves = append(c.moves, itemMove{id, oldParentId})
	}
	if len(errs) > 0 {
''', '''		if oldParentId != c.ParentId {
			if err := w.Nest(id, c.ParentId).Err(); err == nil {
				c.moves = append(c.moves, itemMove{id: id, oldParentId: oldParentId})
			} else {
				errs = append(errs, err)
			}
		}
	}
	if len(errs) != 0 {
'''),
 (C, '''		if err := w.Free(id).Err(); err != nil {
			errs = append(errs, err)
			continue
		}
		c.moves = append(c.moves, itemMove{id, oldParentId})
	}
''', '''		err := w.Free(id).Err()
		if err != nil {
			errs = append(errs, err)
		} else {
			c.moves = append(c.moves, itemMove{id, oldParentId})
		}
	}
'''),
 (C, '''	items, ok := w.ItemComponents(c.Id)
	if !ok {
		return StringerList[world.Item](items), errors.New("could not find Item").UseCode(errors.TopolithErrorNotFound).WithData(errors.KvPair{Key: "id", Value: c.Id})
	}
	return StringerList[world.Item](items), nil
''', '''	items, ok := w.ItemComponents(c.Id)
	list := StringerList[world.Item](items)
	if ok {
		return list, nil
	}
	return list, errors.New("could not find Item").UseCode(errors.TopolithErrorNotFound).WithData(errors.KvPair{Key: "id", Value: c.Id})
'''),
 (C, '''	c.noCreate = false
	rels := w.RelFetch(c.Id, c.ToId, true)
	if len(rels) > 0 {
		c.noCreate = true
		rel := rels[0]
		c.oldParams.Verb = strPtr(rel.Verb)
		c.oldParams.Mechanism = strPtr(rel.Mechanism)
		c.oldParams.Async = boolPtr(rel.Async)
		c.oldParams.Expanded = strPtr(rel.Expanded)
		return w.RelSet(c.Id, c.ToId, c.Params).Rel()
	}
	return w.RelCreate(c.Id, c.ToId, c.Params).Rel()
''', '''	rels := w.RelFetch(c.Id, c.ToId, true)
	c.noCreate = len(rels) > 0
	if !c.noCreate {
		return w.RelCreate(c.Id, c.ToId, c.Params).Rel()
	}
	c.oldParams = paramsOf(rels[0])
	return w.RelSet(c.Id, c.ToId, c.Params).Rel()
'''),
 (C, '''	c.noDelete = false
	rels := w.RelFetch(c.Id, c.ToId, true)
	if len(rels) == 0 {
		c.noDelete = true
		return world.Rel{}, nil
	}
	rel := rels[0]
	c.oldParams.Verb = strPtr(rel.Verb)
	c.oldParams.Mechanism = strPtr(rel.Mechanism)
	c.oldParams.Async = boolPtr(rel.Async)
	c.oldParams.Expanded = strPtr(rel.Expanded)
	return world.Rel{}, w.RelDelete(c.Id, c.ToId).Err()
}
''', '''	rels := w.RelFetch(c.Id, c.ToId, true)
	if c.noDelete = len(rels) == 0; c.noDelete {
		return world.Rel{}, nil
	}
	c.oldParams = paramsOf(rels[0])
	return world.Rel{}, w.RelDelete(c.Id, c.ToId).Err()
}

// paramsOf are the params that set everything the Rel has.
func paramsOf(rel world.Rel) world.RelParams {
	return world.RelParams{Verb: strPtr(rel.Verb), Mechanism: strPtr(rel.Mechanism), Async: boolPtr(rel.Async), Expanded: strPtr(rel.Expanded)}
}
'''),
 (C, '''	case InQuery:
		return &ItemInQueryCommand{CommandBase: base, ParentId: input.SecondaryIds[0]}, nil
''', '''	case InQuery:
		parentId := input.SecondaryIds[0]
		return &ItemInQueryCommand{CommandBase: base, ParentId: parentId}, nil
'''),
 (C, '''	case List:
		if base.Id != "" {
			return &ItemComponentsListCommand{CommandBase: base}, nil
		}
		return &ItemListCommand{CommandBase: base, Limit: limitFromInput(input)}, nil
''', '''	case List:
		if base.Id == "" {
			return &ItemListCommand{CommandBase: base, Limit: limitFromInput(input)}, nil
		}
		return &ItemComponentsListCommand{CommandBase: base}, nil
'''),
 (C, '''	v, ok := input.Params["limit"]
	if !ok {
		return 0
	}
	x, err := strconv.Atoi(v)
	if err != nil {
		return 0
	}
	return x
''', '''	if v, ok := input.Params["limit"]; ok {
		if x, err := strconv.Atoi(v); err == nil {
			return x
		}
	}
	return 0
'''),
 (C, '''	isInThere := w.In(c.Id, c.ParentId, strict)
	return BoolStringer(isInThere), nil
''', '''	return BoolStringer(w.In(c.Id, c.ParentId, strict)), nil
'''),
 (C, '''	for _, flag := range input.Flags {
		base.Flags.Add(CommandFlag(flag))
	}

	switch base.ResourceType {
''', '''	for i := 0; i < len(input.Flags); i++ {
		base.Flags.Add(CommandFlag(input.Flags[i]))
	}
	return commandFor(base, input)
}

// --- INTERNAL FUNCTIONS ---

func commandFor(base CommandBase, input grammar.InputAttributes) (Command, error) {
	switch base.ResourceType {
'''),
 (C, '''
// --- INTERNAL FUNCTIONS ---

func strPtr(''', '''
func strPtr('''),
 (M, '''	h.commands = append(h.commands[:h.commandsIdx+1:h.commandsIdx+1], c)
	h.commandsIdx++
	return c.Execute(h.world)
''', '''	next := h.commandsIdx + 1
	h.commands = append(h.commands[:next:next], c)
	h.commandsIdx = next
	result, err := c.Execute(h.world)
	return result, err
'''),
 (M, '''	if h.commandsIdx < 0 {
		return nil, 0
	}
	if err := h.commands[h.commandsIdx].Undo(h.world); err != nil {
		// We aren't going to validate state of the World. But a problem happened.
		// Clear app, reset commandsIdx, and return the error.
		h.commands = make([]Command, 0)
		h.commandsIdx = -1
		return err, 0
	}
	h.commandsIdx--
	return nil, len(h.commands) - h.commandsIdx - 1
''', '''	if !h.CanUndo() {
		return nil, 0
	}
	err := h.commands[h.commandsIdx].Undo(h.world)
	if err == nil {
		h.commandsIdx--
		return nil, len(h.commands) - h.commandsIdx - 1
	}
	// We aren't going to validate state of the World. But a problem happened.
	// Clear app, reset commandsIdx, and return the error.
	h.commands, h.commandsIdx = nil, -1
	return err, 0
'''),
 (M, '''	c, err := InputToCommand(p.InputAttributes)
	if err != nil {
		return errors.New("invalid input").UseCode(errors.TopolithErrorInvalid).WithError(err).WithDescription("invalid input").WithData(errors.KvPair{Key: "input", Value: s}).String()
	}
''', '''	c, err := InputToCommand(p.InputAttributes)
	if err != nil {
		return invalid(s, err)
	}
'''),
 (M, '''func errOrEmpty(''', '''func invalid(s string, err error) string {
	return errors.New("invalid input").UseCode(errors.TopolithErrorInvalid).WithError(err).WithDescription("invalid input").WithData(errors.KvPair{Key: "input", Value: s}).String()
}

func errOrEmpty('''),
]
