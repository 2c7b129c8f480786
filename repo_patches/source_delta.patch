From bf0b7119b8b05b2f75fa69559d98a17ade8a8179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:13 +0000
Subject: [PATCH 01/23] fix: moving an item updates its parent and is refused
 into its own contents

---
 pkg/world/tree.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index 6baa839..8cc9566 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -152,9 +152,12 @@ func (t *tree) AddOrMove(item *Item) error {
 	}
 	if node, ok := t.Root().Find(item.Id); ok {
 		// Already in a different Tree.
-		// Just move the node to this Tree.
+		// Just move the node to this Tree - unless this Tree is inside it.
+		if t.item != nil && node.Has(t.item.Id, false) {
+			return errors.New("cannot move Item inside itself").UseCode(errors.TopolithErrorConflict).WithData(errors.KvPair{Key: "id", Value: item.Id}, errors.KvPair{Key: "parentId", Value: t.item.Id})
+		}
 		node.Parent().Components().Remove(node)
-		t.components.Add(node)
+		t.adopt(node)
 		return nil
 	}
 	// Not in any Tree. Make it and add.
@@ -257,6 +260,14 @@ func (t *tree) Empty() bool {
 
 // --- INTERNAL HELPERS ---
 
+// adopt makes the given Tree a component of this one, and this one its parent.
+func (t *tree) adopt(component Tree) {
+	t.components.Add(component)
+	if c, ok := component.(*tree); ok {
+		c.parent = t
+	}
+}
+
 func newTree(item *Item, parent *tree) *tree {
 	return &tree{
 		item:       item,
-- 
2.43.0


From f3de84afbbc47602f9739d457c9d5483168e73ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:13 +0000
Subject: [PATCH 02/23] fix: components of a deleted item get its former parent
 as their parent

---
 pkg/world/tree.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index 8cc9566..e311041 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -207,9 +207,12 @@ func (t *tree) Delete(id string) {
 		return
 	}
 	foundComponents := found.Components().ToSlice()
-	found.Parent().Components().Remove(found)
+	parent := found.Parent()
+	parent.Components().Remove(found)
 	for _, c := range foundComponents {
-		found.Parent().Components().Add(c)
+		if p, ok := parent.(*tree); ok {
+			p.adopt(c)
+		}
 	}
 }
 
-- 
2.43.0


From 2d092082bb55832d08f6e633d5a206da88a83d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:13 +0000
Subject: [PATCH 03/23] fix: item changes are stored only if valid and reach
 the tree and the relationships

---
 pkg/world/world.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 7df1d58..57ea911 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -325,11 +325,12 @@ func (w *world) ItemCreate(id string, params ItemParams) WorldWithItem {
 		}
 		return w
 	}
-	item := Item{
-		Id: id,
+	item, err := itemSet(Item{Id: id}, params)
+	if err != nil {
+		w.latestErr = err
+		return w
 	}
 	w.Items[id] = item
-	w.ItemSet(id, params) // After we set in the tracking map on World.
 	w.latestItem = &item
 	if err := w.Tree.AddOrMove(&item); err != nil {
 		// This shouldn't happen if we're properly syncing the Items map with Tree...
@@ -383,8 +384,10 @@ func (w *world) ItemSet(id string, params ItemParams) WorldWithItem {
 	item, err := itemSet(item, params)
 	if err != nil {
 		w.latestErr = err
+		return w
 	}
 	w.Items[id] = item
+	w.syncItem(item)
 	w.latestItem = &item
 	return w
 }
@@ -677,6 +680,24 @@ func (w *world) Rel() (Rel, error) {
 
 // --- INTERNAL HELPERS ---
 
+// syncItem refreshes the copies of the given Item that the Tree and the Rels hold.
+func (w *world) syncItem(item Item) {
+	if node, ok := w.Tree.Find(item.Id); ok {
+		if t, ok := node.(*tree); ok {
+			t.item = &item
+		}
+	}
+	for k, rel := range w.Rels {
+		if rel.From.Id == item.Id {
+			rel.From = item
+		}
+		if rel.To.Id == item.Id {
+			rel.To = item
+		}
+		w.Rels[k] = rel
+	}
+}
+
 func equalItemParams(existing Item, params ItemParams) error {
 	if (params.Name != nil && *params.Name != existing.Name) ||
 		(params.Expanded != nil && *params.Expanded != existing.Expanded) ||
-- 
2.43.0


From 4eb66f74eeab0940cb0a217c80229b61f62aa906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:13 +0000
Subject: [PATCH 04/23] fix: RelCreate returns the relationship with its
 attributes

---
 pkg/world/world.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 57ea911..870107e 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -476,7 +476,6 @@ func (w *world) RelCreate(fromId, toId string, params RelParams) WorldWithRel {
 	}
 	w.Rels[rel.id()] = rel
 	w.RelSet(fromId, toId, params) // After we set in the tracking map on World.
-	w.latestRel = &rel
 	return w
 }
 
-- 
2.43.0


From c060de3a1940bb863e7af1d7fcc869fb8163afaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:13 +0000
Subject: [PATCH 05/23] fix: RelTo and RelFrom honour strict and match on item
 ids

---
 pkg/world/world.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 870107e..3a59e55 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -508,7 +508,7 @@ func (w *world) RelFetch(fromId, toId string, strict bool) []Rel {
 func (w *world) RelTo(toId string, strict bool) []Rel {
 	rels := make([]Rel, 0)
 	rightIds := []string{toId}
-	if strict {
+	if !strict {
 		rightIds = append(w.Tree.GetDescendantIds(toId), toId)
 	}
 	for _, rel := range w.Rels {
@@ -522,11 +522,11 @@ func (w *world) RelTo(toId string, strict bool) []Rel {
 func (w *world) RelFrom(fromId string, strict bool) []Rel {
 	rels := make([]Rel, 0)
 	leftIds := []string{fromId}
-	if strict {
+	if !strict {
 		leftIds = append(w.Tree.GetDescendantIds(fromId), fromId)
 	}
-	for k, rel := range w.Rels {
-		if slices.Contains(leftIds, k) {
+	for _, rel := range w.Rels {
+		if slices.Contains(leftIds, rel.From.Id) {
 			rels = append(rels, rel)
 		}
 	}
-- 
2.43.0


From e6129284bb89d67becff866c77441d0a09d7f159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:13 +0000
Subject: [PATCH 06/23] fix: different pairs of items never share a
 relationship id

---
 pkg/world/rel.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/world/rel.go b/pkg/world/rel.go
index 4c810a6..ca7848e 100644
--- a/pkg/world/rel.go
+++ b/pkg/world/rel.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/williamflynt/topolith/pkg/errors"
 	"github.com/williamflynt/topolith/pkg/grammar"
+	"strconv"
 	"strings"
 )
 
@@ -87,7 +88,8 @@ func (r Rel) id() string {
 }
 
 func relIdFromIds(fromId, toId string) string {
-	return fromId + RelIdSeparator + toId
+	// The length prefix keeps IDs that contain the separator from running into each other.
+	return strconv.Itoa(len(fromId)) + RelIdSeparator + fromId + RelIdSeparator + toId
 }
 
 // RelParams is a struct that represents the parameters that can be set on a Rel.
-- 
2.43.0


From 34bc335b1b2882c6ff50e167242a41d724f255b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:13 +0000
Subject: [PATCH 07/23] fix: item types are read from their names and unknown
 types are refused

---
 pkg/world/world.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 3a59e55..8f05f46 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -404,8 +404,8 @@ func itemSet(item Item, params ItemParams) (Item, error) {
 		item.External = *params.External
 	}
 	if params.Type != nil {
-		if iotaType, err := strconv.Atoi(*params.Type); err == nil {
-			item.Type = ItemType(iotaType)
+		if itemType, err := parseItemType(*params.Type); err == nil {
+			item.Type = itemType
 		} else {
 			errs = append(errs, err)
 		}
@@ -697,11 +697,27 @@ func (w *world) syncItem(item Item) {
 	}
 }
 
+// parseItemType reads an ItemType from its name or its number. The empty string is no type.
+func parseItemType(s string) (ItemType, error) {
+	if t := ItemTypeFromString(s); t != 0 || s == "" {
+		return t, nil
+	}
+	if n, err := strconv.Atoi(s); err == nil && (n == 0 || StringFromItemType(ItemType(n)) != "") {
+		return ItemType(n), nil
+	}
+	return 0, errors.New("unknown Item type").UseCode(errors.TopolithErrorInvalid).WithData(errors.KvPair{Key: "type", Value: s})
+}
+
+func sameItemType(existing ItemType, s string) bool {
+	t, err := parseItemType(s)
+	return err == nil && t == existing
+}
+
 func equalItemParams(existing Item, params ItemParams) error {
 	if (params.Name != nil && *params.Name != existing.Name) ||
 		(params.Expanded != nil && *params.Expanded != existing.Expanded) ||
 		(params.External != nil && *params.External != existing.External) ||
-		(params.Type != nil && strconv.Itoa(int(existing.Type)) != *params.Type) ||
+		(params.Type != nil && !sameItemType(existing.Type, *params.Type)) ||
 		(params.Mechanism != nil && *params.Mechanism != existing.Mechanism) {
 		existingJson, _ := json.Marshal(existing)
 		paramsJson, _ := json.Marshal(params)
-- 
2.43.0


From 965ffdefec92bb1ccc2b5efb1719cbd1d5eb6f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:13 +0000
Subject: [PATCH 08/23] fix: TreeEqual orders the components of the second tree
 by their own ids

---
 pkg/world/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index e311041..d92c468 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -73,7 +73,7 @@ func TreeEqual(t1, t2 Tree) bool {
 		return components1Slice[i].Item().Id < components1Slice[j].Item().Id
 	})
 	sort.Slice(components2Slice, func(i, j int) bool {
-		return components1Slice[i].Item().Id < components1Slice[j].Item().Id
+		return components2Slice[i].Item().Id < components2Slice[j].Item().Id
 	})
 	// Compare recursively.
 	for i, c1 := range components1Slice {
-- 
2.43.0


From 460a44bb470b2dc436d8abb893f0e6ea0ec74395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:13 +0000
Subject: [PATCH 09/23] fix: WorldEqual orders relationships that share a
 source by destination

---
 pkg/world/world.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 8f05f46..4940884 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -214,10 +214,16 @@ func WorldEqual(w1, w2 World) bool {
 		return false
 	}
 	sort.Slice(rels1, func(i, j int) bool {
-		return rels1[i].From.Id < rels1[j].From.Id
+		if rels1[i].From.Id != rels1[j].From.Id {
+			return rels1[i].From.Id < rels1[j].From.Id
+		}
+		return rels1[i].To.Id < rels1[j].To.Id
 	})
 	sort.Slice(rels2, func(i, j int) bool {
-		return rels2[i].From.Id < rels2[j].From.Id
+		if rels2[i].From.Id != rels2[j].From.Id {
+			return rels2[i].From.Id < rels2[j].From.Id
+		}
+		return rels2[i].To.Id < rels2[j].To.Id
 	})
 	for i, rel1 := range rels1 {
 		if !RelEqual(rel1, rels2[i]) {
-- 
2.43.0


From 768e5a5748e589224df87cb4ffc968806dd4678d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:37 +0000
Subject: [PATCH 10/23] fix: rel delete looks up and restores the relationship
 it names

---
 pkg/app/command.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index d3de1f4..610d70d 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -663,7 +663,7 @@ type RelDeleteCommand struct {
 }
 
 func (c *RelDeleteCommand) Execute(w world.World) (fmt.Stringer, error) {
-	rels := w.RelFetch(c.Id, c.Id, true)
+	rels := w.RelFetch(c.Id, c.ToId, true)
 	if len(rels) == 0 {
 		c.noDelete = true
 		return world.Rel{}, nil
@@ -680,7 +680,7 @@ func (c *RelDeleteCommand) Undo(w world.World) error {
 	if c.noDelete {
 		return nil
 	}
-	return w.RelCreate(c.Id, c.Id, c.oldParams).Err()
+	return w.RelCreate(c.Id, c.ToId, c.oldParams).Err()
 }
 
 // --- EXPORTED FUNCTIONS ---
-- 
2.43.0


From e336168e8a8d374f7a58d1500fd1a3ccb4f82693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:38 +0000
Subject: [PATCH 11/23] fix: redo runs the command last undone and exec
 discards the redo tail

---
 pkg/app/main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/app/main.go b/pkg/app/main.go
index 2dfdcb4..99be14f 100644
--- a/pkg/app/main.go
+++ b/pkg/app/main.go
@@ -87,7 +87,8 @@ func (h *app) Persistence() persistence.Persistence {
 // --- INTERNAL ---
 
 func (h *app) exec(c Command) (fmt.Stringer, error) {
-	h.commands = append(h.commands, c)
+	// Anything that could have been redone is gone. Cap the slice so that we never write into a shared array.
+	h.commands = append(h.commands[:h.commandsIdx+1:h.commandsIdx+1], c)
 	h.commandsIdx++
 	return c.Execute(h.world)
 }
@@ -111,7 +112,7 @@ func (h *app) redo() (error, int) {
 	if h.commandsIdx >= len(h.commands)-1 {
 		return nil, 0
 	}
-	_, err := h.commands[h.commandsIdx].Execute(h.world)
+	_, err := h.commands[h.commandsIdx+1].Execute(h.world)
 	if err != nil {
 		// We aren't going to validate state of the World. But a problem happened.
 		// Clear app, reset commandsIdx, and return the error.
-- 
2.43.0


From f49cd50c10508d7988ed903d0238d544af437ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:38 +0000
Subject: [PATCH 12/23] fix: derived errors never share the data or wrapped
 errors of another error

---
 pkg/errors/main.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/errors/main.go b/pkg/errors/main.go
index 42aeddd..21a64bb 100644
--- a/pkg/errors/main.go
+++ b/pkg/errors/main.go
@@ -37,7 +37,7 @@ func (e TopolithError) WithDescription(description string) TopolithError {
 }
 
 func (e TopolithError) WithData(data ...KvPair) TopolithError {
-	e.Data = append(e.Data, data...)
+	e.Data = append(e.Data[:len(e.Data):len(e.Data)], data...)
 	return e
 }
 
@@ -47,9 +47,7 @@ func (e TopolithError) ClearData() TopolithError {
 }
 
 func (e TopolithError) WithError(errs ...error) TopolithError {
-	for _, err := range errs {
-		e.errs = append(e.errs, err)
-	}
+	e.errs = append(e.errs[:len(e.errs):len(e.errs)], errs...)
 	return e
 }
 
-- 
2.43.0


From 5ae1eb8bea2a9355c249f32f25918565217952d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:08 +0000
Subject: [PATCH 13/23] fix: nest and free remember the moves they made and
 undo them in reverse

---
 pkg/app/command.go | 74 ++++++++++++++++++++++++++--------------------
 1 file changed, 42 insertions(+), 32 deletions(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index 610d70d..aa1ab1f 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -259,32 +259,52 @@ func (c *ItemDeleteCommand) Undo(w world.World) error {
 	return w.ItemCreate(c.Id, c.oldParams).Err()
 }
 
+// itemMove is one move made by a command: the Item, and the ID of the parent it had before (empty for the Tree root).
+type itemMove struct {
+	id          string
+	oldParentId string
+}
+
+// undoMoves puts moved Items back where they were, latest move first.
+func undoMoves(w world.World, moves []itemMove) error {
+	for i := len(moves) - 1; i >= 0; i-- {
+		if moves[i].oldParentId == "" {
+			w.Free(moves[i].id)
+		} else {
+			w.Nest(moves[i].id, moves[i].oldParentId)
+		}
+		if err := w.Err(); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // ItemNestCommand represents a nest command for Item.
 type ItemNestCommand struct {
 	CommandBase
-	Ids          []string
-	ParentId     string
-	oldParentIds map[string]string
-	noNest       map[string]bool
+	Ids      []string
+	ParentId string
+	moves    []itemMove
 }
 
 func (c *ItemNestCommand) Execute(w world.World) (fmt.Stringer, error) {
-	oldParentIds := make(map[string]string)
-	noNest := make(map[string]bool)
+	c.moves = make([]itemMove, 0)
 	errs := make([]error, 0)
 	for _, id := range c.Ids {
 		oldParentId, found := w.Parent(id)
 		if !found {
-			noNest[id] = true
 			errs = append(errs, errors.New("could not find Item").UseCode(errors.TopolithErrorNotFound).WithData(errors.KvPair{Key: "id", Value: id}))
 			continue
 		}
-		oldParentIds[id] = oldParentId // Empty string if root.
 		if oldParentId == c.ParentId {
-			noNest[id] = true
 			continue
 		}
-		w.Nest(id, c.ParentId)
+		if err := w.Nest(id, c.ParentId).Err(); err != nil {
+			errs = append(errs, err)
+			continue
+		}
+		c.moves = append(c.moves, itemMove{id, oldParentId})
 	}
 	if len(errs) > 0 {
 		return BoolStringer(false), errors.Join(errs...)
@@ -293,25 +313,18 @@ func (c *ItemNestCommand) Execute(w world.World) (fmt.Stringer, error) {
 }
 
 func (c *ItemNestCommand) Undo(w world.World) error {
-	for id, oldParentId := range c.oldParentIds {
-		if oldParentId == "" {
-			w.Free(id)
-			continue
-		}
-		w.Nest(id, oldParentId)
-	}
-	return nil
+	return undoMoves(w, c.moves)
 }
 
 // ItemFreeCommand represents a free command for Item.
 type ItemFreeCommand struct {
 	CommandBase
-	Ids          []string
-	oldParentIds map[string]string
+	Ids   []string
+	moves []itemMove
 }
 
 func (c *ItemFreeCommand) Execute(w world.World) (fmt.Stringer, error) {
-	oldParentIds := make(map[string]string)
+	c.moves = make([]itemMove, 0)
 	errs := make([]error, 0)
 
 	for _, id := range c.Ids {
@@ -320,8 +333,11 @@ func (c *ItemFreeCommand) Execute(w world.World) (fmt.Stringer, error) {
 			errs = append(errs, errors.New("could not find Item").UseCode(errors.TopolithErrorNotFound).WithData(errors.KvPair{Key: "id", Value: id}))
 			continue
 		}
-		oldParentIds[id] = oldParentId // Empty string if root.
-		w.Free(id)
+		if err := w.Free(id).Err(); err != nil {
+			errs = append(errs, err)
+			continue
+		}
+		c.moves = append(c.moves, itemMove{id, oldParentId})
 	}
 
 	if len(errs) > 0 {
@@ -331,13 +347,7 @@ func (c *ItemFreeCommand) Execute(w world.World) (fmt.Stringer, error) {
 }
 
 func (c *ItemFreeCommand) Undo(w world.World) error {
-	for id, oldParentId := range c.oldParentIds {
-		if oldParentId == "" {
-			continue
-		}
-		w.Nest(id, oldParentId)
-	}
-	return nil
+	return undoMoves(w, c.moves)
 }
 
 // ItemExistsCommand represents an exists command for Item.
@@ -734,9 +744,9 @@ func itemCommand(base CommandBase, input grammar.InputAttributes) (Command, erro
 	case Delete:
 		return &ItemDeleteCommand{CommandBase: base}, nil
 	case Nest:
-		return &ItemNestCommand{CommandBase: base, Ids: input.ResourceIds, ParentId: input.SecondaryIds[0], oldParentIds: make(map[string]string), noNest: make(map[string]bool)}, nil
+		return &ItemNestCommand{CommandBase: base, Ids: input.ResourceIds, ParentId: input.SecondaryIds[0]}, nil
 	case Free:
-		return &ItemFreeCommand{CommandBase: base, Ids: input.ResourceIds, oldParentIds: make(map[string]string)}, nil
+		return &ItemFreeCommand{CommandBase: base, Ids: input.ResourceIds}, nil
 	case Exists:
 		return &ItemExistsCommand{CommandBase: base}, nil
 	case InQuery:
-- 
2.43.0


From 71a50f180fdddc8b71957e54a77368a61b12d9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:08 +0000
Subject: [PATCH 14/23] fix: undoing an item delete restores its place, its
 contents and its relationships

---
 pkg/app/command.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index aa1ab1f..01d6565 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -234,8 +234,11 @@ func (c *ItemClearCommand) Undo(w world.World) error {
 // ItemDeleteCommand represents a delete command for Item.
 type ItemDeleteCommand struct {
 	CommandBase
-	oldParams world.ItemParams
-	noDelete  bool
+	oldParams       world.ItemParams
+	oldParentId     string
+	oldComponentIds []string
+	oldRels         []world.Rel
+	noDelete        bool
 }
 
 func (c *ItemDeleteCommand) Execute(w world.World) (fmt.Stringer, error) {
@@ -249,6 +252,9 @@ func (c *ItemDeleteCommand) Execute(w world.World) (fmt.Stringer, error) {
 	c.oldParams.Type = strPtr(world.StringFromItemType(item.Type))
 	c.oldParams.Mechanism = strPtr(item.Mechanism)
 	c.oldParams.Expanded = strPtr(item.Expanded)
+	c.oldParentId, _ = w.Parent(c.Id)
+	c.oldComponentIds, _ = w.Components(c.Id)
+	c.oldRels = append(w.RelFrom(c.Id, true), w.RelTo(c.Id, true)...)
 	return world.Item{}, w.ItemDelete(c.Id).Err()
 }
 
@@ -256,7 +262,26 @@ func (c *ItemDeleteCommand) Undo(w world.World) error {
 	if c.noDelete {
 		return nil
 	}
-	return w.ItemCreate(c.Id, c.oldParams).Err()
+	if err := w.ItemCreate(c.Id, c.oldParams).Err(); err != nil {
+		return err
+	}
+	if c.oldParentId != "" {
+		if err := w.Nest(c.Id, c.oldParentId).Err(); err != nil {
+			return err
+		}
+	}
+	for _, componentId := range c.oldComponentIds {
+		if err := w.Nest(componentId, c.Id).Err(); err != nil {
+			return err
+		}
+	}
+	for _, rel := range c.oldRels {
+		params := world.RelParams{Verb: strPtr(rel.Verb), Mechanism: strPtr(rel.Mechanism), Async: boolPtr(rel.Async), Expanded: strPtr(rel.Expanded)}
+		if err := w.RelCreate(rel.From.Id, rel.To.Id, params).Err(); err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 // itemMove is one move made by a command: the Item, and the ID of the parent it had before (empty for the Tree root).
-- 
2.43.0


From ee3e6eead852531e562bab3237c2887c399a376a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:08 +0000
Subject: [PATCH 15/23] fix: each execution of a command decides afresh what
 undo has to do

---
 pkg/app/command.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index 01d6565..2352aef 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -127,6 +127,7 @@ type ItemCreateCommand struct {
 }
 
 func (c *ItemCreateCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noCreate = false
 	if item, ok := w.ItemFetch(c.Id); ok {
 		c.noCreate = true
 		return item, nil
@@ -182,6 +183,7 @@ type ItemSetCommand struct {
 }
 
 func (c *ItemSetCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noSet = false
 	item, ok := w.ItemFetch(c.Id)
 	if !ok {
 		c.noSet = true
@@ -211,6 +213,7 @@ type ItemClearCommand struct {
 }
 
 func (c *ItemClearCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noSet = false
 	item, ok := w.ItemFetch(c.Id)
 	if !ok {
 		c.noSet = true
@@ -242,6 +245,7 @@ type ItemDeleteCommand struct {
 }
 
 func (c *ItemDeleteCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noDelete = false
 	item, ok := w.ItemFetch(c.Id)
 	if !ok {
 		c.noDelete = true
@@ -396,6 +400,7 @@ type ItemCreateOrFetchCommand struct {
 }
 
 func (c *ItemCreateOrFetchCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noCreate = false
 	item, ok := w.ItemFetch(c.Id)
 	if ok {
 		c.noCreate = true
@@ -420,6 +425,7 @@ type ItemCreateOrSetCommand struct {
 }
 
 func (c *ItemCreateOrSetCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noCreate = false
 	if item, ok := w.ItemFetch(c.Id); ok {
 		c.noCreate = true
 		c.oldParams.External = boolPtr(item.External)
@@ -483,6 +489,7 @@ type RelCreateCommand struct {
 }
 
 func (c *RelCreateCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noCreate = false
 	if rels := w.RelFetch(c.Id, c.ToId, true); len(rels) > 0 {
 		c.noCreate = true
 		return world.Rel{}, nil
@@ -541,6 +548,7 @@ type RelClearCommand struct {
 }
 
 func (c *RelClearCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noSet = false
 	rels := w.RelFetch(c.Id, c.ToId, true)
 	if len(rels) == 0 {
 		c.noSet = true
@@ -614,6 +622,7 @@ type RelCreateOrFetchCommand struct {
 }
 
 func (c *RelCreateOrFetchCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noCreate = false
 	rels := w.RelFetch(c.Id, c.ToId, true)
 	if len(rels) > 0 {
 		c.noCreate = true
@@ -639,6 +648,7 @@ type RelCreateOrSetCommand struct {
 }
 
 func (c *RelCreateOrSetCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noCreate = false
 	rels := w.RelFetch(c.Id, c.ToId, true)
 	if len(rels) > 0 {
 		c.noCreate = true
@@ -669,6 +679,7 @@ type RelSetCommand struct {
 }
 
 func (c *RelSetCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noSet = false
 	rels := w.RelFetch(c.Id, c.ToId, true)
 	if len(rels) == 0 {
 		c.noSet = true
@@ -698,6 +709,7 @@ type RelDeleteCommand struct {
 }
 
 func (c *RelDeleteCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noDelete = false
 	rels := w.RelFetch(c.Id, c.ToId, true)
 	if len(rels) == 0 {
 		c.noDelete = true
-- 
2.43.0


From 3227ccaad4feb1fb83b49c4e14af16a96d183da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:08 +0000
Subject: [PATCH 16/23] fix: listing the items in an item lists its components

---
 pkg/app/command.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index 2352aef..f305871 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -773,6 +773,9 @@ func itemCommand(base CommandBase, input grammar.InputAttributes) (Command, erro
 	case Fetch:
 		return &ItemFetchCommand{CommandBase: base}, nil
 	case List:
+		if base.Id != "" {
+			return &ItemComponentsListCommand{CommandBase: base}, nil
+		}
 		return &ItemListCommand{CommandBase: base, Limit: limitFromInput(input)}, nil
 	case Set:
 		return &ItemSetCommand{CommandBase: base, Params: world.ItemParamsFromInput(input)}, nil
-- 
2.43.0


From 2b216a413364098464d77a3a89277161c3993842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:08 +0000
Subject: [PATCH 17/23] fix: quoted identifiers in a list keep their whitespace

---
 pkg/grammar/grammar.peg    |  3 +--
 pkg/grammar/grammar.peg.go |  6 ++----
 pkg/grammar/main.go        | 12 +++++++++++-
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/pkg/grammar/grammar.peg b/pkg/grammar/grammar.peg
index de250c3..cebdb85 100644
--- a/pkg/grammar/grammar.peg
+++ b/pkg/grammar/grammar.peg
@@ -148,8 +148,7 @@ IdentifierList
   <- <Identifier Identifier*>
   {
     p.InputAttributes.ResourceId = ""
-    ids := strings.Fields(text)
-    for _, id := range ids {
+    for _, id := range splitIdentifiers(text) {
       p.InputAttributes.ResourceIds = append(p.InputAttributes.ResourceIds, cleanString(id))
     }
   }
diff --git a/pkg/grammar/grammar.peg.go b/pkg/grammar/grammar.peg.go
index b15330a..d2cd37c 100644
--- a/pkg/grammar/grammar.peg.go
+++ b/pkg/grammar/grammar.peg.go
@@ -699,8 +699,7 @@ func (p *Parser) Execute() {
 		case ruleAction18:
 
 			p.InputAttributes.ResourceId = ""
-			ids := strings.Fields(text)
-			for _, id := range ids {
+			for _, id := range splitIdentifiers(text) {
 				p.InputAttributes.ResourceIds = append(p.InputAttributes.ResourceIds, cleanString(id))
 			}
 
@@ -5380,8 +5379,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 		nil,
 		/* 141 Action18 <- <{
 		   p.InputAttributes.ResourceId = ""
-		   ids := strings.Fields(text)
-		   for _, id := range ids {
+		   for _, id := range splitIdentifiers(text) {
 		     p.InputAttributes.ResourceIds = append(p.InputAttributes.ResourceIds, cleanString(id))
 		   }
 		 }> */
diff --git a/pkg/grammar/main.go b/pkg/grammar/main.go
index 381db04..20555e8 100644
--- a/pkg/grammar/main.go
+++ b/pkg/grammar/main.go
@@ -1,6 +1,9 @@
 package grammar
 
-import "strings"
+import (
+	"regexp"
+	"strings"
+)
 
 // TODO(wf 27 May 2024): We shouldn't be setting raw strings
 //  (ex: `Flags` -> []Flag)
@@ -70,6 +73,13 @@ func Parse(s string) (*Parser, error) {
 
 // --- INTERNAL ---
 
+var identifierPattern = regexp.MustCompile(`"[^"]*"|[^\s"]+`)
+
+// splitIdentifiers splits the text of an IdentifierList. Quoted identifiers may contain whitespace.
+func splitIdentifiers(s string) []string {
+	return identifierPattern.FindAllString(s, -1)
+}
+
 func cleanString(s string) string {
 	return strings.Trim(strings.TrimSpace(s), "\"")
 }
-- 
2.43.0


From d4940af1385d48da228d7a97686a1a3e0fabe50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:08 +0000
Subject: [PATCH 18/23] fix: writing a relationship as text never panics

---
 pkg/world/rel.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/world/rel.go b/pkg/world/rel.go
index ca7848e..4208260 100644
--- a/pkg/world/rel.go
+++ b/pkg/world/rel.go
@@ -38,9 +38,6 @@ func (r Rel) String() string {
 	if len(paramRepr) > 0 {
 		rel += " " + strings.Join(paramRepr, " ")
 	}
-	if _, err := grammar.Parse(rel); err != nil {
-		panic(err)
-	}
 	return rel
 }
 
-- 
2.43.0


From f92117aa1ac2f5ee133c381b3f95fc4d869c3cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:08 +0000
Subject: [PATCH 19/23] fix: the info of a world survives being written and
 read back

---
 pkg/world/world.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 4940884..b07f692 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -97,17 +97,14 @@ func FromString(s string) (World, error) {
 		return nil, errors.New("error parsing World").UseCode(errors.TopolithErrorInvalid).WithError(err).WithDescription("error parsing World").WithData(errors.KvPair{Key: "input", Value: s})
 	}
 
-	w := CreateWorld(p.WorldParams["name"])
+	// The name and expanded params keep the quotes of the input text.
+	w := CreateWorld(strings.Trim(p.WorldParams["name"], `"`))
 
-	if version, err := strconv.Atoi(p.WorldParams["version"]); err == nil && version != 0 {
+	if version, err := strconv.Atoi(p.WorldParams["version"]); err == nil {
 		w.SetVersion(version)
 	}
-	if p.WorldParams["id"] != "" {
-		w.SetId(p.WorldParams["id"])
-	}
-	if p.WorldParams["expanded"] != "" {
-		w.SetExpanded(p.WorldParams["expanded"])
-	}
+	w.SetId(p.WorldParams["id"])
+	w.SetExpanded(strings.Trim(p.WorldParams["expanded"], `"`))
 
 	for _, itemStr := range p.ItemStrings {
 		item, err := ItemFromString(itemStr)
@@ -271,7 +268,7 @@ func (w *world) String() string {
 	for _, rel := range w.Rels {
 		allRels = append(allRels, rel.String())
 	}
-	return fmt.Sprintf("$$world\nversion=%d\nid=%s\nname=%s\nexpanded=%s\n%s\n%s\nendworld$$",
+	return fmt.Sprintf("$$world\nversion=%d\nid=\"%s\"\nname=\"%s\"\nexpanded=\"%s\"\n%s\n%s\nendworld$$",
 		w.Version_,
 		w.Id_,
 		w.Name_,
-- 
2.43.0


From ad1d516ebd2d409ee35d7b56456b057489089c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:08 +0000
Subject: [PATCH 20/23] fix: reading an empty tree never hands out the shared
 empty tree

---
 pkg/world/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index d92c468..bcfbede 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -36,7 +36,7 @@ type Tree interface {
 // `tree{nil::[tree{item "2"::[tree{item "1"::[]}]} tree{item "3"::[]}]}`
 func TreeFromString(s string) (Tree, map[string]Item, error) {
 	if s == "" {
-		return emptyTree, map[string]Item{}, nil
+		return newTree(nil, nil), map[string]Item{}, nil
 	}
 
 	p, err := grammar.Parse(s)
-- 
2.43.0


From 79117173d19d93eca0ac219ce547d6aa34b04933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:08 +0000
Subject: [PATCH 21/23] fix: the root of a tree read from text holds exactly
 the item written there

---
 pkg/world/tree.go  | 16 +++++++++++++++-
 pkg/world/world.go |  6 +++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index bcfbede..3c942d2 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -53,7 +53,16 @@ func TreeFromString(s string) (Tree, map[string]Item, error) {
 		itemMap[item.Id] = item
 	}
 
+	var rootItem *Item
+	if !hasEmptyRoot(p) {
+		item := itemMap[p.Tree.Id]
+		rootItem = &item
+		delete(itemMap, p.Tree.Id) // Prevent cycles.
+	}
 	t, err := convertNodeToTree(p.Tree, itemMap, nil)
+	if t != nil {
+		t.item = rootItem
+	}
 	return t, itemMap, err
 }
 
@@ -97,8 +106,8 @@ func convertNodeToTree(node grammar.Node, itemMap map[string]Item, parent *tree)
 			return parent, errors.New("Item not found in map").UseCode(errors.TopolithErrorNotFound).WithDescription("Item not found in map").WithData(errors.KvPair{Key: "id", Value: node.Id})
 		}
 		itemPtr = &item
+		delete(itemMap, node.Id) // Prevent cycles.
 	}
-	delete(itemMap, node.Id) // Prevent cycles.
 	t := &tree{
 		item:       itemPtr,
 		components: mapset.NewSet[Tree](),
@@ -263,6 +272,11 @@ func (t *tree) Empty() bool {
 
 // --- INTERNAL HELPERS ---
 
+// hasEmptyRoot returns whether the parsed Tree has no Item at its root.
+func hasEmptyRoot(p *grammar.Parser) bool {
+	return strings.HasPrefix(p.TreeString, "tree{nil")
+}
+
 // adopt makes the given Tree a component of this one, and this one its parent.
 func (t *tree) adopt(component Tree) {
 	t.components.Add(component)
diff --git a/pkg/world/world.go b/pkg/world/world.go
index b07f692..ec1ae7c 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -126,7 +126,11 @@ func FromString(s string) (World, error) {
 		node     grammar.Node
 		parentId string
 	}
-	stack := []queueItem{{p.Tree, ""}}
+	root := p.Tree
+	if hasEmptyRoot(p) {
+		root.Id = "" // Nothing to nest under, even if there is an Item with the same ID as the root Node.
+	}
+	stack := []queueItem{{root, ""}}
 	for len(stack) > 0 {
 		current := stack[len(stack)-1]
 		stack = stack[:len(stack)-1]
-- 
2.43.0


From 85f8c7903d7436fec6de01e1838109bfae6a53c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:08 +0000
Subject: [PATCH 22/23] fix: worlds are saved, listed and loaded under exactly
 their own names

---
 pkg/persistence/main.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkg/persistence/main.go b/pkg/persistence/main.go
index b7b9761..62f3f5e 100644
--- a/pkg/persistence/main.go
+++ b/pkg/persistence/main.go
@@ -1,6 +1,7 @@
 package persistence
 
 import (
+	"github.com/williamflynt/topolith/pkg/errors"
 	"github.com/williamflynt/topolith/pkg/world"
 	"os"
 	"path/filepath"
@@ -44,16 +45,20 @@ func (fp *filePersistence) Save(world world.World) error {
 		return err
 	}
 
-	filePath := filepath.Join(fp.directory, world.Name()+".world")
+	fileName := world.Name() + ".world"
+	if filepath.Base(fileName) != fileName {
+		return errors.New("world name cannot be used as a file name").UseCode(errors.TopolithErrorInvalid).WithData(errors.KvPair{Key: "name", Value: world.Name()})
+	}
+	filePath := filepath.Join(fp.directory, fileName)
 	data := world.String()
 	return os.WriteFile(filePath, []byte(data), 0644)
 }
 
 // Load loads a world from a file.
 func (fp *filePersistence) Load(name string) (world.World, error) {
-	filePath := name
-	if filepath.Ext(name) != ".world" {
-		filePath = filepath.Join(fp.directory, name+".world")
+	filePath := filepath.Join(fp.directory, name+".world")
+	if _, err := os.Stat(filePath); err != nil && filepath.Ext(name) == ".world" {
+		filePath = name
 	}
 	data, err := os.ReadFile(filePath)
 	if err != nil {
@@ -72,7 +77,7 @@ func (fp *filePersistence) ListWorlds() ([]string, error) {
 
 	var worlds []string
 	for _, file := range files {
-		if filepath.Ext(file.Name()) == ".world" {
+		if !file.IsDir() && filepath.Ext(file.Name()) == ".world" {
 			worlds = append(worlds, file.Name()[:len(file.Name())-len(filepath.Ext(file.Name()))])
 		}
 	}
-- 
2.43.0


From f83bef92a59cfc2e918551e0c7750bcdb8802322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:40 +0000
Subject: [PATCH 23/23] fix: RelFromString reports text that names no second
 item instead of panicking

---
 pkg/world/rel.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/world/rel.go b/pkg/world/rel.go
index 4208260..08be6af 100644
--- a/pkg/world/rel.go
+++ b/pkg/world/rel.go
@@ -50,6 +50,9 @@ func RelFromString(w World, s string) (Rel, error) {
 	if !ok {
 		return Rel{}, errors.New("from Item not found").UseCode(errors.TopolithErrorNotFound).WithDescription("FromItem not found").WithData(errors.KvPair{Key: "input", Value: s}, errors.KvPair{Key: "fromId", Value: p.InputAttributes.ResourceId})
 	}
+	if len(p.InputAttributes.SecondaryIds) == 0 {
+		return Rel{}, errors.New("not a Rel").UseCode(errors.TopolithErrorInvalid).WithDescription("not a Rel").WithData(errors.KvPair{Key: "input", Value: s})
+	}
 	toItem, ok := w.ItemFetch(p.InputAttributes.SecondaryIds[0])
 	if !ok {
 		return Rel{}, errors.New("to Item not found").UseCode(errors.TopolithErrorNotFound).WithDescription("ToItem not found").WithData(errors.KvPair{Key: "input", Value: s}, errors.KvPair{Key: "toId", Value: p.InputAttributes.SecondaryIds[0]})
-- 
2.43.0

