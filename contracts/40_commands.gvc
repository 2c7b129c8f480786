package app

def sameWorld(w: *world.world): bool = itemsSame(w) && relsSame(w) && linksSame() && parsSame(w) && (forall x: ref {KK()[x]} :: isold(x) ==> KK()[x] == old(KK()[x]))

// a list answered: every element matches, each once, and all that match are there
def relHit(w: *world.world, k: str, from: str, to: str, strict: bool): bool = k in w.Rels && ite(strict, vals(w.Rels)[k].From.Id == from && vals(w.Rels)[k].To.Id == to, inside(w, vals(w.Rels)[k].From.Id, from) && inside(w, vals(w.Rels)[k].To.Id, to))
def itemsL(w: *world.world, l: StringerList[world.Item]): bool = (forall j: int {l[j]} :: 0 <= j && j < len(l) ==> l[j].Id in w.Items && l[j] == vals(w.Items)[l[j].Id])
   && (forall i: int, j: int {l[i], l[j]} :: 0 <= i && i < len(l) && 0 <= j && j < len(l) && l[i] == l[j] ==> i == j)
def relsL(w: *world.world, l: StringerList[world.Rel]): bool = (forall j: int {l[j]} :: 0 <= j && j < len(l) ==> keyOf(l[j]) in w.Rels && l[j] == vals(w.Rels)[keyOf(l[j])])
   && (forall i: int, j: int {l[i], l[j]} :: 0 <= i && i < len(l) && 0 <= j && j < len(l) && keyOf(l[i]) == keyOf(l[j]) ==> i == j)
def hasItem(l: StringerList[world.Item], k: str): bool = inIt(vals(l), len(l), k)
def hasRel(l: StringerList[world.Rel], k: str): bool = inRl(vals(l), len(l), k)

// ---------------------------------------------------------------- commands that only ask (C12), and what they answer (C13)
func app.(*WorldFetchCommand).Execute
params c w
results r err
requires wf: wf(w)
ensures [C12] same: sameWorld(w)
ensures [C13] answer: err == nil && r == boxref(w)

func app.(*WorldFetchCommand).Undo
params c w
results err
ensures [C12] same: sameWorld(w) && err == nil

func app.(*ItemFetchCommand).Execute
params c w
results r err
requires wf: wf(w)
requires c: c != nil
ensures [C12] same: sameWorld(w)
ensures [C16] answer: r != nil
ensures [C13] answer: c.Id in w.Items ==> err == nil && r == box(world.Item, vals(w.Items)[c.Id])
ensures [C13] missing: !(c.Id in w.Items) ==> err != nil

func app.(*ItemFetchCommand).Undo
params c w
results err
ensures [C12] same: sameWorld(w) && err == nil

func app.(*ItemListCommand).Execute
params c w
results r err
requires wf: wf(w)
requires c: c != nil
ensures [C12] same: sameWorld(w)
ensures [C13] answer: (let l = unbox(StringerList[world.Item], r) in err == nil && istype(StringerList[world.Item], r) && itemsL(w, l) && (c.Limit > 0 ==> len(l) <= c.Limit))
ensures [C13] all: (let l = unbox(StringerList[world.Item], r) in c.Limit <= 0 || len(l) != c.Limit ==> (forall k: str {k in w.Items} :: k in w.Items ==> hasItem(l, k)))

func app.(*ItemListCommand).Undo
params c w
results err
ensures [C12] same: sameWorld(w) && err == nil

func app.(*ItemExistsCommand).Execute
params c w
results r err
requires wf: wf(w)
requires c: c != nil
ensures [C12] same: sameWorld(w)
ensures [C13] answer: err == nil && r == box(BoolStringer, c.Id in w.Items)

func app.(*ItemExistsCommand).Undo
params c w
results err
ensures [C12] same: sameWorld(w) && err == nil

func app.(*ItemComponentsListCommand).Execute
params c w
results r err
requires wf: wf(w)
requires c: c != nil
modifies world.world.latestItem @ w ; world.world.latestRel @ w ; world.world.latestErr @ w
ensures [C12] same: sameWorld(w)
ensures [C16] answer: r != nil
ensures [C13] missing: err == nil <==> c.Id in w.Items
ensures [C13] answer: (let l = unbox(StringerList[world.Item], r) in err == nil ==> istype(StringerList[world.Item], r) && itemsL(w, l) && (forall j: int {l[j]} :: 0 <= j && j < len(l) ==> parId(w, l[j].Id) == c.Id))
ensures [C13] all: (let l = unbox(StringerList[world.Item], r) in err == nil ==> (forall k: str {nd(w,k)} :: k in w.Items && parId(w,k) == c.Id ==> hasItem(l, k)))

func app.(*ItemComponentsListCommand).Undo
params c w
results err
ensures [C12] same: sameWorld(w) && err == nil

func app.(*ItemInQueryCommand).Execute
params c w
results r err
requires wf: wf(w)
requires c: c != nil
requires flags: c.Flags != nil
modifies world.world.latestItem @ w ; world.world.latestRel @ w ; world.world.latestErr @ w
ensures [C12] same: sameWorld(w)
ensures [C13] answer: err == nil && r == box(BoolStringer, ite("strict" in c.Flags, c.Id == c.ParentId && c.Id in w.Items, c.Id in w.Items && c.ParentId in w.Items && in_(nd(w,c.Id), nd(w,c.ParentId))))

func app.(*ItemInQueryCommand).Undo
params c w
results err
ensures [C12] same: sameWorld(w) && err == nil

func app.(*RelFetchCommand).Execute
params c w
results r err
requires wf: wf(w)
requires c: c != nil
requires flags: c.Flags != nil
modifies world.world.latestItem @ w ; world.world.latestRel @ w ; world.world.latestErr @ w
ensures [C12] same: sameWorld(w)
ensures [C16] answer: r != nil
ensures [C13] answer: (let x = unbox(world.Rel, r) in err == nil ==> istype(world.Rel, r) && relHit(w, keyOf(x), c.Id, c.ToId, "strict" in c.Flags) && x == vals(w.Rels)[keyOf(x)])
ensures [C13] missing: err != nil ==> (forall k: str {k in w.Rels} :: !relHit(w, k, c.Id, c.ToId, "strict" in c.Flags))

func app.(*RelFetchCommand).Undo
params c w
results err
ensures [C12] same: sameWorld(w) && err == nil

func app.(*RelListCommand).Execute
params c w
results r err
requires wf: wf(w)
requires c: c != nil
ensures [C12] same: sameWorld(w)
ensures [C13] answer: (let l = unbox(StringerList[world.Rel], r) in err == nil && istype(StringerList[world.Rel], r) && relsL(w, l) && (c.Limit > 0 ==> len(l) <= c.Limit))
ensures [C13] all: (let l = unbox(StringerList[world.Rel], r) in c.Limit <= 0 || len(l) != c.Limit ==> (forall k: str {k in w.Rels} :: k in w.Rels ==> hasRel(l, k)))

func app.(*RelListCommand).Undo
params c w
results err
ensures [C12] same: sameWorld(w) && err == nil

func app.(*RelExistsCommand).Execute
params c w
results r err
requires wf: wf(w)
requires c: c != nil
modifies world.world.latestItem @ w ; world.world.latestRel @ w ; world.world.latestErr @ w
ensures [C12] same: sameWorld(w)
ensures [C13] answer: err == nil && r == box(BoolStringer, relKey(c.Id, c.ToId) in w.Rels)

func app.(*RelExistsCommand).Undo
params c w
results err
ensures [C12] same: sameWorld(w) && err == nil

func app.(*RelToQueryCommand).Execute
params c w
results r err
requires wf: wf(w)
requires c: c != nil
requires flags: c.Flags != nil
ensures [C12] same: sameWorld(w)
ensures [C13] answer: (let l = unbox(StringerList[world.Rel], r) in err == nil && istype(StringerList[world.Rel], r) && relsL(w, l) && (forall j: int {l[j]} :: 0 <= j && j < len(l) ==> ite("strict" in c.Flags, l[j].To.Id == c.Id, inside(w, l[j].To.Id, c.Id))))
ensures [C13] all: (let l = unbox(StringerList[world.Rel], r) in forall k: str {k in w.Rels} :: k in w.Rels && ite("strict" in c.Flags, vals(w.Rels)[k].To.Id == c.Id, inside(w, vals(w.Rels)[k].To.Id, c.Id)) ==> hasRel(l, k))

func app.(*RelToQueryCommand).Undo
params c w
results err
ensures [C12] same: sameWorld(w) && err == nil

func app.(*RelFromQueryCommand).Execute
params c w
results r err
requires wf: wf(w)
requires c: c != nil
requires flags: c.Flags != nil
ensures [C12] same: sameWorld(w)
ensures [C13] answer: (let l = unbox(StringerList[world.Rel], r) in err == nil && istype(StringerList[world.Rel], r) && relsL(w, l) && (forall j: int {l[j]} :: 0 <= j && j < len(l) ==> ite("strict" in c.Flags, l[j].From.Id == c.Id, inside(w, l[j].From.Id, c.Id))))
ensures [C13] all: (let l = unbox(StringerList[world.Rel], r) in forall k: str {k in w.Rels} :: k in w.Rels && ite("strict" in c.Flags, vals(w.Rels)[k].From.Id == c.Id, inside(w, vals(w.Rels)[k].From.Id, c.Id)) ==> hasRel(l, k))

func app.(*RelFromQueryCommand).Undo
params c w
results err
ensures [C12] same: sameWorld(w) && err == nil

// the text of a command is the line it was made from (C11: what the history shows)
func app.(*CommandBase).String
params c
results r
requires c: c != nil
ensures [C11] text: r == c.InputAttributes.Raw

func app.(*WorldFetchCommand).String
params c
results r
requires c: c != nil
ensures [C11] text: r == c.InputAttributes.Raw

func app.(BoolStringer).String
params b
results r
ensures [C13] text: r == ite(b, "true", "false")

func app.(*app).World
params h
results r
requires h: h != nil
ensures [C11] r: r == h.world

func app.(*app).Persistence
params h
results r
requires h: h != nil
ensures [C18] r: r == h.persistence
