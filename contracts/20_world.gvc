package world

// ---------------------------------------------------------------- items and their parameters
def itemIs(p: ref, i: Item): bool =
   p != nil && heap("Item.Id")[p] == i.Id && heap("Item.External")[p] == i.External && heap("Item.Type")[p] == i.Type
   && heap("Item.Name")[p] == i.Name && heap("Item.Mechanism")[p] == i.Mechanism && heap("Item.Expanded")[p] == i.Expanded
def typeOfName(s: str): int = ite(s == "person", 1, ite(s == "database", 2, ite(s == "queue", 3, ite(s == "blobstore", 4, ite(s == "browser", 5,
   ite(s == "mobile", 6, ite(s == "server", 7, ite(s == "device", 8, ite(s == "code", 9, 0)))))))))
def nameOfType(t: int): str = ite(t == 1, "person", ite(t == 2, "database", ite(t == 3, "queue", ite(t == 4, "blobstore", ite(t == 5, "browser",
   ite(t == 6, "mobile", ite(t == 7, "server", ite(t == 8, "device", ite(t == 9, "code", "")))))))))
def knownType(s: str): bool = s == "" || typeOfName(s) != 0 || (atoiOk(s) && 0 <= atoiVal(s) && atoiVal(s) <= 9)
def typeFrom(s: str): int = ite(typeOfName(s) != 0, typeOfName(s), ite(s == "", 0, atoiVal(s)))
def knownParams(p: ItemParams): bool = p.Type == nil || knownType(*p.Type)
def typeOk(t: int): bool = 0 <= t && t <= 9
def applyItem(i: Item, p: ItemParams): Item =
   setf(setf(setf(setf(setf(i, Name, ite(p.Name != nil, *p.Name, i.Name)),
     Expanded, ite(p.Expanded != nil, *p.Expanded, i.Expanded)),
     External, ite(p.External != nil, *p.External, i.External)),
     Type, ite(p.Type != nil, typeFrom(*p.Type), i.Type)),
     Mechanism, ite(p.Mechanism != nil, *p.Mechanism, i.Mechanism))
def differsItem(i: Item, p: ItemParams): bool =
   (p.Name != nil && *p.Name != i.Name) || (p.Expanded != nil && *p.Expanded != i.Expanded) || (p.External != nil && *p.External != i.External)
   || (p.Type != nil && !(knownType(*p.Type) && typeFrom(*p.Type) == i.Type)) || (p.Mechanism != nil && *p.Mechanism != i.Mechanism)

func world.ItemTypeFromString
params s
results r
ensures [C20] t: r == typeOfName(s)

func world.StringFromItemType
params t
results r
ensures [C20] n: r == nameOfType(t)

func world.parseItemType
tags C20
params s
results t err
ensures known: err == nil <==> knownType(s)
ensures value: err == nil ==> t == typeFrom(s)

func world.sameItemType
tags C20
params existing s
results r
ensures same: r <==> knownType(s) && typeFrom(s) == existing

func world.itemSet
tags C05
params item params
results r err
ensures ok: err == nil <==> old(knownParams(params))
ensures applied: err == nil ==> r == old(applyItem(item, params))

func world.equalItemParams
params existing params
results err
ensures differs: err != nil <==> old(differsItem(existing, params))

// ---------------------------------------------------------------- well-formed worlds
def RT(w: *world): ref = ref(w.Tree)
def nd(w: *world, id: str): ref = node(RT(w), id)
def parId(w: *world, id: str): str = KK()[EE()[nd(w,id)]]
fun relKey(a: str, b: str): str
fun relKeyFrom(k: str): str
fun relKeyTo(k: str): str
axiom relKey_inj [obligation]: forall a: str, b: str {relKey(a,b)} :: relKeyFrom(relKey(a,b)) == a && relKeyTo(relKey(a,b)) == b
// forest: the tree holds exactly the items
def wfTree(w: *world): bool = w != nil && wft(RT(w)) && !("" in w.Items)
   && (forall id: str {id in w.Items} {nd(w,id)} :: id in w.Items ==> id != "" && in_(nd(w,id), RT(w)) && KK()[nd(w,id)] == id)
   && (forall n: ref {in_(n,RT(w))} :: in_(n,RT(w)) && n != RT(w) ==> KK()[n] in w.Items)
// items: keys, types and the copies in the tree are right
def wfItems(w: *world): bool =
   (forall id: str {vals(w.Items)[id]} {id in w.Items} {nd(w,id)} :: id in w.Items ==> vals(w.Items)[id].Id == id && typeOk(vals(w.Items)[id].Type) && itemIs(II()[nd(w,id)], vals(w.Items)[id]))
// relationships: keyed by their ends, which exist and are current
def wfRels(w: *world): bool =
   (forall k: str {k in w.Rels} {vals(w.Rels)[k]} :: k in w.Rels ==> k == relKey(vals(w.Rels)[k].From.Id, vals(w.Rels)[k].To.Id)
      && vals(w.Rels)[k].From.Id in w.Items && vals(w.Rels)[k].To.Id in w.Items
      && vals(w.Rels)[k].From == vals(w.Items)[vals(w.Rels)[k].From.Id] && vals(w.Rels)[k].To == vals(w.Items)[vals(w.Rels)[k].To.Id])
def wf(w: *world): bool = wfTree(w) && wfItems(w) && wfRels(w)
   && w.Items != nil && w.Rels != nil

def itemsSame(w: *world): bool = dom(w.Items) == old(dom(w.Items)) && (forall id: str {vals(w.Items)[id]} :: id in w.Items ==> vals(w.Items)[id] == old(vals(w.Items)[id]))
def relsSame(w: *world): bool = dom(w.Rels) == old(dom(w.Rels)) && (forall k: str {vals(w.Rels)[k]} :: k in w.Rels ==> vals(w.Rels)[k] == old(vals(w.Rels)[k]))
def linksSame(): bool = forall x: ref {EE()[x]} :: EE()[x] == old(EE()[x])
def parsSame(w: *world): bool = forall id: str {nd(w,id)} :: id in w.Items ==> parId(w,id) == old(parId(w,id))

// the links after pointing c to p
fun mv(F: array(ref,ref), c: ref, p: ref): array(ref,ref)
lemma Mv(F: array(ref,ref), c: ref, p: ref) [defn]: mv(F,c,p) == upd(F,c,p)
axiom mv_same [lean]: forall F: array(ref,ref), c: ref, p: ref {mv(F,c,p)} :: p == F[c] ==> mv(F,c,p) == F
axiom mv_back [lean]: forall F: array(ref,ref), c: ref, p: ref, v: ref {mv(mv(F,c,p),c,v)} :: v == F[c] ==> mv(mv(F,c,p),c,v) == F

// within is under, by a name the solver does not unfold unless told to
fun within(E: array(ref,ref), x: ref, y: ref): bool
lemma Within(E: array(ref,ref)) [defn]: forall x: ref, y: ref {within(E,x,y)} :: within(E,x,y) <==> under(E,x,y)

func world.(*world).ItemFetch
params w id
results r ok
requires w: w != nil
ensures [C05,C07] ok: ok <==> id in w.Items
ensures [C05,C07] item: ok ==> r == vals(w.Items)[id]
ensures [C07] none: !ok ==> r == zero(Item)

func world.(*world).Nest
params w child parent
results r
let R = RT(w)
let c = nd(w,child)
let p = nd(w,parent)
requires wf: wf(w)
use pre: Acyclic(EE(), R)
use pre: TopUnfold(EE(), c)
use pre: Kids(EE(), c)
use pre: Within(EE())
use pre: Mv(EE(), c, p)
use moved: w.latestErr == nil && child != parent ==> Move(old(EE()), EE(), c, p)
use Within(EE())
modifies set:Tree ; tree.parent ; world.latestItem @ w ; world.latestRel @ w ; world.latestErr @ w
ensures ret: r == w
ensures [C02,C09] refused: old(!(child in w.Items) || !(parent in w.Items) || (child != parent && in_(p, c))) <==> w.latestErr != nil
ensures [C02,C09] same: w.latestErr != nil || child == parent ==> linksSame() && parsSame(w)
ensures [C10] room: old(child in w.Items && parent in w.Items && !within(EE(), p, c)) ==> w.latestErr == nil
ensures [C02,C09] nearby: old(child in w.Items && parent in w.Items && (parId(w,child) == parent || parId(w,child) == parId(w,parent))) ==> w.latestErr == nil
ensures [C14] leaf: old(child in w.Items && parent in w.Items && (forall id: str {nd(w,id)} :: id in w.Items ==> parId(w,id) != child)) ==> w.latestErr == nil
ensures [C02] links: w.latestErr == nil && child != parent ==> (forall x: ref {EE()[x]} :: EE()[x] == ite(x == c, p, old(EE()[x])))
ensures [C10] upd: EE() == ite(w.latestErr == nil && child != parent, mv(old(EE()), c, p), old(EE()))
ensures [C10] back: w.latestErr == nil ==> !within(EE(), old(EE()[c]), c)
ensures [C13] above: old(parent in w.Items) ==> (forall x: ref {in_(p,x)} {old(in_(p,x))} :: in_(p,x) <==> old(in_(p,x)))
ensures [C02] pars: w.latestErr == nil && child != parent ==> (forall id: str {nd(w,id)} :: id in w.Items ==> parId(w,id) == ite(id == child, parent, old(parId(w,id))))
ensures nodes: forall id: str {nd(w,id)} :: id in w.Items ==> nd(w,id) == old(nd(w,id))
ensures [C01] forest: wfTree(w)
ensures [C05,C20] items: wfItems(w)
ensures [C04,C05] rels: wfRels(w)
ensures maps: w.Items != nil && w.Rels != nil

func world.relIdFromIds
tags C04
params a b
results r
injective relKey

func world.(*world).resetLatestTrackers
params w
requires w: w != nil
modifies world.latestItem @ w ; world.latestRel @ w ; world.latestErr @ w
ensures err: w.latestErr == nil
ensures fresh: isnew(w.latestItem) && isnew(w.latestRel) && itemIs(w.latestItem, zero(Item)) && *w.latestRel == zero(Rel)

func world.(*world).Free
params w child
results r
let R = RT(w)
let c = nd(w,child)
requires wf: wf(w)
use pre: Acyclic(EE(), R)
use pre: Within(EE())
use pre: Mv(EE(), c, R)
use moved: w.latestErr == nil ==> Move(old(EE()), EE(), c, R)
use Within(EE())
modifies set:Tree @ CC()[R], CC()[PP()[c]] ; tree.parent @ c ; world.latestItem @ w ; world.latestRel @ w ; world.latestErr @ w
ensures ret: r == w
ensures [C02,C09] refused: !(child in w.Items) <==> w.latestErr != nil
ensures [C02,C09] same: w.latestErr != nil ==> linksSame() && parsSame(w)
ensures [C02] links: w.latestErr == nil ==> (forall x: ref {EE()[x]} :: EE()[x] == ite(x == c, R, old(EE()[x])))
ensures [C10] upd: EE() == ite(w.latestErr == nil, mv(old(EE()), c, R), old(EE()))
ensures [C10] back: w.latestErr == nil ==> !within(EE(), old(EE()[c]), c)
ensures [C02] pars: w.latestErr == nil ==> (forall id: str {nd(w,id)} :: id in w.Items ==> parId(w,id) == ite(id == child, "", old(parId(w,id))))
ensures nodes: forall id: str {nd(w,id)} :: id in w.Items ==> nd(w,id) == old(nd(w,id))
ensures [C05] item: w.latestErr == nil ==> itemIs(w.latestItem, vals(w.Items)[child])
ensures [C01] forest: wfTree(w)
ensures [C05,C20] items: wfItems(w)
ensures [C04,C05] rels: wfRels(w)
ensures maps: w.Items != nil && w.Rels != nil

func world.(*world).ItemCreate
params w id params
results r
let R = RT(w)
let p = params
let i = setf(zero(Item), Id, id)
requires wf: wf(w)
use pre: Acyclic(EE(), R)
use pre: Old(EE(), now())
use pre: New(EE(), now())
use moved: w.latestErr == nil && !old(id in w.Items) ==> Move(old(EE()), EE(), nd(w,id), R)
modifies set:Tree @ CC()[R] ; tree.parent @ nil ; world.latestItem @ w ; world.latestRel @ w ; world.latestErr @ w ; mapdom:map[string]Item @ w.Items ; mapval:map[string]Item @ w.Items
ensures ret: r == w
ensures [C05,C09] noid: id == "" ==> w.latestErr != nil && itemsSame(w) && linksSame()
ensures [C05,C09] exists: old(id in w.Items) ==> itemsSame(w) && linksSame() && itemIs(w.latestItem, vals(w.Items)[id]) && (w.latestErr != nil <==> old(differsItem(vals(w.Items)[id], p)))
ensures [C05,C09,C20] badtype: id != "" && !old(id in w.Items) && !old(knownParams(p)) ==> w.latestErr != nil && itemsSame(w) && linksSame()
ensures [C05] created: id != "" && !old(id in w.Items) && old(knownParams(p)) ==> w.latestErr == nil && dom(w.Items) == upd(old(dom(w.Items)), id, true)
   && vals(w.Items) == upd(old(vals(w.Items)), id, old(applyItem(i, p))) && itemIs(w.latestItem, old(applyItem(i, p))) && isnew(nd(w,id))
   && (forall x: ref {EE()[x]} :: EE()[x] == ite(x == nd(w,id), R, old(EE()[x])))
ensures leaf: !old(id in w.Items) && w.latestErr == nil ==> forall x: ref {in_(x,nd(w,id))} :: in_(x,nd(w,id)) ==> x == nd(w,id)
ensures nodes: forall x: str {nd(w,x)} :: old(x in w.Items) ==> nd(w,x) == old(nd(w,x))
ensures [C02] pars: forall x: str {nd(w,x)} :: x in w.Items ==> parId(w,x) == ite(old(x in w.Items), old(parId(w,x)), "")
ensures [C01] forest: wfTree(w)
ensures [C05,C20] items: wfItems(w)
ensures [C04,C05] rels: wfRels(w)
ensures maps: w.Items != nil && w.Rels != nil

func world.(*world).ItemSet
params w id params
results r
let p = params
let R = RT(w)
requires wf: wf(w)
modifies world.latestItem @ w ; world.latestRel @ w ; world.latestErr @ w ; mapdom:map[string]Item @ w.Items ; mapval:map[string]Item @ w.Items ; mapdom:map[string]Rel @ w.Rels ; mapval:map[string]Rel @ w.Rels ; tree.item @ nd(w,id)
inv (m: map[string]Rel, visited: array(str,bool)) dom(w.Rels) == old(dom(w.Rels))
inv (m: map[string]Rel, visited: array(str,bool)) forall k: str {vals(w.Rels)[k]} :: vals(w.Rels)[k] == ite(visited[k], setf(setf(old(vals(w.Rels)[k]), From, ite(old(vals(w.Rels)[k].From.Id) == id, vals(w.Items)[id], old(vals(w.Rels)[k].From))), To, ite(old(vals(w.Rels)[k].To.Id) == id, vals(w.Items)[id], old(vals(w.Rels)[k].To))), old(vals(w.Rels)[k]))
ensures ret: r == w
ensures [C05,C09,C20] missing: !(id in w.Items) || !old(knownParams(p)) <==> w.latestErr != nil
ensures [C05,C09] refused: w.latestErr != nil ==> itemsSame(w) && relsSame(w)
ensures [C05] set: w.latestErr == nil ==> dom(w.Items) == old(dom(w.Items)) && vals(w.Items) == upd(old(vals(w.Items)), id, old(applyItem(vals(w.Items)[id], p))) && itemIs(w.latestItem, vals(w.Items)[id])
ensures [C05,C06] rels: dom(w.Rels) == old(dom(w.Rels)) && (forall k: str {vals(w.Rels)[k]} :: k in w.Rels ==> vals(w.Rels)[k] == setf(setf(old(vals(w.Rels)[k]), From, vals(w.Items)[old(vals(w.Rels)[k].From.Id)]), To, vals(w.Items)[old(vals(w.Rels)[k].To.Id)]))
ensures nodes: forall x: str {nd(w,x)} :: x in w.Items ==> nd(w,x) == old(nd(w,x))
ensures [C02,C05] pars: parsSame(w)
ensures [C02] links: linksSame()
ensures [C01] forest: wfTree(w)
ensures [C05,C20] items: wfItems(w)
ensures [C04,C05] rels: wfRels(w)
ensures maps: w.Items != nil && w.Rels != nil

func world.(*world).ItemDelete
params w id
results r
let R = RT(w)
let d = nd(w,id)
let p = EE()[d]
requires wf: wf(w)
use pre: Acyclic(EE(), R)
use pre: StepUp(EE(), d)
use spliced: old(id in w.Items) ==> Splice(old(EE()), EE(), d, R)
modifies set:Tree ; tree.parent ; world.latestItem @ w ; world.latestRel @ w ; world.latestErr @ w ; mapdom:map[string]Item @ w.Items ; mapdom:map[string]Rel @ w.Rels
inv (m: map[string]Rel, visited: array(str,bool)) forall k: str {k in w.Rels} :: k in w.Rels <==> old(k in w.Rels) && !(visited[k] && (old(vals(w.Rels)[k].From.Id) == id || old(vals(w.Rels)[k].To.Id) == id))
// the relationships to remove collected first, and removed afterwards
inv (m: map[string]Rel, visited: array(str,bool), st: []string) forall k: str {visited[k]} :: visited[k] && (vals(w.Rels)[k].From.Id == id || vals(w.Rels)[k].To.Id == id) ==> mem(k, st)
inv (m: map[string]Rel, visited: array(str,bool), st: []string) forall j: int {st[j]} :: 0 <= j && j < len(st) ==> vals(w.Rels)[st[j]].From.Id == id || vals(w.Rels)[st[j]].To.Id == id
inv (m: map[string]Rel, visited: array(str,bool), st: []string) isnew(arr(st)) && len(st) >= 0
inv (seq: []string, idx: int) forall k: str {k in w.Rels} :: k in w.Rels <==> old(k in w.Rels) && !inSl(vals(seq), idx, k)
ensures ret: r == w
ensures [C03,C09] err: w.latestErr != nil <==> id == ""
ensures [C03] items: dom(w.Items) == upd(old(dom(w.Items)), id, false)
ensures [C03,C09] absent: !old(id in w.Items) ==> linksSame() && dom(w.Rels) == old(dom(w.Rels))
ensures [C03] links: old(id in w.Items) ==> (forall x: ref {EE()[x]} :: EE()[x] == ite(x == d, nil, ite(old(EE()[x]) == d, p, old(EE()[x]))))
ensures [C03] rels: forall k: str {k in w.Rels} :: k in w.Rels <==> old(k in w.Rels) && old(vals(w.Rels)[k].From.Id) != id && old(vals(w.Rels)[k].To.Id) != id
ensures nodes: forall x: str {nd(w,x)} :: x in w.Items ==> nd(w,x) == old(nd(w,x))
ensures [C03] pars: forall x: str {nd(w,x)} :: x in w.Items ==> parId(w,x) == ite(old(id in w.Items) && old(parId(w,x)) == id, old(parId(w,id)), old(parId(w,x)))
ensures [C01] forest: wfTree(w)
ensures [C05,C20] items: wfItems(w)
ensures [C04,C05] rels: wfRels(w)
ensures maps: w.Items != nil && w.Rels != nil

def relIs(p: ref, r: Rel): bool = p != nil && heap("Rel.From")[p] == r.From && heap("Rel.To")[p] == r.To && heap("Rel.Verb")[p] == r.Verb && heap("Rel.Mechanism")[p] == r.Mechanism && heap("Rel.Async")[p] == r.Async && heap("Rel.Expanded")[p] == r.Expanded
def applyRel(i: Rel, p: RelParams): Rel =
   setf(setf(setf(setf(i, Verb, ite(p.Verb != nil, *p.Verb, i.Verb)),
     Mechanism, ite(p.Mechanism != nil, *p.Mechanism, i.Mechanism)),
     Async, ite(p.Async != nil, *p.Async, i.Async)),
     Expanded, ite(p.Expanded != nil, *p.Expanded, i.Expanded))
def differsRel(i: Rel, p: RelParams): bool =
   (p.Verb != nil && *p.Verb != i.Verb) || (p.Mechanism != nil && *p.Mechanism != i.Mechanism) || (p.Async != nil && *p.Async != i.Async) || (p.Expanded != nil && *p.Expanded != i.Expanded)

func world.relSet
params rel params
results r err
ensures applied: err == nil && r == old(applyRel(rel, params))

func world.equalRelParams
params existing params
results err
ensures differs: err != nil <==> old(differsRel(existing, params))

func world.(*world).RelCreate
params w from to params
results r
let p = params
let k = relKey(from, to)
let fresh = setf(setf(zero(Rel), From, vals(w.Items)[from]), To, vals(w.Items)[to])
requires wf: wf(w)
modifies world.latestItem @ w ; world.latestRel @ w ; world.latestErr @ w ; mapdom:map[string]Rel @ w.Rels ; mapval:map[string]Rel @ w.Rels
ensures ret: r == w
ensures [C06,C09] missing: !(from in w.Items) || !(to in w.Items) ==> w.latestErr != nil && relsSame(w)
ensures [C06,C09] exists: from in w.Items && to in w.Items && old(k in w.Rels) ==> relsSame(w) && relIs(w.latestRel, vals(w.Rels)[k]) && (w.latestErr != nil <==> old(differsRel(vals(w.Rels)[k], p)))
ensures [C04,C06] created: from in w.Items && to in w.Items && !old(k in w.Rels) ==> w.latestErr == nil && dom(w.Rels) == upd(old(dom(w.Rels)), k, true)
   && vals(w.Rels) == upd(old(vals(w.Rels)), k, old(applyRel(fresh, p))) && relIs(w.latestRel, vals(w.Rels)[k])
ensures [C01] forest: wfTree(w)
ensures [C05,C20] items: wfItems(w)
ensures [C04,C05] rels: wfRels(w)
ensures maps: w.Items != nil && w.Rels != nil

func world.(*world).RelSet
params w from to params
results r
let p = params
let k = relKey(from, to)
requires wf: wf(w)
modifies world.latestItem @ w ; world.latestRel @ w ; world.latestErr @ w ; mapdom:map[string]Rel @ w.Rels ; mapval:map[string]Rel @ w.Rels
ensures ret: r == w
ensures [C06,C09] missing: w.latestErr != nil <==> !old(k in w.Rels)
ensures [C06,C09] unchanged: !old(k in w.Rels) ==> relsSame(w)
ensures [C04,C06] set: old(k in w.Rels) ==> dom(w.Rels) == old(dom(w.Rels)) && vals(w.Rels) == upd(old(vals(w.Rels)), k, old(applyRel(vals(w.Rels)[k], p))) && relIs(w.latestRel, vals(w.Rels)[k])
ensures [C01] forest: wfTree(w)
ensures [C05,C20] items: wfItems(w)
ensures [C04,C05] rels: wfRels(w)
ensures maps: w.Items != nil && w.Rels != nil

func world.(*world).RelDelete
params w from to
results r
let k = relKey(from, to)
requires wf: wf(w)
modifies world.latestItem @ w ; world.latestRel @ w ; world.latestErr @ w ; mapdom:map[string]Rel @ w.Rels
ensures ret: r == w
ensures [C06] err: w.latestErr == nil
ensures [C04,C06] deleted: dom(w.Rels) == upd(old(dom(w.Rels)), k, false)
ensures [C01] forest: wfTree(w)
ensures [C05,C20] items: wfItems(w)
ensures [C04,C05] rels: wfRels(w)
ensures maps: w.Items != nil && w.Rels != nil
