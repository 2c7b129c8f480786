package world

// ---------------------------------------------------------------- sequences of items and relationships, by id and by key
fun inIt(A: array(int,Item), n: int, s: str): bool
fun ixIt(A: array(int,Item), n: int, s: str): int
axiom inIt_elim [lean]: forall A: array(int,Item), n: int, s: str {inIt(A,n,s)} :: inIt(A,n,s) ==> 0 <= ixIt(A,n,s) && ixIt(A,n,s) < n && A[ixIt(A,n,s)].Id == s
axiom inIt_intro [lean]: forall A: array(int,Item), n: int, s: str, k: int {inIt(A,n,s), A[k]} :: 0 <= k && k < n && A[k].Id == s ==> inIt(A,n,s)
axiom inIt_ext [lean]: forall A: array(int,Item), n: int, B: array(int,Item), m: int, s: str {inIt(A,n,s), inIt(B,m,s)} :: inIt(A,n,s) && n <= m && B[ixIt(A,n,s)].Id == A[ixIt(A,n,s)].Id ==> inIt(B,m,s)
def memIt(s: str, sl: []Item): bool = inIt(vals(sl), len(sl), s)
def keyOf(x: Rel): str = relKey(x.From.Id, x.To.Id)
fun inRl(A: array(int,Rel), n: int, s: str): bool
fun ixRl(A: array(int,Rel), n: int, s: str): int
axiom inRl_elim [lean]: forall A: array(int,Rel), n: int, s: str {inRl(A,n,s)} :: inRl(A,n,s) ==> 0 <= ixRl(A,n,s) && ixRl(A,n,s) < n && keyOf(A[ixRl(A,n,s)]) == s
axiom inRl_intro [lean]: forall A: array(int,Rel), n: int, s: str, k: int {inRl(A,n,s), A[k]} :: 0 <= k && k < n && keyOf(A[k]) == s ==> inRl(A,n,s)
axiom inRl_ext [lean]: forall A: array(int,Rel), n: int, B: array(int,Rel), m: int, s: str {inRl(A,n,s), inRl(B,m,s)} :: inRl(A,n,s) && n <= m && keyOf(B[ixRl(A,n,s)]) == keyOf(A[ixRl(A,n,s)]) ==> inRl(B,m,s)
// a list that has every member of a set exactly once is as long as the set is large
lemma CountSl(A: array(int,str), n: int, D: array(str,bool)) [lean]: n >= 0 && (forall j: int {A[j]} :: 0 <= j && j < n ==> D[A[j]])
   && (forall i: int, j: int {A[i], A[j]} :: 0 <= i && i < n && 0 <= j && j < n && A[i] == A[j] ==> i == j)
   && (forall k: str {D[k]} :: D[k] ==> inSl(A,n,k)) ==> n == card(D)
lemma CountIt(A: array(int,Item), n: int, D: array(str,bool)) [lean]: n >= 0 && (forall j: int {A[j]} :: 0 <= j && j < n ==> D[A[j].Id])
   && (forall i: int, j: int {A[i], A[j]} :: 0 <= i && i < n && 0 <= j && j < n && A[i].Id == A[j].Id ==> i == j)
   && (forall k: str {D[k]} :: D[k] ==> inIt(A,n,k)) ==> n == card(D)
lemma CountRl(A: array(int,Rel), n: int, D: array(str,bool)) [lean]: n >= 0 && (forall j: int {A[j]} :: 0 <= j && j < n ==> D[keyOf(A[j])])
   && (forall i: int, j: int {A[i], A[j]} :: 0 <= i && i < n && 0 <= j && j < n && keyOf(A[i]) == keyOf(A[j]) ==> i == j)
   && (forall k: str {D[k]} :: D[k] ==> inRl(A,n,k)) ==> n == card(D)
// the ids of the items directly in an item
fun kidsOf(D: array(str,bool), E: array(ref,ref), K: array(ref,str), r: ref, id: str): array(str,bool)
axiom kidsOf_def [defn]: forall D: array(str,bool), E: array(ref,ref), K: array(ref,str), r: ref, id: str, x: str {kidsOf(D,E,K,r,id)[x]} :: kidsOf(D,E,K,r,id)[x] <==> D[x] && K[E[nodeOf(E,K,r,x)]] == id
def kids(w: *world, id: str): array(str,bool) = kidsOf(dom(w.Items), EE(), KK(), RT(w), id)

def memRl(s: str, sl: []Rel): bool = inRl(vals(sl), len(sl), s)

func world.(*world).Err
params w
results r
requires w: w != nil
ensures [C07] err: r == w.latestErr

func world.(*world).Item
params w
results r err
requires w: w != nil
ensures [C05] item: w.latestItem != nil ==> itemIs(w.latestItem, r)
ensures [C05] err: err == w.latestErr

func world.(*world).Rel
params w
results r err
requires w: w != nil
ensures [C06] rel: w.latestRel != nil ==> relIs(w.latestRel, r)
ensures [C06] err: err == w.latestErr

func world.(*world).In
params w child parent strict
results r
requires wf: wf(w)
modifies world.latestItem @ w ; world.latestRel @ w ; world.latestErr @ w
ensures [C07] strict: strict ==> (r <==> child == parent && child in w.Items)
ensures [C07] inside: !strict ==> (r <==> child in w.Items && parent in w.Items && in_(nd(w,child), nd(w,parent)))

func world.(*world).Parent
params w id
results r ok
requires wf: wf(w)
use pre: StepUp(EE(), nd(w,id))
use pre: Acyclic(EE(), RT(w))
modifies world.latestItem @ w ; world.latestRel @ w ; world.latestErr @ w
ensures [C01,C07] ok: ok <==> id in w.Items
ensures [C01,C07] parent: ok ==> r == parId(w,id)
ensures [C01] other: ok ==> id != "" && r != id && (r == "" || r in w.Items)
ensures [C01] link: ok ==> EE()[nd(w,id)] == ite(r == "", RT(w), nd(w,r))
ensures [C01,C07] none: !ok ==> r == ""

func world.(*world).ItemParent
params w id
results r ok
requires wf: wf(w)
use pre: StepUp(EE(), nd(w,id))
modifies world.latestItem @ w ; world.latestRel @ w ; world.latestErr @ w
ensures [C05,C07] ok: ok <==> id in w.Items
ensures [C05,C07] parent: ok && parId(w,id) != "" ==> parId(w,id) in w.Items && r == vals(w.Items)[parId(w,id)]
ensures [C05,C07] top: ok && parId(w,id) == "" ==> r == zero(Item)
ensures [C05,C07] none: !ok ==> r == zero(Item)

func world.(*world).Components
params w id
results r ok
let n = nd(w,id)
requires wf: wf(w)
use pre: Kids(EE(), n)
modifies world.latestItem @ w ; world.latestRel @ w ; world.latestErr @ w
use CountSl(vals(r), len(r), kids(w,id))
inv (seq: []Tree, idx: int, acc: []string) forall j: int {acc[j]} {seq[j]} :: 0 <= j && j < idx ==> acc[j] == KK()[seq[j]]
inv (seq: []Tree, idx: int, acc: []string) len(acc) == idx
ensures [C01,C07] ok: ok <==> id in w.Items
ensures [C01,C07] none: !ok ==> len(r) == 0
ensures [C01,C07] sound: ok ==> (forall j: int {r[j]} :: 0 <= j && j < len(r) ==> r[j] in w.Items && parId(w,r[j]) == id)
ensures [C01,C07] distinct: forall i: int, j: int {r[i], r[j]} :: 0 <= i && i < len(r) && 0 <= j && j < len(r) && r[i] == r[j] ==> i == j
ensures [C01,C07] complete: ok ==> (forall x: str {nd(w,x)} :: x in w.Items && parId(w,x) == id ==> mem(x, r))
ensures [C07,C15] size: ok ==> len(r) == card(kids(w,id))
ensures [C15] own: isnew(arr(r)) || len(r) == 0

func world.(*world).ItemComponents
params w id
results r ok
let n = nd(w,id)
requires wf: wf(w)
use pre: Kids(EE(), n)
modifies world.latestItem @ w ; world.latestRel @ w ; world.latestErr @ w
inv (seq: []Tree, idx: int, acc: []Item) forall j: int {acc[j]} {seq[j]} :: 0 <= j && j < idx ==> itemIs(II()[seq[j]], acc[j])
inv (seq: []Tree, idx: int, acc: []Item) len(acc) == idx
ensures [C05,C07] ok: ok <==> id in w.Items
ensures [C05,C07] none: !ok ==> len(r) == 0
ensures [C05,C07] sound: ok ==> (forall j: int {r[j]} :: 0 <= j && j < len(r) ==> r[j].Id in w.Items && r[j] == vals(w.Items)[r[j].Id] && parId(w,r[j].Id) == id)
ensures [C05,C07] distinct: forall i: int, j: int {r[i], r[j]} :: 0 <= i && i < len(r) && 0 <= j && j < len(r) && r[i] == r[j] ==> i == j
ensures [C05,C07] complete: ok ==> (forall x: str {nd(w,x)} :: x in w.Items && parId(w,x) == id ==> memIt(x, r))

func world.(*world).ItemList
params w limit
results r
requires wf: wf(w)
use CountIt(vals(r), len(r), dom(w.Items))
inv (m: map[string]Item, visited: array(str,bool), acc: []Item) forall j: int {acc[j]} :: 0 <= j && j < len(acc) ==> visited[acc[j].Id] && acc[j].Id in w.Items && acc[j] == vals(w.Items)[acc[j].Id]
inv (m: map[string]Item, visited: array(str,bool), acc: []Item) forall i: int, j: int {acc[i], acc[j]} :: 0 <= i && i < len(acc) && 0 <= j && j < len(acc) && acc[i].Id == acc[j].Id ==> i == j
inv (m: map[string]Item, visited: array(str,bool), acc: []Item) forall k: str {visited[k]} :: visited[k] ==> memIt(k, acc)
inv (m: map[string]Item, visited: array(str,bool), acc: []Item) limit > 0 ==> len(acc) <= limit
inv (m: map[string]Item, visited: array(str,bool), acc: []Item) limit > 0 ==> len(acc) < limit
ensures [C05,C07] sound: forall j: int {r[j]} :: 0 <= j && j < len(r) ==> r[j].Id in w.Items && r[j] == vals(w.Items)[r[j].Id]
ensures [C05,C07] distinct: forall i: int, j: int {r[i], r[j]} :: 0 <= i && i < len(r) && 0 <= j && j < len(r) && r[i].Id == r[j].Id ==> i == j
ensures [C05,C07] limit: limit > 0 ==> len(r) <= limit
ensures [C05,C07] complete: limit <= 0 || len(r) != limit ==> (forall k: str {k in w.Items} :: k in w.Items ==> memIt(k, r))
ensures [C07,C15] size: limit <= 0 ==> len(r) == card(dom(w.Items))
ensures [C15] own: isnew(arr(r)) || len(r) == 0

func world.(*world).RelList
params w limit
results r
requires wf: wf(w)
use CountRl(vals(r), len(r), dom(w.Rels))
inv (m: map[string]Rel, visited: array(str,bool), acc: []Rel) forall j: int {acc[j]} :: 0 <= j && j < len(acc) ==> visited[keyOf(acc[j])] && keyOf(acc[j]) in w.Rels && acc[j] == vals(w.Rels)[keyOf(acc[j])]
inv (m: map[string]Rel, visited: array(str,bool), acc: []Rel) forall i: int, j: int {acc[i], acc[j]} :: 0 <= i && i < len(acc) && 0 <= j && j < len(acc) && keyOf(acc[i]) == keyOf(acc[j]) ==> i == j
inv (m: map[string]Rel, visited: array(str,bool), acc: []Rel) forall k: str {visited[k]} :: visited[k] ==> memRl(k, acc)
inv (m: map[string]Rel, visited: array(str,bool), acc: []Rel) limit > 0 ==> len(acc) <= limit
inv (m: map[string]Rel, visited: array(str,bool), acc: []Rel) limit > 0 ==> len(acc) < limit
ensures [C04,C08] sound: forall j: int {r[j]} :: 0 <= j && j < len(r) ==> keyOf(r[j]) in w.Rels && r[j] == vals(w.Rels)[keyOf(r[j])]
ensures [C04,C08] distinct: forall i: int, j: int {r[i], r[j]} :: 0 <= i && i < len(r) && 0 <= j && j < len(r) && keyOf(r[i]) == keyOf(r[j]) ==> i == j
ensures [C04,C08] limit: limit > 0 ==> len(r) <= limit
ensures [C04,C08] complete: limit <= 0 || len(r) != limit ==> (forall k: str {k in w.Rels} :: k in w.Rels ==> memRl(k, r))
ensures [C07,C15] size: limit <= 0 ==> len(r) == card(dom(w.Rels))
ensures [C15] own: isnew(arr(r)) || len(r) == 0

def inside(w: *world, a: str, b: str): bool = a == b || (a in w.Items && b in w.Items && in_(nd(w,a), nd(w,b)))

func world.(*world).RelFetch
params w from to strict
results r
requires wf: wf(w)
modifies world.latestItem @ w ; world.latestRel @ w ; world.latestErr @ w
inv (m: map[string]Rel, visited: array(str,bool), acc: []Rel) forall j: int {acc[j]} :: 0 <= j && j < len(acc) ==> visited[keyOf(acc[j])] && keyOf(acc[j]) in w.Rels && acc[j] == vals(w.Rels)[keyOf(acc[j])] && inside(w, acc[j].From.Id, from) && inside(w, acc[j].To.Id, to)
inv (m: map[string]Rel, visited: array(str,bool), acc: []Rel) forall i: int, j: int {acc[i], acc[j]} :: 0 <= i && i < len(acc) && 0 <= j && j < len(acc) && keyOf(acc[i]) == keyOf(acc[j]) ==> i == j
inv (m: map[string]Rel, ids: []string) forall s: str {nd(w,s)} :: inside(w, s, from) ==> mem(s, ids)
inv (m: map[string]Rel, ids: []string) forall s: str {nd(w,s)} :: inside(w, s, to) ==> mem(s, ids)
inv (m: map[string]Rel, visited: array(str,bool), acc: []Rel) forall k: str {visited[k]} :: visited[k] && inside(w, vals(w.Rels)[k].From.Id, from) && inside(w, vals(w.Rels)[k].To.Id, to) ==> memRl(k, acc)
ensures [C08] sound: forall j: int {r[j]} :: 0 <= j && j < len(r) ==> keyOf(r[j]) in w.Rels && r[j] == vals(w.Rels)[keyOf(r[j])] && ite(strict, r[j].From.Id == from && r[j].To.Id == to, inside(w, r[j].From.Id, from) && inside(w, r[j].To.Id, to))
ensures [C08] distinct: forall i: int, j: int {r[i], r[j]} :: 0 <= i && i < len(r) && 0 <= j && j < len(r) && keyOf(r[i]) == keyOf(r[j]) ==> i == j
assert one: strict && relKey(from,to) in w.Rels ==> keyOf(r[0]) == relKey(from,to) && memRl(relKey(from,to), r)
assert hit: strict && len(r) > 0 ==> keyOf(r[0]) in w.Rels && keyOf(r[0]) == relKey(from,to)
ensures [C08,C13] none: strict && !(relKey(from,to) in w.Rels) ==> len(r) == 0
ensures [C08] completeStrict: strict ==> (forall k: str {k in w.Rels} :: k in w.Rels && vals(w.Rels)[k].From.Id == from && vals(w.Rels)[k].To.Id == to ==> memRl(k, r))
ensures [C08] complete: !strict ==> (forall k: str {k in w.Rels} :: k in w.Rels && inside(w, vals(w.Rels)[k].From.Id, from) && inside(w, vals(w.Rels)[k].To.Id, to) ==> memRl(k, r))

func world.(*world).RelTo
params w to strict
results r
requires wf: wf(w)
inv (m: map[string]Rel, visited: array(str,bool), acc: []Rel) forall j: int {acc[j]} :: 0 <= j && j < len(acc) ==> visited[keyOf(acc[j])] && keyOf(acc[j]) in w.Rels && acc[j] == vals(w.Rels)[keyOf(acc[j])] && ite(strict, acc[j].To.Id == to, inside(w, acc[j].To.Id, to))
inv (m: map[string]Rel, visited: array(str,bool), acc: []Rel) forall i: int, j: int {acc[i], acc[j]} :: 0 <= i && i < len(acc) && 0 <= j && j < len(acc) && keyOf(acc[i]) == keyOf(acc[j]) ==> i == j
inv (m: map[string]Rel, visited: array(str,bool), acc: []Rel) forall k: str {visited[k]} :: visited[k] && ite(strict, vals(w.Rels)[k].To.Id == to, inside(w, vals(w.Rels)[k].To.Id, to)) ==> memRl(k, acc)
ensures [C08] sound: forall j: int {r[j]} :: 0 <= j && j < len(r) ==> keyOf(r[j]) in w.Rels && r[j] == vals(w.Rels)[keyOf(r[j])] && ite(strict, r[j].To.Id == to, inside(w, r[j].To.Id, to))
ensures [C08] distinct: forall i: int, j: int {r[i], r[j]} :: 0 <= i && i < len(r) && 0 <= j && j < len(r) && keyOf(r[i]) == keyOf(r[j]) ==> i == j
ensures [C08] complete: forall k: str {k in w.Rels} :: k in w.Rels && ite(strict, vals(w.Rels)[k].To.Id == to, inside(w, vals(w.Rels)[k].To.Id, to)) ==> memRl(k, r)

func world.(*world).RelFrom
params w from strict
results r
requires wf: wf(w)
inv (m: map[string]Rel, visited: array(str,bool), acc: []Rel) forall j: int {acc[j]} :: 0 <= j && j < len(acc) ==> visited[keyOf(acc[j])] && keyOf(acc[j]) in w.Rels && acc[j] == vals(w.Rels)[keyOf(acc[j])] && ite(strict, acc[j].From.Id == from, inside(w, acc[j].From.Id, from))
inv (m: map[string]Rel, visited: array(str,bool), acc: []Rel) forall i: int, j: int {acc[i], acc[j]} :: 0 <= i && i < len(acc) && 0 <= j && j < len(acc) && keyOf(acc[i]) == keyOf(acc[j]) ==> i == j
inv (m: map[string]Rel, visited: array(str,bool), acc: []Rel) forall k: str {visited[k]} :: visited[k] && ite(strict, vals(w.Rels)[k].From.Id == from, inside(w, vals(w.Rels)[k].From.Id, from)) ==> memRl(k, acc)
ensures [C08] sound: forall j: int {r[j]} :: 0 <= j && j < len(r) ==> keyOf(r[j]) in w.Rels && r[j] == vals(w.Rels)[keyOf(r[j])] && ite(strict, r[j].From.Id == from, inside(w, r[j].From.Id, from))
ensures [C08] distinct: forall i: int, j: int {r[i], r[j]} :: 0 <= i && i < len(r) && 0 <= j && j < len(r) && keyOf(r[i]) == keyOf(r[j]) ==> i == j
ensures [C08] complete: forall k: str {k in w.Rels} :: k in w.Rels && ite(strict, vals(w.Rels)[k].From.Id == from, inside(w, vals(w.Rels)[k].From.Id, from)) ==> memRl(k, r)

func world.CreateWorld
params name
results r
use TopUnfold(EE(), RT(r))
assert alone: forall x: ref {in_(x,RT(r))} :: in_(x,RT(r)) ==> x == RT(r)
assert self: in_(RT(r),RT(r)) && KK()[RT(r)] == ""
assert node: nodeOf(EE(),KK(),RT(r),KK()[RT(r)]) == RT(r)
assert owner: ownerOf(EE(),CC(),RT(r),CC()[RT(r)]) == RT(r)
ensures [C01] forest: wfTree(r)
ensures [C04,C05] rest: wfItems(r) && wfRels(r) && r.Items != nil && r.Rels != nil && isnew(r)
ensures [C01,C04,C05] empty: (forall id: str {id in r.Items} :: !(id in r.Items)) && (forall k: str {k in r.Rels} :: !(k in r.Rels))
ensures [C01,C04,C05] info: r.Version_ == 1 && r.Id_ == name && r.Name_ == name && r.Expanded_ == ""
