package world

// ---------------------------------------------------------------- forests
// under(E,x,y): x reaches y by following E (reflexive, transitive), never through nil.
fun under(E: array(ref,ref), x: ref, y: ref): bool
fun tw(E: array(ref,ref), x: ref, y: ref): ref
fun rootOf(E: array(ref,ref), x: ref): ref
// effective parent: the parent pointer counts only if the parent lists the node as a component
fun EP(P: array(ref,ref), C: array(ref,ref), S: array(ref,array(ref,bool))): array(ref,ref)
fun KEYS(I: array(ref,ref), D: array(ref,str)): array(ref,str)
fun nodeOf(E: array(ref,ref), K: array(ref,str), r: ref, id: str): ref
fun ownerOf(E: array(ref,ref), C: array(ref,ref), r: ref, s: ref): ref

axiom EP_def [defn]: forall P: array(ref,ref), C: array(ref,ref), S: array(ref,array(ref,bool)), n: ref {EP(P,C,S)[n]} ::
   EP(P,C,S)[n] == ite(P[n] != nil && S[C[P[n]]][n], P[n], nil)
axiom KEYS_def [defn]: forall I: array(ref,ref), D: array(ref,str), n: ref {KEYS(I,D)[n]} ::
   KEYS(I,D)[n] == ite(I[n] == nil, "", D[I[n]])

axiom under_refl [lean]: forall E: array(ref,ref), x: ref {under(E,x,x)} :: x != nil ==> under(E,x,x)
axiom under_nn [lean]: forall E: array(ref,ref), x: ref, y: ref {under(E,x,y)} :: under(E,x,y) ==> x != nil && y != nil
axiom under_trans [lean]: forall E: array(ref,ref), x: ref, y: ref, z: ref {under(E,x,y), under(E,y,z)} :: under(E,x,y) && under(E,y,z) ==> under(E,x,z)
axiom under_step [lean]: forall E: array(ref,ref), x: ref, y: ref {under(E,x,y), E[x]} ::
   under(E,x,y) ==> x == y || (E[x] != nil && under(E,E[x],y))
axiom under_up [lean]: forall E: array(ref,ref), x: ref, y: ref {under(E,x,y), E[x]} :: x != nil && E[x] != nil && under(E,E[x],y) ==> under(E,x,y)
axiom root_eq [lean]: forall E: array(ref,ref), x: ref, y: ref {under(E,x,y), rootOf(E,x)} :: under(E,x,y) ==> rootOf(E,x) == rootOf(E,y)
axiom root_top [lean]: forall E: array(ref,ref), x: ref {rootOf(E,x)} :: x != nil && E[x] == nil ==> rootOf(E,x) == x
axiom nodeOf_ax [lean]: forall E: array(ref,ref), K: array(ref,str), r: ref, n: ref {nodeOf(E,K,r,K[n])} ::
   under(E,n,r) ==> under(E,nodeOf(E,K,r,K[n]),r) && K[nodeOf(E,K,r,K[n])] == K[n]
axiom ownerOf_ax [lean]: forall E: array(ref,ref), C: array(ref,ref), r: ref, n: ref {ownerOf(E,C,r,C[n])} ::
   under(E,n,r) ==> under(E,ownerOf(E,C,r,C[n]),r) && C[ownerOf(E,C,r,C[n])] == C[n]

// the nodes strictly below t are below one of its direct components
lemma TopUnfold(E: array(ref,ref), t: ref) [lean]: forall x: ref {under(E,x,t)} ::
   under(E,x,t) && x != t ==> E[tw(E,x,t)] == t && under(E,x,tw(E,x,t)) && tw(E,x,t) != nil
lemma Kids(E: array(ref,ref), t: ref) [lean]: forall x: ref {E[x]} :: x != nil && t != nil && E[x] == t ==> under(E,x,t)
lemma StepUp(E: array(ref,ref), x: ref) [lean]: x != nil && E[x] != nil ==> under(E,x,E[x])
lemma Linear(E: array(ref,ref), y: ref, z: ref) [lean]: forall x: ref {under(E,x,y), under(E,x,z)} ::
   under(E,x,y) && under(E,x,z) ==> under(E,y,z) || under(E,z,y)
lemma Acyclic(E: array(ref,ref), r: ref) [lean]: E[r] == nil ==>
   (forall x: ref, y: ref {under(E,x,y), under(E,y,x)} :: under(E,x,r) && under(E,x,y) && under(E,y,x) ==> x == y)
   && (forall x: ref {under(E,x,r), E[x]} :: under(E,x,r) && E[x] != nil ==> !under(E,E[x],x) && E[x] != x)
// what an old node reaches is old, when every link leads to something old
lemma Old(E: array(ref,ref), N: int) [lean]: (forall z: ref {E[z]} :: birth(E[z]) < N) ==>
   (forall x: ref, y: ref {under(E,x,y)} :: under(E,x,y) && birth(x) < N ==> birth(y) < N)
lemma New(E: array(ref,ref), N: int) [lean]: (forall z: ref {E[z]} :: birth(z) >= N ==> E[z] == nil) ==>
   (forall x: ref, y: ref {under(E,x,y)} :: under(E,x,y) && birth(x) >= N ==> x == y)
// moving c below p
lemma Move(E: array(ref,ref), F: array(ref,ref), c: ref, p: ref) [lean]:
   (forall x: ref {F[x]} :: F[x] == ite(x == c, p, E[x])) && c != nil && p != nil && !under(E,p,c) && (E[c] == nil || !under(E,E[c],c)) ==>
   (forall x: ref, y: ref {under(F,x,y)} {under(E,x,y)} :: under(F,x,y) <==> ite(under(E,x,c), (under(E,x,y) && under(E,y,c)) || under(E,p,y), under(E,x,y)))

def PP(): array(ref,ref) = heap("tree.parent")
def CC(): array(ref,ref) = heap("tree.components")
def II(): array(ref,ref) = heap("tree.item")
def SS(): array(ref,array(ref,bool)) = heap("set:Tree")
def EE(): array(ref,ref) = EP(PP(), CC(), SS())
def KK(): array(ref,str) = KEYS(II(), heap("Item.Id"))
def in_(x: ref, y: ref): bool = under(EE(), x, y)
def node(r: ref, id: str): ref = nodeOf(EE(), KK(), r, id)
def has(r: ref, id: str): bool = id != "" && in_(node(r,id), r) && KK()[node(r,id)] == id

def wft(r: ref): bool =
   r != nil && PP()[r] == nil && II()[r] == nil
   && (forall n: ref {in_(n,r)} :: in_(n,r) ==> CC()[n] != nil && (n != r ==> II()[n] != nil && KK()[n] != ""))
   && (forall n: ref, c: ref {in_(n,r), SS()[CC()[n]][c]} :: in_(n,r) && SS()[CC()[n]][c] ==> c != nil && PP()[c] == n && EE()[c] == n)
   && (forall n: ref {in_(n,r)} :: in_(n,r) ==> ownerOf(EE(),CC(),r,CC()[n]) == n)
   && (forall n: ref {in_(n,r)} :: in_(n,r) ==> nodeOf(EE(),KK(),r,KK()[n]) == n)
def inTree(t: ref): bool = let r = rootOf(EE(),t) in wft(r) && in_(t,r)

func world.(*tree).Item
params t
results r
requires t: t != nil
ensures none: t.item == nil ==> r == zero(Item)
ensures some: t.item != nil ==> r == *t.item

func world.(*tree).Components
params t
results r
requires t: t != nil
ensures same: r == t.components

func world.(*tree).Parent
params t
results r
requires t: t != nil
ensures p: t.parent != nil ==> r == t.parent
ensures e: t.parent == nil ==> r == emptyTree

func world.(*tree).Root
params t
results r
requires t: inTree(t)
use pre: StepUp(EE(), t)
inv (x: *tree) inTree(x) && rootOf(EE(), x) == rootOf(EE(), t)
hint (x: *tree) StepUp(EE(), x)
ensures root: r == rootOf(EE(), t)

func world.(*tree).Has
params t id strict
results r
requires t: inTree(t)
use pre: TopUnfold(EE(), t)
use pre: Kids(EE(), t)
inv (seq: []Tree, idx: int) forall i: int {seq[i]} :: 0 <= i && i < idx ==> (forall n: ref {in_(n, ref(seq[i]))} :: in_(n, ref(seq[i])) ==> KK()[n] != id)
inv (ts: []Tree, k: int) forall i: int {ts[i]} :: k < i && i < len(ts) ==> (forall n: ref {in_(n, ref(ts[i]))} :: in_(n, ref(ts[i])) ==> KK()[n] != id)
ensures strict: strict ==> (r <==> id != "" && KK()[t] == id)
ensures found: !strict && r ==> id != "" && (exists n: ref :: in_(n,t) && KK()[n] == id)
ensures absent: !strict && !r && id != "" ==> (forall n: ref {in_(n,t)} :: in_(n,t) ==> KK()[n] != id)

func world.(*tree).Find
params t id
results r ok
requires t: inTree(t)
use pre: TopUnfold(EE(), t)
use pre: Kids(EE(), t)
inv (seq: []Tree, idx: int) forall i: int {seq[i]} :: 0 <= i && i < idx ==> (forall n: ref {in_(n, ref(seq[i]))} :: in_(n, ref(seq[i])) ==> KK()[n] != id)
inv (ts: []Tree, k: int) forall i: int {ts[i]} :: k < i && i < len(ts) ==> (forall n: ref {in_(n, ref(ts[i]))} :: in_(n, ref(ts[i])) ==> KK()[n] != id)
ensures found: ok ==> id != "" && in_(r,t) && KK()[r] == id
ensures absent: !ok && id != "" ==> (forall n: ref {in_(n,t)} :: in_(n,t) ==> KK()[n] != id)

// ---------------------------------------------------------------- sequences of strings as sets
fun inSl(A: array(int,str), n: int, s: str): bool
fun ixSl(A: array(int,str), n: int, s: str): int
axiom inSl_elim [lean]: forall A: array(int,str), n: int, s: str {inSl(A,n,s)} :: inSl(A,n,s) ==> 0 <= ixSl(A,n,s) && ixSl(A,n,s) < n && A[ixSl(A,n,s)] == s
axiom inSl_intro [lean]: forall A: array(int,str), n: int, s: str, k: int {inSl(A,n,s), A[k]} :: 0 <= k && k < n && A[k] == s ==> inSl(A,n,s)
axiom inSl_ext [lean]: forall A: array(int,str), n: int, B: array(int,str), m: int, s: str {inSl(A,n,s), inSl(B,m,s)} :: inSl(A,n,s) && n <= m && B[ixSl(A,n,s)] == A[ixSl(A,n,s)] ==> inSl(B,m,s)
def mem(s: str, sl: []string): bool = inSl(vals(sl), len(sl), s)

func world.(*tree).GetDescendantIds
params t id
results r
let R = rootOf(EE(),t)
let f = node(R, id)
let here = id != "" && in_(f, t) && KK()[f] == id
requires t: inTree(t)
use pre: Acyclic(EE(), R)
use pre: TopUnfold(EE(), f)
use pre: Kids(EE(), f)
inv (seq: []Tree, idx: int, acc: []string) len(acc) >= 0
inv (seq: []Tree, idx: int, acc: []string) isnew(arr(acc))
inv (seq: []Tree, idx: int, acc: []string) forall j: int {acc[j]} :: 0 <= j && j < len(acc) ==> in_(node(R,acc[j]), f) && node(R,acc[j]) != f && KK()[node(R,acc[j])] == acc[j]
inv (seq: []Tree, idx: int, acc: []string) forall i: int, n: ref {seq[i], in_(n, ref(seq[i]))} :: 0 <= i && i < idx && in_(n, ref(seq[i])) ==> mem(KK()[n], acc)
ensures fresh: isnew(arr(r))
ensures none: !here ==> len(r) == 0
ensures sound: here ==> (forall j: int {r[j]} :: 0 <= j && j < len(r) ==> in_(node(R,r[j]), f) && node(R,r[j]) != f && KK()[node(R,r[j])] == r[j])
ensures complete: here ==> (forall n: ref {in_(n,f)} :: in_(n,f) && n != f ==> mem(KK()[n], r))

lemma Splice(E: array(ref,ref), F: array(ref,ref), d: ref, r: ref) [lean]:
   (forall x: ref {F[x]} :: F[x] == ite(x == d, nil, ite(E[x] == d, E[d], E[x]))) && d != nil && under(E,d,r) && E[r] == nil && d != r ==>
   (forall x: ref, y: ref {under(F,x,y)} {under(E,x,y)} :: x != d && y != d ==> (under(F,x,y) <==> under(E,x,y)))
   && (forall x: ref {under(F,x,d)} {under(F,d,x)} :: (under(F,x,d) || under(F,d,x)) ==> x == d)

func world.(*tree).AddOrMove
params t item
results err
let R = rootOf(EE(),t)
let id = item.Id
let c0 = node(R, id)
requires t: inTree(t)
requires item: item != nil ==> item.Id != ""
use pre: Acyclic(EE(), R)
use pre: StepUp(EE(), c0)
use pre: Old(EE(), now())
use pre: New(EE(), now())
assert keys: forall n: ref {KK()[n]} :: isold(n) ==> KK()[n] == old(KK()[n])
assert comps: forall n: ref {CC()[n]} :: isold(n) ==> CC()[n] == old(CC()[n])
use moved: old(has(R,id)) ==> Move(old(EE()), EE(), c0, ref(t))
use added: !old(has(R,id)) ==> (forall c: ref {birth(c)} :: isnew(c) && EE()[c] == t ==> Move(old(EE()), EE(), c, ref(t)))
assert fresh: !old(has(R,id)) && item != nil ==> (forall c: ref {birth(c)} :: isnew(c) && EE()[c] == t ==> KK()[c] == id && II()[c] == item && in_(c,R))
assert newlink: !old(has(R,id)) && item != nil ==> (exists c: ref {birth(c)} :: isnew(c) && EE()[c] == t)
modifies set:Tree @ t.components, ite(has(R,id), CC()[PP()[c0]], t.components) ; tree.parent @ ite(has(R,id), c0, nil)
ensures keys: forall n: ref {KK()[n]} :: isold(n) ==> KK()[n] == old(KK()[n])
ensures nonew: forall x: ref {in_(x,R)} :: in_(x,R) && isnew(x) ==> item != nil && !old(has(R,id)) && x == node(R,id)
ensures nilitem: item == nil ==> err != nil
ensures refused: err != nil ==> forall x: ref {EE()[x]} :: isold(x) ==> EE()[x] == old(EE()[x])
ensures self: item != nil && old(KK()[t]) == id ==> err == nil && (forall x: ref {EE()[x]} :: EE()[x] == old(EE()[x]))
ensures inside: item != nil && old(KK()[t]) != id && old(has(R,id) && in_(t,c0)) ==> err != nil && (forall x: ref {EE()[x]} :: EE()[x] == old(EE()[x]))
ensures moved: item != nil && old(KK()[t]) != id && old(has(R,id) && !in_(t,c0)) ==> err == nil && (forall x: ref {EE()[x]} :: EE()[x] == ite(x == c0, ref(t), old(EE()[x])))
ensures added: item != nil && !old(has(R,id)) ==> err == nil && (let c = node(R,id) in isnew(c) && in_(c,R) && II()[c] == item && KK()[c] == id && (forall x: ref {EE()[x]} :: EE()[x] == ite(x == c, ref(t), old(EE()[x]))))
ensures wf: wft(R)

func world.(*tree).Delete
params t id
let R = rootOf(EE(),t)
let d = node(R, id)
let p = EE()[d]
let here = id != "" && in_(d, t) && KK()[d] == id
requires t: inTree(t)
use pre: Acyclic(EE(), R)
use pre: StepUp(EE(), d)
use pre: Kids(EE(), d)
inv (seq: []Tree, idx: int) forall i: int {seq[i]} :: 0 <= i && i < idx ==> PP()[seq[i]] == p && SS()[CC()[p]][seq[i]]
inv (seq: []Tree, idx: int) forall x: ref {PP()[x]} :: PP()[x] == old(PP()[x]) || (PP()[x] == p && old(SS()[CC()[d]][x]))
inv (seq: []Tree, idx: int) forall x: ref {SS()[CC()[p]][x]} :: (old(SS()[CC()[p]][x]) && x != d ==> SS()[CC()[p]][x]) && (SS()[CC()[p]][x] ==> (old(SS()[CC()[p]][x]) && x != d) || (old(SS()[CC()[d]][x]) && PP()[x] == p))
use spliced: here ==> Splice(old(EE()), EE(), d, R)
modifies set:Tree @ CC()[p] ; tree.parent
ensures absent: !here ==> (forall x: ref {EE()[x]} :: EE()[x] == old(EE()[x]))
ensures spliced: here ==> (forall x: ref {EE()[x]} :: EE()[x] == ite(x == d, nil, ite(old(EE()[x]) == d, p, old(EE()[x]))))
ensures wf: wft(R)
