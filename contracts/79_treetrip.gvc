package world

// ---------------------------------------------------------------- a tree read from its text (C14)
// links of old nodes are as they were; what they reach is as it was
lemma Agree(E: array(ref,ref), F: array(ref,ref), N: int) [lean]: (forall z: ref {F[z]} {E[z]} :: birth(z) < N ==> F[z] == E[z] && birth(E[z]) < N) ==>
   (forall x: ref, y: ref {under(F,x,y)} {under(E,x,y)} :: birth(x) < N ==> (under(F,x,y) <==> under(E,x,y)))
// new nodes only lead to new ones
lemma Stay(F: array(ref,ref), N: int) [lean]: (forall z: ref {F[z]} :: birth(z) >= N && F[z] != nil ==> birth(F[z]) >= N) ==>
   (forall x: ref, y: ref {under(F,x,y)} :: under(F,x,y) && birth(x) >= N ==> birth(y) >= N)
lemma Named(E: array(ref,ref), K: array(ref,str), r: ref) [lean]: forall n: ref, id: str {nodeOf(E,K,r,id), under(E,n,r)} :: under(E,n,r) && K[n] == id ==> under(E,nodeOf(E,K,r,id),r) && K[nodeOf(E,K,r,id)] == id
lemma KidsAll(T: str, H: array(ref,array(int,grammar.Node)), id: str, ch: []grammar.Node) [grammar]: isTree(T) && isKids(T,H,id,ch) ==> forall x: str {stw(tU(T),x,id)} :: tHas(T,x) && bel(T,x,id) && x != id ==>
   (let i = kidIx(T,H,id,ch,stw(tU(T),x,id)) in 0 <= i && i < len(ch) && sUnder(tU(T),x,H[arr(ch)][i].Id))

def inner(T: str, id: str, x: str): bool = tHas(T,x) && bel(T,x,id) && x != id
def pos(T: str, id: str, ch: []grammar.Node, x: str): int = kidIx(T,HN(),id,ch,stw(tU(T),x,id))
// the nodes strictly below r are those of the ids below the first k of ch
def nodesAre(T: str, id: str, r: ref, ch: []grammar.Node, k: int): bool =
   forall n: ref {in_(n,r)} :: in_(n,r) && n != r ==> (let x = KK()[n] in inner(T,id,x) && pos(T,id,ch,x) < k && II()[n] != nil && itemAt(n) == readItem(tIt(T,x)) && tUp(T,x) == ite(EE()[n] == r, id, KK()[EE()[n]]))
def nodesOnce(r: ref): bool = forall n: ref, m: ref {in_(n,r), in_(m,r)} :: in_(n,r) && in_(m,r) && n != r && m != r && KK()[n] == KK()[m] ==> n == m
def nodesAll(T: str, id: str, r: ref, ch: []grammar.Node, k: int): bool =
   forall x: str {tHas(T,x)} :: inner(T,id,x) && pos(T,id,ch,x) < k ==> in_(node(r,x),r) && KK()[node(r,x)] == x && node(r,x) != r

func world.convertNodeToTree
params nd m parent
results r err
vars T: str, id: str
trigger isKids(T,HN(),id,nd.Children)
let kids = isTree(T) && isKids(T,HN(),id,nd.Children) && ite(parent == nil, id == tRoot(T), id == nd.Id && id != "" && tHas(T,id))
let ok = kids && (forall x: str {tHas(T,x)} :: tHas(T,x) && bel(T,x,id) && (parent == nil ==> x != id) ==> x in m && vals(m)[x] == readItem(tIt(T,x)) && pId(tIt(T,x)) == x)
requires map: m != nil
modifies mapdom:map[string]Item @ m
use pre: KidsAll(T, HN(), id, nd.Children)
onlink set:Tree Move(old(EE()), EE(), elem, PP()[elem])
onlink set:Tree StepUp(EE(), elem)
onlink set:Tree Named(EE(), KK(), PP()[elem])
hint (t: *tree) TopUnfold(EE(), ref(t))
hint (t: *tree) New(EE(), now())
hint (t: *tree) Old(EE(), now())
use agree: Agree(old(EE()), EE(), old(now()))
use stay: Stay(EE(), old(now()))
inv (t: *tree) isnew(t) && EE()[t] == nil && PP()[t] == parent && CC()[t] != nil
inv (t: *tree) ok ==> KK()[t] == ite(parent == nil, "", id) && (parent != nil ==> II()[t] != nil && itemAt(t) == readItem(tIt(T,id)))
inv (t: *tree) forall n: ref {EE()[n]} :: isnew(n) && EE()[n] != nil ==> isnew(EE()[n])
inv (t: *tree) forall n: ref {EE()[n]} :: isold(n) ==> EE()[n] == old(EE()[n])
inv (t: *tree) forall n: ref {in_(n,t)} :: in_(n,t) ==> isnew(n)
inv [C14] (t: *tree, seq: []grammar.Node, idx: int) ok ==> (forall x: str {x in m} {tHas(T,x)} :: x in m <==> old(x in m) && !(tHas(T,x) && bel(T,x,id) && ite(x == id, parent != nil, pos(T,id,seq,x) < idx)))
inv [C14] (t: *tree, seq: []grammar.Node, idx: int) ok ==> nodesAre(T, id, ref(t), seq, idx)
inv [C14] (t: *tree, seq: []grammar.Node, idx: int) ok ==> nodesOnce(ref(t))
inv [C14] (t: *tree, seq: []grammar.Node, idx: int) ok ==> nodesAll(T, id, ref(t), seq, idx)
ensures new: err == nil ==> r != nil && isnew(r) && PP()[r] == parent && EE()[r] == nil
ensures newTop: parent == nil ==> r != nil && isnew(r)
ensures links: forall n: ref {EE()[n]} :: isold(n) ==> EE()[n] == old(EE()[n])
ensures newlinks: forall n: ref {EE()[n]} :: isnew(n) && EE()[n] != nil ==> isnew(EE()[n])
ensures under: forall x: ref, y: ref {in_(x,y)} {old(in_(x,y))} :: isold(x) ==> (in_(x,y) <==> old(in_(x,y)))
ensures news: forall x: ref, y: ref {in_(x,y)} :: in_(x,y) && isnew(x) ==> isnew(y)
ensures own: err == nil ==> (forall n: ref {in_(n,r)} :: in_(n,r) ==> isnew(n))
ensures [C14] read: ok ==> err == nil
ensures [C14] head: ok ==> KK()[r] == ite(parent == nil, "", id) && (parent != nil ==> II()[r] != nil && itemAt(r) == readItem(tIt(T,id)))
ensures [C14] are: ok ==> nodesAre(T, id, ref(r), nd.Children, len(nd.Children))
ensures [C14] once: ok ==> nodesOnce(ref(r))
ensures [C14] all: ok ==> (forall x: str {node(r,x)} {tHas(T,x)} :: inner(T,id,x) ==> in_(node(r,x),r) && KK()[node(r,x)] == x && node(r,x) != r)
ensures [C14] taken: ok ==> (forall x: str {x in m} {tHas(T,x)} :: x in m <==> old(x in m) && !(tHas(T,x) && bel(T,x,id) && (x == id ==> parent != nil)))

// ---------------------------------------------------------------- reading the text of a tree (C14)
// everything in the text of a tree with an item at its top is below that item
axiom textTop [grammar]: forall T: str, x: str {isTree(T), tHas(T,x)} :: isTree(T) && tHas(T,x) && tRoot(T) != "" ==> sUnder(tU(T),x,tRoot(T))
axiom treeText_ok [grammar]: forall T: str {isTree(T)} :: isTree(T) ==> accepts(T) && T != ""
def wellTree(T: str): bool = isTree(T)
   && (forall x: str {tHas(T,x)} :: tHas(T,x) ==> isItemText(tIt(T,x)) && accepts(tIt(T,x)) && pId(tIt(T,x)) == x && (pHas(tIt(T,x),"type") ==> knownType(pVal(tIt(T,x),"type"))))
   && (tRoot(T) != "" ==> tHas(T,tRoot(T)))
// the nodes at and below r are those of the text T
def headIs(T: str, r: ref): bool = KK()[r] == tRoot(T) && (II()[r] == nil <==> tRoot(T) == "") && (II()[r] != nil ==> itemAt(r) == readItem(tIt(T,tRoot(T))))
def belowIs(T: str, r: ref): bool = forall n: ref {in_(n,r)} :: in_(n,r) && n != r ==> II()[n] != nil && tHas(T,KK()[n]) && itemAt(n) == readItem(tIt(T,KK()[n])) && tUp(T,KK()[n]) == KK()[EE()[n]]
def allIs(T: str, r: ref): bool = forall x: str {node(r,x)} {tHas(T,x)} :: tHas(T,x) ==> in_(node(r,x),r) && KK()[node(r,x)] == x
def treeIs(T: str, r: ref): bool = headIs(T,r) && belowIs(T,r) && allIs(T,r) && (forall n: ref, m: ref {in_(n,r), in_(m,r)} :: in_(n,r) && in_(m,r) && KK()[n] == KK()[m] ==> n == m)

func world.TreeFromString
params s
results r m err
let ok = wellTree(s)
onlink tree.item Named(EE(), KK(), elem)
inv [C14] (im: map[string]Item, seq: []string, idx: int) ok ==> (forall x: str {x in im} {tHas(s,x)} :: (x in im <==> tHas(s,x) && itIx(s,x) < idx) && (x in im ==> vals(im)[x] == readItem(tIt(s,x))))
assert [C14] head: ok ==> headIs(s, ref(r))
assert [C14] below: ok ==> belowIs(s, ref(r))
assert [C14] all: ok ==> allIs(s, ref(r))
ensures [C14] read: ok ==> err == nil && r != nil
ensures [C14] tree: ok ==> treeIs(s, ref(r))

// a tree written as text and read back has the same items, one inside the other as before (C14)
scenario world.treeRoundTrip
vars t: *tree
let R = rootOf(EE(),t)
requires wf: inTree(t)
requires rep: forall n: ref {in_(n,t)} :: in_(n,t) && II()[n] != nil ==> repItem(itemAt(n))
exec s := world.(*tree).String (t)
assert [C14] some: s != ""
assert [C14] well: wellTree(s)
exec r, m, err := world.TreeFromString (s)
ensures [C14] read: err == nil && r != nil
ensures [C14] top: KK()[r] == KK()[t] && (II()[r] == nil <==> II()[t] == nil) && (II()[t] != nil ==> itemAt(ref(r)) == old(itemAt(ref(t))))
ensures [C14] nodes: forall n: ref {in_(n,ref(r))} :: in_(n,ref(r)) && n != r ==> (let x = KK()[n] in let o = old(node(R,x)) in old(in_(o,t)) && old(KK()[o]) == x && o != t && itemAt(n) == old(itemAt(o)) && KK()[EE()[n]] == old(KK()[EE()[o]]))
ensures [C14] none: forall o: ref {old(in_(o,t))} :: old(in_(o,t)) ==> in_(node(ref(r),old(KK()[o])),ref(r)) && KK()[node(ref(r),old(KK()[o]))] == old(KK()[o])
ensures [C14] once: forall n: ref, k: ref {in_(n,ref(r)), in_(k,ref(r))} :: in_(n,ref(r)) && in_(k,ref(r)) && KK()[n] == KK()[k] ==> n == k
