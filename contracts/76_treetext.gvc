package world

// ---------------------------------------------------------------- the text of a tree (C14)
// isTree(T): T is the text of a tree whose ids differ; tRoot: the id at its top ("" for none); tHas: the ids in it;
// tIt: the text of an item in it; tUp: the id of the item directly around it ("" for none)
fun isTree(T: str): bool
fun tRoot(T: str): str
fun tHas(T: str, x: str): bool
fun tIt(T: str, x: str): str
fun tUp(T: str, x: str): str
fun tIx(T: str, x: str): int
// kidsOk(A,n): the first n texts of A are trees with items at the top that share no id
fun kidsOk(A: array(int,str), n: int): bool
axiom kidsOk_def [defn]: forall A: array(int,str), n: int {kidsOk(A,n)} :: kidsOk(A,n) <==>
   (forall j: int {A[j]} :: 0 <= j && j < n ==> isTree(A[j]) && tRoot(A[j]) != "" && tHas(A[j],tRoot(A[j])))
   && (forall i: int, j: int, x: str {tHas(A[i],x), tHas(A[j],x)} :: 0 <= i && i < n && 0 <= j && j < n && tHas(A[i],x) && tHas(A[j],x) ==> i == j)
// kidsHave(A,n,x): x is in one of them
def treeShape(T: str, h: str, A: array(int,str), n: int): bool =
   isTree(T) && tRoot(T) == ite(h == "nil", "", pId(h))
   && (h != "nil" ==> tHas(T,pId(h)) && tIt(T,pId(h)) == h && tUp(T,pId(h)) == "")
   && (forall x: str {tHas(T,x)} :: tHas(T,x) ==> x != "" && ((h != "nil" && x == pId(h)) || (0 <= tIx(T,x) && tIx(T,x) < n && tHas(A[tIx(T,x)],x))))
   && (forall j: int, x: str {tHas(A[j],x)} :: 0 <= j && j < n && tHas(A[j],x) ==> tHas(T,x) && tIt(T,x) == tIt(A[j],x) && tUp(T,x) == ite(x == tRoot(A[j]), tRoot(T), tUp(A[j],x)))
def headOk(h: str, A: array(int,str), n: int): bool = h == "nil" || (isItemText(h) && pId(h) != "" && (forall j: int {A[j]} :: 0 <= j && j < n ==> !tHas(A[j],pId(h))))

axiom tree_none [grammar]: forall h: str {"tree{" + h + "::[]}"} :: (let T = "tree{" + h + "::[]}" in h != "nil" && isItemText(h) && pId(h) != "" ==> isTree(T) && tRoot(T) == pId(h) && tIt(T,pId(h)) == h && tUp(T,pId(h)) == "" && (forall x: str {tHas(T,x)} :: tHas(T,x) <==> x == pId(h)))
axiom tree_nil [grammar]: (let T = "tree{nil::[]}" in isTree(T) && tRoot(T) == "" && (forall x: str {tHas(T,x)} :: !tHas(T,x)))
axiom tree_some [grammar]: forall h: str, A: array(int,str), n: int {"tree{" + h + "::[" + joinS(A,n," ") + "]}"} :: n >= 0 && headOk(h,A,n) && kidsOk(A,n) ==> treeShape("tree{" + h + "::[" + joinS(A,n," ") + "]}", h, A, n)
axiom tree_nils [grammar]: forall A: array(int,str), n: int {"tree{nil::[" + joinS(A,n," ") + "]}"} :: n >= 0 && kidsOk(A,n) ==> treeShape("tree{nil::[" + joinS(A,n," ") + "]}", "nil", A, n)

// the item a node of a tree holds
def itemAt(n: ref): Item = setf(setf(setf(setf(setf(setf(zero(Item), Id, heap("Item.Id")[II()[n]]), External, heap("Item.External")[II()[n]]), Type, heap("Item.Type")[II()[n]]),
   Name, heap("Item.Name")[II()[n]]), Mechanism, heap("Item.Mechanism")[II()[n]]), Expanded, heap("Item.Expanded")[II()[n]])
def isText(s: str, i: Item): bool = isItemText(s) && accepts(s) && pId(s) == i.Id && (pHas(s,"type") ==> knownType(pVal(s,"type"))) && readItem(s) == i
// r is the text of the tree below t, whose root is R
def treeText(r: str, t: ref, R: ref): bool = isTree(r) && tRoot(r) == KK()[t]
   && (forall n: ref {in_(n,t)} :: in_(n,t) && n != R ==> tHas(r,KK()[n]) && isText(tIt(r,KK()[n]), itemAt(n)) && tUp(r,KK()[n]) == ite(n == t, "", KK()[EE()[n]]))
   && (forall x: str {tHas(r,x)} :: tHas(r,x) ==> in_(node(R,x),t) && KK()[node(R,x)] == x && node(R,x) != R)

// a node is below at most one direct component of t
lemma Sib(E: array(ref,ref), t: ref, R: ref) [lean]: E[R] == nil && under(E,t,R) ==>
   (forall x: ref, a: ref, b: ref {under(E,x,a), under(E,x,b)} :: under(E,x,a) && under(E,x,b) && E[a] == t && E[b] == t ==> a == b)

func world.(*tree).String
params t
results r
let R = rootOf(EE(),t)
requires t: inTree(t)
let ok = forall n: ref {in_(n,t)} :: in_(n,t) && II()[n] != nil ==> repItem(itemAt(n))
use pre: Acyclic(EE(), R)
use pre: TopUnfold(EE(), t)
use pre: Kids(EE(), t)
use pre: Sib(EE(), t, R)
inv (seq: []Tree, idx: int, acc: []string) ok ==> kidsOk(vals(acc), idx)
inv (seq: []Tree, idx: int, acc: []string) ok ==> forall j: int {acc[j]} :: 0 <= j && j < idx ==> !tHas(acc[j], KK()[t])
inv (seq: []Tree, idx: int, acc: []string) len(acc) == idx && (isnew(arr(acc)))
inv (seq: []Tree, idx: int, acc: []string) ok ==> forall j: int {acc[j]} {seq[j]} :: 0 <= j && j < idx ==> treeText(acc[j], ref(seq[j]), R)
assert [C14] tree: ok ==> isTree(r) && tRoot(r) == KK()[t]
assert [C14] all: ok ==> forall n: ref {in_(n,t)} :: in_(n,t) && n != R ==> tHas(r,KK()[n]) && isText(tIt(r,KK()[n]), itemAt(n))
assert [C14] ups: ok ==> forall n: ref {in_(n,t)} :: in_(n,t) && n != R ==> tUp(r,KK()[n]) == ite(n == t, "", KK()[EE()[n]])
assert [C14] only: ok ==> forall x: str {tHas(r,x)} :: tHas(r,x) ==> in_(node(R,x),t) && KK()[node(R,x)] == x && node(R,x) != R
ensures [C14] text: ok ==> treeText(r, ref(t), R)
