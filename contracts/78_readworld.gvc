package world

// ---------------------------------------------------------------- the tree in a text, by ids (C14)
fun tU(T: str): array(str,str)
axiom tU_def [defn]: forall T: str, x: str {tU(T)[x]} {tU(T), tUp(T,x)} :: tU(T)[x] == tUp(T,x)
// sUnder(U,x,y): x reaches y by following U (reflexive, transitive), never through ""
fun sUnder(U: array(str,str), x: str, y: str): bool
fun stw(U: array(str,str), x: str, y: str): str
axiom su_refl [lean]: forall U: array(str,str), x: str {sUnder(U,x,x)} :: x != "" ==> sUnder(U,x,x)
axiom su_nn [lean]: forall U: array(str,str), x: str, y: str {sUnder(U,x,y)} :: sUnder(U,x,y) ==> x != "" && y != ""
axiom su_trans [lean]: forall U: array(str,str), x: str, y: str, z: str {sUnder(U,x,y), sUnder(U,y,z)} :: sUnder(U,x,y) && sUnder(U,y,z) ==> sUnder(U,x,z)
axiom su_one [lean]: forall U: array(str,str), x: str, y: str {sUnder(U,x,y), U[x]} :: x != "" && y != "" && U[x] == y ==> sUnder(U,x,y)
axiom su_up [lean]: forall U: array(str,str), x: str, y: str {sUnder(U,x,y), U[y]} :: sUnder(U,x,y) && U[y] != "" ==> sUnder(U,x,U[y])
// the ids of the text of a tree form a forest
axiom textForest [grammar]: forall T: str, x: str {isTree(T), tHas(T,x)} :: isTree(T) && tHas(T,x) ==> x != ""
axiom textClosed [grammar]: forall T: str, x: str {tHas(T,tUp(T,x))} :: isTree(T) && tHas(T,x) && tUp(T,x) != "" ==> tHas(T,tUp(T,x))
axiom textAcyclic [grammar]: forall T: str, x: str, y: str {isTree(T), sUnder(tU(T),x,y), sUnder(tU(T),y,x)} :: isTree(T) && tHas(T,x) && sUnder(tU(T),x,y) && sUnder(tU(T),y,x) ==> x == y
axiom textNoSelf [grammar]: forall T: str, x: str, y: str {isTree(T), sUnder(tU(T),x,y), tUp(T,y)} :: isTree(T) && tHas(T,y) && sUnder(tU(T),x,y) ==> x != tUp(T,y)
axiom textSib [grammar]: forall T: str, x: str, a: str, b: str {isTree(T), sUnder(tU(T),x,a), sUnder(tU(T),x,b)} :: isTree(T) && tHas(T,x) && sUnder(tU(T),x,a) && sUnder(tU(T),x,b) && tUp(T,a) == tUp(T,b) ==> a == b
def bel(T: str, x: str, y: str): bool = (y == "" && x != "") || sUnder(tU(T),x,y)

// isKids(T,H,id,ch): ch holds the nodes for the ids directly below id in T, each with its own
fun itIx(s: str, x: str): int
fun isKids(T: str, H: array(ref,array(int,grammar.Node)), id: str, ch: []grammar.Node): bool
fun kidIx(T: str, H: array(ref,array(int,grammar.Node)), id: str, ch: []grammar.Node, x: str): int
axiom isKids_def [grammar]: forall T: str, H: array(ref,array(int,grammar.Node)), id: str, ch: []grammar.Node {isKids(T,H,id,ch)} :: isKids(T,H,id,ch) ==>
   (forall j: int {H[arr(ch)][j]} :: 0 <= j && j < len(ch) ==> (let c = H[arr(ch)][j] in tHas(T,c.Id) && tUp(T,c.Id) == id && kidIx(T,H,id,ch,c.Id) == j && isKids(T,H,c.Id,c.Children)))
// what is below id is below one of the ids directly below it, and ch has all of those
lemma KidsTop(T: str, H: array(ref,array(int,grammar.Node)), id: str, ch: []grammar.Node, A: array(int,queueItem), n: int) [grammar]: isTree(T) && isKids(T,H,id,ch) ==> forall x: str {inQ(A,n,T,x)} :: tHas(T,x) && x != id && bel(T,x,id) ==>
   (let i = kidIx(T,H,id,ch,stw(tU(T),x,id)) in 0 <= i && i < len(ch) && sUnder(tU(T),x,H[arr(ch)][i].Id))
def HN(): array(ref,array(int,grammar.Node)) = heap("elem:grammar.Node")
axiom nilTop [grammar]: forall T: str {isTree(T)} :: isTree(T) ==> (startsWith(T, "tree{nil") <==> tRoot(T) == "")
axiom trimQuotes [library]: forall s: str {"\"" + s + "\""} :: rep(s) ==> trim("\"" + s + "\"", "\"") == s
fun trim(s: str, c: str): str

func strings.Trim
trusted
params s c
results r
ensures r: r == trim(s, c)

// what waits on the stack: x is waiting when it is at or below one of the first n entries
fun inQ(A: array(int,queueItem), n: int, T: str, x: str): bool
fun ixQ(A: array(int,queueItem), n: int, T: str, x: str): int
axiom inQ_elim [lean]: forall A: array(int,queueItem), n: int, T: str, x: str {inQ(A,n,T,x)} :: inQ(A,n,T,x) ==> 0 <= ixQ(A,n,T,x) && ixQ(A,n,T,x) < n && bel(T,x,A[ixQ(A,n,T,x)].node.Id)
axiom inQ_intro [lean]: forall A: array(int,queueItem), n: int, T: str, x: str, j: int {inQ(A,n,T,x), A[j]} :: 0 <= j && j < n && bel(T,x,A[j].node.Id) ==> inQ(A,n,T,x)
axiom inQ_ext [lean]: forall A: array(int,queueItem), n: int, B: array(int,queueItem), m: int, T: str, x: str {inQ(A,n,T,x), inQ(B,m,T,x)} :: inQ(A,n,T,x) && ixQ(A,n,T,x) < m && B[ixQ(A,n,T,x)] == A[ixQ(A,n,T,x)] ==> inQ(B,m,T,x)

// a text whose parts can all be read
def wellWorld(s: str): bool = let T = wTree(s) in isWorld(s) && accepts(s) && rep(wName(s)) && rep(wExp(s)) && isTree(T) && tRoot(T) == ""
   && (forall x: str {tHas(T,x)} :: tHas(T,x) ==> isItemText(tIt(T,x)) && accepts(tIt(T,x)) && pId(tIt(T,x)) == x && (pHas(tIt(T,x),"type") ==> knownType(pVal(tIt(T,x),"type"))))
   && (forall j: int {wRel(s)[j]} :: 0 <= j && j < wRelN(s) ==> accepts(wRel(s)[j]) && pSecN(wRel(s)[j]) == 1 && tHas(T,pId(wRel(s)[j])) && tHas(T,pSec(wRel(s)[j])))
   && (forall i: int, j: int {wRel(s)[i], wRel(s)[j]} :: 0 <= i && i < wRelN(s) && 0 <= j && j < wRelN(s) && tkey(wRel(s)[i]) == tkey(wRel(s)[j]) ==> i == j)
def infoOf(w: *world, s: str): bool = w.Version_ == wVer(s) && w.Id_ == wId(s) && w.Name_ == wName(s) && w.Expanded_ == wExp(s)
def itemsOf(w: *world, s: str): bool = let T = wTree(s) in (forall x: str {x in w.Items} {tHas(T,x)} :: x in w.Items <==> tHas(T,x))
   && (forall x: str {vals(w.Items)[x]} {nd(w,x)} :: x in w.Items ==> vals(w.Items)[x] == readItem(tIt(T,x)))
def upsOf(w: *world, s: str): bool = let T = wTree(s) in forall x: str {nd(w,x)} :: x in w.Items ==> parId(w,x) == tUp(T,x)
// the relationships are those of the first n texts of A
def relsOf(w: *world, A: array(int,str), n: int): bool = (forall k: str {k in w.Rels} {inTx(A,n,k)} :: k in w.Rels <==> inTx(A,n,k))
   && (forall j: int {A[j]} :: 0 <= j && j < n ==> vals(w.Rels)[tkey(A[j])] == readRel(A[j], vals(w.Items)[pId(A[j])], vals(w.Items)[pSec(A[j])]))

func world.FromString
params s
results r err
let T = wTree(s)
let ok = wellWorld(s)
modifies lastRead ; set:Tree ; tree.parent ; mapdom:map[string]Item ; mapval:map[string]Item ; mapdom:map[string]Rel ; mapval:map[string]Rel
inv (w: World) wf(w)
inv (w: World) ok ==> infoOf(w, s)
// items
inv [C14] (w: World) ok ==> (forall k: str {k in w.Rels} :: !(k in w.Rels))
inv [C14] (w: World, seq: []string, idx: int) ok ==> (forall x: str {x in w.Items} {tHas(T,x)} :: x in w.Items <==> tHas(T,x) && itIx(s,x) < idx)
inv [C14] (w: World) ok ==> (forall x: str {vals(w.Items)[x]} {nd(w,x)} :: x in w.Items ==> vals(w.Items)[x] == readItem(tIt(T,x)))
inv [C14] (w: World) ok ==> (forall x: str {nd(w,x)} :: x in w.Items ==> parId(w,x) == "")
inv [C14] (w: World) ok ==> itemsOf(w, s)
// parents
inv [C14] (q: []queueItem) ok ==> (forall j: int {q[j]} :: 0 <= j && j < len(q) ==> isKids(T, HN(), q[j].node.Id, q[j].node.Children) && (q[j].node.Id == "" ==> q[j].parentId == "") && (q[j].node.Id != "" ==> tHas(T,q[j].node.Id) && q[j].parentId == tUp(T,q[j].node.Id)))
inv [C14] (q: []queueItem) ok ==> (forall i: int, j: int, x: str {q[i], q[j], tHas(T,x)} :: 0 <= i && i < len(q) && 0 <= j && j < len(q) && tHas(T,x) && bel(T,x,q[i].node.Id) && bel(T,x,q[j].node.Id) ==> i == j)
inv [C14] (w: World, q: []queueItem) ok ==> (forall x: str {nd(w,x)} :: x in w.Items ==> parId(w,x) == ite(inQ(vals(q),len(q),T,x), "", tUp(T,x)))
inv [C14] (w: World, q: []queueItem, seq: []grammar.Node, cur: queueItem) ok ==> (forall x: str {nd(w,x)} :: x in w.Items ==> parId(w,x) == ite(inQ(vals(q),len(q),T,x) || bel(T,x,cur.node.Id), "", tUp(T,x)))
inv [C14] (q: []queueItem, seq: []grammar.Node, idx: int, cur: queueItem) ok ==> (forall j: int {q[j]} :: 0 <= j && j < len(q) ==>
   (tUp(T,q[j].node.Id) == cur.node.Id && q[j].node.Id != "" && kidIx(T,HN(),cur.node.Id,seq,q[j].node.Id) < idx) || (forall x: str {tHas(T,x)} :: tHas(T,x) && bel(T,x,q[j].node.Id) ==> !bel(T,x,cur.node.Id)))
inv [C14] (q: []queueItem, seq: []grammar.Node, idx: int) ok ==> (forall i: int, x: str {seq[i], sUnder(tU(T),x,seq[i].Id)} :: 0 <= i && i < idx && sUnder(tU(T),x,seq[i].Id) ==> inQ(vals(q),len(q),T,x))
hint (q: []queueItem, seq: []grammar.Node, cur: queueItem) KidsTop(T, HN(), cur.node.Id, seq, vals(q), len(q))
inv [C14] (w: World) ok ==> upsOf(w, s)
// relationships
inv [C14] (w: World, seq: []string, idx: int) ok ==> relsOf(w, vals(seq), idx)
ensures [C01] forest: err == nil ==> wfTree(r)
ensures [C05,C20] items: err == nil ==> wfItems(r)
ensures [C04,C05] rels: err == nil ==> wfRels(r)
ensures maps: err == nil ==> r.Items != nil && r.Rels != nil
ensures [C14] read: ok ==> err == nil
ensures [C14] info: ok ==> infoOf(r, s)
ensures [C14] itemsRead: ok ==> itemsOf(r, s)
ensures [C14] upsRead: ok ==> upsOf(r, s)
ensures [C14] relsRead: ok ==> relsOf(r, wRel(s), wRelN(s))
defines read: lastRead == s

func strings.HasPrefix
trusted
params s t
results r
ensures r: r <==> startsWith(s, t)
