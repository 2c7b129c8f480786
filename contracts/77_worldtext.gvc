package world

// ---------------------------------------------------------------- the text of a world (C14)
fun isWorld(s: str): bool
fun wTree(s: str): str
fun wVer(s: str): int
fun wId(s: str): str
fun wName(s: str): str
fun wExp(s: str): str
fun wRelN(s: str): int
fun wRel(s: str): array(int,str)
axiom world_text [grammar]: forall v: int, id: str, nm: str, ex: str, T: str, A: array(int,str), m: int
   {"$$world\nversion=" + itoa(v) + "\nid=\"" + id + "\"\nname=\"" + nm + "\"\nexpanded=\"" + ex + "\"\n" + T + "\n" + joinS(A,m,"\n") + "\nendworld$$"} ::
   (let s = "$$world\nversion=" + itoa(v) + "\nid=\"" + id + "\"\nname=\"" + nm + "\"\nexpanded=\"" + ex + "\"\n" + T + "\n" + joinS(A,m,"\n") + "\nendworld$$" in
   v >= 0 && rep(id) && rep(nm) && rep(ex) && isTree(T) && tRoot(T) == "" && m >= 0 && (forall j: int {A[j]} :: 0 <= j && j < m ==> isRelText(A[j])) ==>
   accepts(s) && isWorld(s) && wVer(s) == v && wId(s) == id && wName(s) == nm && wExp(s) == ex && wTree(s) == T && wRelN(s) == m && (forall j: int {wRel(s)[j]} {A[j]} :: 0 <= j && j < m ==> wRel(s)[j] == A[j]))
def tkey(s: str): str = relKey(pId(s), pSec(s))
// the texts of relationships, by key
fun inTx(A: array(int,str), n: int, k: str): bool
fun ixTx(A: array(int,str), n: int, k: str): int
axiom inTx_elim [lean]: forall A: array(int,str), n: int, k: str {inTx(A,n,k)} :: inTx(A,n,k) ==> 0 <= ixTx(A,n,k) && ixTx(A,n,k) < n && tkey(A[ixTx(A,n,k)]) == k
axiom inTx_intro [lean]: forall A: array(int,str), n: int, k: str, j: int {inTx(A,n,k), A[j]} :: 0 <= j && j < n && tkey(A[j]) == k ==> inTx(A,n,k)
axiom inTx_ext [lean]: forall A: array(int,str), n: int, B: array(int,str), m: int, k: str {inTx(A,n,k), inTx(B,m,k)} :: inTx(A,n,k) && n <= m && B[ixTx(A,n,k)] == A[ixTx(A,n,k)] ==> inTx(B,m,k)

// s is the text of the relationship of w with its key
def relTextIn(s: str, w: *world): bool = isRelText(s) && accepts(s) && pSecN(s) == 1 && tkey(s) in w.Rels
   && (let x = vals(w.Rels)[tkey(s)] in x.From.Id == pId(s) && x.To.Id == pSec(s) && readRel(s, x.From, x.To) == x)
def repWorld(w: *world): bool = w.Version_ >= 0 && rep(w.Id_) && rep(w.Name_) && rep(w.Expanded_)
   && (forall id: str {vals(w.Items)[id]} {nd(w,id)} :: id in w.Items ==> repItem(vals(w.Items)[id]))
   && (forall k: str {vals(w.Rels)[k]} {k in w.Rels} :: k in w.Rels ==> repRel(vals(w.Rels)[k]))

func world.(*world).String
params w
results r
requires wf: wf(w)
modifies lastText
inv (m: map[string]Rel, visited: array(str,bool), acc: []string) ok ==> forall j: int {acc[j]} :: 0 <= j && j < len(acc) ==> relTextIn(acc[j], w) && visited[tkey(acc[j])]
inv (m: map[string]Rel, visited: array(str,bool), acc: []string) ok ==> forall k: str {visited[k]} :: visited[k] ==> inTx(vals(acc), len(acc), k)
inv (m: map[string]Rel, visited: array(str,bool), acc: []string) ok ==> forall i: int, j: int {acc[i], acc[j]} :: 0 <= i && i < len(acc) && 0 <= j && j < len(acc) && tkey(acc[i]) == tkey(acc[j]) ==> i == j
let ok = repWorld(w)
ensures [C14] info: ok ==> accepts(r) && isWorld(r) && wVer(r) == w.Version_ && wId(r) == w.Id_ && wName(r) == w.Name_ && wExp(r) == w.Expanded_
ensures [C14] tree: ok ==> treeText(wTree(r), RT(w), RT(w))
ensures [C14] rels: ok ==> wRelN(r) >= 0 && (forall j: int {wRel(r)[j]} :: 0 <= j && j < wRelN(r) ==> relTextIn(wRel(r)[j], w))
ensures [C14] relOnce: ok ==> forall i: int, j: int {wRel(r)[i], wRel(r)[j]} :: 0 <= i && i < wRelN(r) && 0 <= j && j < wRelN(r) && tkey(wRel(r)[i]) == tkey(wRel(r)[j]) ==> i == j
ensures [C14] relAll: ok ==> forall k: str {k in w.Rels} :: k in w.Rels ==> inTx(wRel(r), wRelN(r), k)
defines text: lastText == r
