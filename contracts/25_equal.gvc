package world

// ---------------------------------------------------------------- observable equality (C15)
func world.ItemEqual
tags C15
params i1 i2
results r
ensures eq: r <==> i1 == i2

func world.RelEqual
tags C15
params r1 r2
results r
ensures eq: r <==> r1 == r2

// trees: the value shown at a node, and the component of a node that has a given id
fun ITEMV(I: array(ref,ref), A: array(ref,str), B: array(ref,bool), T: array(ref,int), N: array(ref,str), M: array(ref,str), X: array(ref,str)): array(ref,Item)
axiom ITEMV_def [defn]: forall I: array(ref,ref), A: array(ref,str), B: array(ref,bool), T: array(ref,int), N: array(ref,str), M: array(ref,str), X: array(ref,str), n: ref {ITEMV(I,A,B,T,N,M,X)[n]} ::
   ITEMV(I,A,B,T,N,M,X)[n] == ite(I[n] == nil, zero(Item), setf(setf(setf(setf(setf(setf(zero(Item), Id, A[I[n]]), External, B[I[n]]), Type, T[I[n]]), Name, N[I[n]]), Mechanism, M[I[n]]), Expanded, X[I[n]]))
def VV(): array(ref,Item) = ITEMV(II(), heap("Item.Id"), heap("Item.External"), heap("Item.Type"), heap("Item.Name"), heap("Item.Mechanism"), heap("Item.Expanded"))
fun kid(C: array(ref,ref), S: array(ref,array(ref,bool)), V: array(ref,Item), n: ref, k: str): ref
// okT: below n, components exist and the components of one node have different ids
fun okT(C: array(ref,ref), S: array(ref,array(ref,bool)), V: array(ref,Item), n: ref): bool
lemma OkT(C: array(ref,ref), S: array(ref,array(ref,bool)), V: array(ref,Item), n: ref) [defn]:
   okT(C,S,V,n) <==> n != nil && C[n] != nil && (forall x: ref {S[C[n]][x]} :: S[C[n]][x] ==> x != nil && okT(C,S,V,x) && kid(C,S,V,n,V[x].Id) == x)
// eqT: same item, and to every component of one corresponds an equal one of the other
fun eqT(C: array(ref,ref), S: array(ref,array(ref,bool)), V: array(ref,Item), a: ref, b: ref): bool
lemma EqT(C: array(ref,ref), S: array(ref,array(ref,bool)), V: array(ref,Item), a: ref, b: ref) [defn]:
   eqT(C,S,V,a,b) <==> V[a] == V[b]
   && (forall x: ref {S[C[a]][x]} :: S[C[a]][x] ==> (let y = kid(C,S,V,b,V[x].Id) in S[C[b]][y] && V[y] == V[x] && eqT(C,S,V,x,y)))
   && (forall y: ref {S[C[b]][y]} :: S[C[b]][y] ==> (let x = kid(C,S,V,a,V[y].Id) in S[C[a]][x] && V[x] == V[y] && eqT(C,S,V,x,y)))
// (its first conjunct, on its own)
axiom eqT_item [defn]: forall C: array(ref,ref), S: array(ref,array(ref,bool)), V: array(ref,Item), a: ref, b: ref {eqT(C,S,V,a,b)} :: eqT(C,S,V,a,b) ==> V[a] == V[b]

// two sets whose elements have different ids, and the same ids, have the same size
lemma SameCard(C: array(ref,ref), S: array(ref,array(ref,bool)), V: array(ref,Item), a: ref, b: ref) [lean]:
   (forall x: ref {S[C[a]][x]} :: S[C[a]][x] ==> (let y = kid(C,S,V,b,V[x].Id) in S[C[b]][y] && V[y].Id == V[x].Id && kid(C,S,V,a,V[x].Id) == x))
   && (forall y: ref {S[C[b]][y]} :: S[C[b]][y] ==> (let x = kid(C,S,V,a,V[y].Id) in S[C[a]][x] && V[x].Id == V[y].Id && kid(C,S,V,b,V[y].Id) == y))
   ==> card(S[C[a]]) == card(S[C[b]])
// two sequences ordered by id with the same ids have the same ids at the same places
lemma SameSeqT(A: array(int,ref), n: int, B: array(int,ref), m: int, V: array(ref,Item)) [lean]:
   n >= 0 && m >= 0 && (forall i: int, j: int {A[i], A[j]} :: 0 <= i && i < j && j < n ==> V[A[i]].Id < V[A[j]].Id)
   && (forall i: int, j: int {B[i], B[j]} :: 0 <= i && i < j && j < m ==> V[B[i]].Id < V[B[j]].Id)
   && (forall i: int {A[i]} :: 0 <= i && i < n ==> (exists j: int {B[j]} :: 0 <= j && j < m && V[B[j]].Id == V[A[i]].Id))
   && (forall j: int {B[j]} :: 0 <= j && j < m ==> (exists i: int {A[i]} :: 0 <= i && i < n && V[A[i]].Id == V[B[j]].Id))
   ==> n == m && (forall i: int {A[i]} {B[i]} :: 0 <= i && i < n ==> V[A[i]].Id == V[B[i]].Id)

func world.TreeEqual
tags C15
params t1 t2
results r
requires ok1: okT(CC(),SS(),VV(),t1)
requires ok2: okT(CC(),SS(),VV(),t2)
use pre: OkT(CC(),SS(),VV(),t1)
use pre: OkT(CC(),SS(),VV(),t2)
use pre: EqT(CC(),SS(),VV(),t1,t2)
use EqT(CC(),SS(),VV(),t1,t2)
use SameCard(CC(),SS(),VV(),t1,t2)
hint (seq: []Tree, other: []Tree) SameSeqT(vals(seq), len(seq), vals(other), len(other), VV())
inv (seq: []Tree, idx: int, other: []Tree) forall i: int {seq[i]} :: 0 <= i && i < idx ==> eqT(CC(),SS(),VV(),seq[i],other[i])
inv (seq: []Tree, idx: int, other: []Tree) eqT(CC(),SS(),VV(),t1,t2) ==> (forall i: int {seq[i]} {other[i]} :: 0 <= i && i < len(seq) ==> VV()[seq[i]].Id == VV()[other[i]].Id)
inv (seq: []Tree, idx: int, other: []Tree) eqT(CC(),SS(),VV(),t1,t2) ==> (forall i: int {seq[i]} {other[i]} :: 0 <= i && i < len(seq) ==> eqT(CC(),SS(),VV(),seq[i],other[i]))
ensures sound: r ==> eqT(CC(),SS(),VV(),t1,t2)
ensures complete: eqT(CC(),SS(),VV(),t1,t2) ==> r

// ---------------------------------------------------------------- worlds
def sameWorlds(a: *world, b: *world): bool = a.Version_ == b.Version_ && a.Id_ == b.Id_ && a.Name_ == b.Name_ && a.Expanded_ == b.Expanded_
   && dom(a.Items) == dom(b.Items) && dom(a.Rels) == dom(b.Rels)
   && (forall id: str {vals(a.Items)[id]} {vals(b.Items)[id]} {id in a.Items} :: id in a.Items ==> vals(a.Items)[id] == vals(b.Items)[id] && parId(a,id) == parId(b,id))
   && (forall k: str {vals(a.Rels)[k]} {vals(b.Rels)[k]} {k in a.Rels} :: k in a.Rels ==> vals(a.Rels)[k] == vals(b.Rels)[k])
lemma SameSeqS(A: array(int,str), n: int, B: array(int,str), m: int) [lean]:
   n >= 0 && m >= 0 && (forall i: int, j: int {A[i], A[j]} :: 0 <= i && i < j && j < n ==> A[i] < A[j])
   && (forall i: int, j: int {B[i], B[j]} :: 0 <= i && i < j && j < m ==> B[i] < B[j])
   && (forall i: int {A[i]} :: 0 <= i && i < n ==> (exists j: int {B[j]} :: 0 <= j && j < m && B[j] == A[i]))
   && (forall j: int {B[j]} :: 0 <= j && j < m ==> (exists i: int {A[i]} :: 0 <= i && i < n && A[i] == B[j]))
   ==> n == m && (forall i: int {A[i]} {B[i]} :: 0 <= i && i < n ==> A[i] == B[i])
lemma SameSeqI(A: array(int,Item), n: int, B: array(int,Item), m: int) [lean]:
   n >= 0 && m >= 0 && (forall i: int, j: int {A[i], A[j]} :: 0 <= i && i < j && j < n ==> A[i].Id < A[j].Id)
   && (forall i: int, j: int {B[i], B[j]} :: 0 <= i && i < j && j < m ==> B[i].Id < B[j].Id)
   && (forall i: int {A[i]} :: 0 <= i && i < n ==> (exists j: int {B[j]} :: 0 <= j && j < m && B[j].Id == A[i].Id))
   && (forall j: int {B[j]} :: 0 <= j && j < m ==> (exists i: int {A[i]} :: 0 <= i && i < n && A[i].Id == B[j].Id))
   ==> n == m && (forall i: int {A[i]} {B[i]} :: 0 <= i && i < n ==> A[i].Id == B[i].Id)
def relLess(a: Rel, b: Rel): bool = a.From.Id < b.From.Id || (a.From.Id == b.From.Id && a.To.Id < b.To.Id)
lemma SameSeqR(A: array(int,Rel), n: int, B: array(int,Rel), m: int) [lean]:
   n >= 0 && m >= 0 && (forall i: int, j: int {A[i], A[j]} :: 0 <= i && i < j && j < n ==> relLess(A[i], A[j]))
   && (forall i: int, j: int {B[i], B[j]} :: 0 <= i && i < j && j < m ==> relLess(B[i], B[j]))
   && (forall i: int {A[i]} :: 0 <= i && i < n ==> (exists j: int {B[j]} :: 0 <= j && j < m && keyOf(B[j]) == keyOf(A[i])))
   && (forall j: int {B[j]} :: 0 <= j && j < m ==> (exists i: int {A[i]} :: 0 <= i && i < n && keyOf(A[i]) == keyOf(B[j])))
   ==> n == m && (forall i: int {A[i]} {B[i]} :: 0 <= i && i < n ==> keyOf(A[i]) == keyOf(B[i]))

func world.WorldEqual
tags C15
params w1 w2
results r
requires wf1: wf(w1)
requires wf2: wf(w2)
modifies world.latestItem @ w1, w2 ; world.latestRel @ w1, w2 ; world.latestErr @ w1, w2
hint (seq: []Item, other: []Item) SameSeqI(vals(seq), len(seq), vals(other), len(other))
hint (seq: []string, other: []string) SameSeqS(vals(seq), len(seq), vals(other), len(other))
hint (seq: []Rel, other: []Rel) SameSeqR(vals(seq), len(seq), vals(other), len(other))
inv (seq: []Item, idx: int, other: []Item) forall i: int {seq[i]} :: 0 <= i && i < idx ==> seq[i] == other[i] && parId(w1,seq[i].Id) == parId(w2,seq[i].Id)
inv (seq: []Item, other: []Item) sameWorlds(w1,w2) ==> (forall i: int {seq[i]} {other[i]} :: 0 <= i && i < len(seq) ==> seq[i] == other[i])
inv (seq: []string, other: []string) sameWorlds(w1,w2) ==> (forall i: int {seq[i]} {other[i]} :: 0 <= i && i < len(seq) ==> seq[i] == other[i])
inv (seq: []Rel, idx: int, other: []Rel) forall i: int {seq[i]} :: 0 <= i && i < idx ==> seq[i] == other[i]
inv (seq: []Rel, other: []Rel) sameWorlds(w1,w2) ==> (forall i: int {seq[i]} {other[i]} :: 0 <= i && i < len(seq) ==> seq[i] == other[i])
ensures sound: r ==> sameWorlds(w1,w2)
ensures complete: sameWorlds(w1,w2) ==> r

scenario world.equalSymmetric
tags C15
vars w1: *world.world, w2: *world.world
requires wf1: wf(w1)
requires wf2: wf(w2)
exec a := world.WorldEqual (w1, w2)
exec b := world.WorldEqual (w2, w1)
ensures symmetric: a <==> b
ensures kept: wf(w1) && wf(w2)

scenario world.equalReflexive
tags C15
vars w: *world.world
requires wf: wf(w)
exec a := world.WorldEqual (w, w)
ensures reflexive: a
