package app

// ---------------------------------------------------------------- executing and then undoing a command (C10)
def restored(w: *world.world): bool =
   dom(w.Items) == old(dom(w.Items)) && dom(w.Rels) == old(dom(w.Rels))
   && (forall id: str {vals(w.Items)[id]} :: id in w.Items ==> vals(w.Items)[id] == old(vals(w.Items)[id]))
   && (forall k: str {vals(w.Rels)[k]} :: k in w.Rels ==> vals(w.Rels)[k] == old(vals(w.Rels)[k]))
   && (forall id: str {nd(w,id)} :: id in w.Items ==> parId(w,id) == old(parId(w,id)))
   && wf(w)

scenario ItemCreate.Undo
tags C10
vars c: *ItemCreateCommand, w: *world.world
requires wf: wf(w)
requires c: c != nil
exec r, e := app.(*ItemCreateCommand).Execute (c, w)
exec e2 := app.(*ItemCreateCommand).Undo (c, w)
ensures restored: restored(w)

scenario ItemCreateOrFetch.Undo
tags C10
vars c: *ItemCreateOrFetchCommand, w: *world.world
requires wf: wf(w)
requires c: c != nil
exec r, e := app.(*ItemCreateOrFetchCommand).Execute (c, w)
exec e2 := app.(*ItemCreateOrFetchCommand).Undo (c, w)
ensures restored: restored(w)

scenario ItemSet.Undo
tags C10
vars c: *ItemSetCommand, w: *world.world
requires wf: wf(w)
requires c: c != nil
exec r, e := app.(*ItemSetCommand).Execute (c, w)
exec e2 := app.(*ItemSetCommand).Undo (c, w)
ensures restored: restored(w)

scenario ItemClear.Undo
tags C10
vars c: *ItemClearCommand, w: *world.world
requires wf: wf(w)
requires c: c != nil
exec r, e := app.(*ItemClearCommand).Execute (c, w)
exec e2 := app.(*ItemClearCommand).Undo (c, w)
ensures restored: restored(w)

scenario ItemCreateOrSet.Undo
tags C10
vars c: *ItemCreateOrSetCommand, w: *world.world
requires wf: wf(w)
requires c: c != nil
exec r, e := app.(*ItemCreateOrSetCommand).Execute (c, w)
exec e2 := app.(*ItemCreateOrSetCommand).Undo (c, w)
ensures restored: restored(w)

scenario RelCreate.Undo
tags C10
vars c: *RelCreateCommand, w: *world.world
requires wf: wf(w)
requires c: c != nil
exec r, e := app.(*RelCreateCommand).Execute (c, w)
exec e2 := app.(*RelCreateCommand).Undo (c, w)
ensures restored: restored(w)

scenario RelCreateOrFetch.Undo
tags C10
vars c: *RelCreateOrFetchCommand, w: *world.world
requires wf: wf(w)
requires c: c != nil
exec r, e := app.(*RelCreateOrFetchCommand).Execute (c, w)
exec e2 := app.(*RelCreateOrFetchCommand).Undo (c, w)
ensures restored: restored(w)

scenario RelCreateOrSet.Undo
tags C10
vars c: *RelCreateOrSetCommand, w: *world.world
requires wf: wf(w)
requires c: c != nil
exec r, e := app.(*RelCreateOrSetCommand).Execute (c, w)
exec e2 := app.(*RelCreateOrSetCommand).Undo (c, w)
ensures restored: restored(w)

scenario RelSet.Undo
tags C10
vars c: *RelSetCommand, w: *world.world
requires wf: wf(w)
requires c: c != nil
exec r, e := app.(*RelSetCommand).Execute (c, w)
exec e2 := app.(*RelSetCommand).Undo (c, w)
ensures restored: restored(w)

scenario RelClear.Undo
tags C10
vars c: *RelClearCommand, w: *world.world
requires wf: wf(w)
requires c: c != nil
exec r, e := app.(*RelClearCommand).Execute (c, w)
exec e2 := app.(*RelClearCommand).Undo (c, w)
ensures restored: restored(w)

scenario RelDelete.Undo
tags C10
vars c: *RelDeleteCommand, w: *world.world
requires wf: wf(w)
requires c: c != nil
exec r, e := app.(*RelDeleteCommand).Execute (c, w)
exec e2 := app.(*RelDeleteCommand).Undo (c, w)
ensures restored: restored(w)

scenario ItemDelete.Undo
tags C10
vars c: *ItemDeleteCommand, w: *world.world
requires wf: wf(w)
requires c: c != nil
exec r, e := app.(*ItemDeleteCommand).Execute (c, w)
label deleted
exec e2 := app.(*ItemDeleteCommand).Undo (c, w)
ensures noerr: e2 == nil
ensures restored: restored(w)
inv (seq: []string, idx: int) dom(w.Items) == entry(dom(w.Items)) && vals(w.Items) == entry(vals(w.Items)) && dom(w.Rels) == entry(dom(w.Rels)) && vals(w.Rels) == entry(vals(w.Rels))
inv (seq: []string, idx: int) forall x: str {nd(w,x)} :: x in w.Items ==> parId(w,x) == ite(inSl(vals(seq), idx, x), c.Id, entry(parId(w,x)))
inv (idx: int) wf(w)
inv (seq: []string, idx: int) c.Id in w.Items
inv (seq: []string, idx: int) forall j: int {seq[j]} :: 0 <= j && j < len(seq) ==> seq[j] in w.Items
inv (seq: []string, idx: int) forall j: int {seq[j]} :: 0 <= j && j < len(seq) ==> seq[j] != c.Id
inv (seq: []string, idx: int) forall j: int {seq[j]} :: 0 <= j && j < len(seq) ==> entry(parId(w,seq[j])) == c.oldParentId
inv (seq: []string, idx: int) parId(w,c.Id) == c.oldParentId
inv (seq: []world.Rel, idx: int) dom(w.Items) == entry(dom(w.Items)) && vals(w.Items) == entry(vals(w.Items))
inv (seq: []world.Rel, idx: int) forall x: str {nd(w,x)} :: x in w.Items ==> parId(w,x) == entry(parId(w,x))
inv (seq: []world.Rel, idx: int) wf(w)
inv (seq: []world.Rel, idx: int) forall k: str {k in w.Rels} :: k in w.Rels ==> old(k in w.Rels) && vals(w.Rels)[k] == old(vals(w.Rels)[k])
inv (seq: []world.Rel, idx: int) forall k: str {k in w.Rels} :: entry(k in w.Rels) ==> k in w.Rels
inv (seq: []world.Rel, idx: int) forall j: int {seq[j]} :: 0 <= j && j < idx ==> keyOf(seq[j]) in w.Rels
inv (seq: []world.Rel, idx: int) forall j: int {seq[j]} :: 0 <= j && j < len(seq) ==> old(dom(w.Rels))[keyOf(seq[j])] && seq[j] == old(vals(w.Rels))[keyOf(seq[j])]
inv (seq: []world.Rel, idx: int) forall j: int {seq[j]} :: 0 <= j && j < len(seq) ==> seq[j].From.Id in w.Items && seq[j].To.Id in w.Items

// ---------------------------------------------------------------- moving several items, and moving them back
// NM(E,K,r): the node of every id;  unm: the links after the first n recorded moves are undone, latest first;  legal: none of those is refused
fun NM(E: array(ref,ref), K: array(ref,str), r: ref): array(str,ref)
axiom NM_def [defn]: forall E: array(ref,ref), K: array(ref,str), r: ref, id: str {NM(E,K,r)[id]} :: NM(E,K,r)[id] == ite(id == "", r, nodeOf(E,K,r,id))
fun mark(n: int): bool
axiom mark_def [defn]: forall n: int {mark(n)} :: mark(n)
fun unm(F: array(ref,ref), N: array(str,ref), M: array(int,itemMove), n: int): array(ref,ref)
fun legal(F: array(ref,ref), N: array(str,ref), M: array(int,itemMove), n: int): bool
axiom unm_0 [defn]: forall F: array(ref,ref), N: array(str,ref), M: array(int,itemMove), n: int {unm(F,N,M,n)} :: n <= 0 ==> unm(F,N,M,n) == F
axiom unm_n [defn]: forall F: array(ref,ref), N: array(str,ref), M: array(int,itemMove), n: int {unm(F,N,M,n), mark(n)} :: n > 0 ==>
   unm(F,N,M,n) == unm(mv(F, N[M[n-1].id], N[M[n-1].oldParentId]), N, M, n-1)
axiom unm_ext [lean]: forall F: array(ref,ref), N: array(str,ref), M: array(int,itemMove), L: array(int,itemMove), n: int {unm(F,N,M,n), unm(F,N,L,n)} ::
   (forall j: int {M[j]} {L[j]} :: 0 <= j && j < n ==> M[j] == L[j]) ==> unm(F,N,M,n) == unm(F,N,L,n)
axiom legal_0 [defn]: forall F: array(ref,ref), N: array(str,ref), M: array(int,itemMove), n: int {legal(F,N,M,n)} :: n <= 0 ==> legal(F,N,M,n)
axiom legal_n [defn]: forall F: array(ref,ref), N: array(str,ref), M: array(int,itemMove), n: int {legal(F,N,M,n), mark(n)} :: n > 0 ==>
   (legal(F,N,M,n) <==> !within(F, N[M[n-1].oldParentId], N[M[n-1].id]) && legal(mv(F, N[M[n-1].id], N[M[n-1].oldParentId]), N, M, n-1))
axiom legal_ext [lean]: forall F: array(ref,ref), N: array(str,ref), M: array(int,itemMove), L: array(int,itemMove), n: int {legal(F,N,M,n), legal(F,N,L,n)} ::
   (forall j: int {M[j]} {L[j]} :: 0 <= j && j < n ==> M[j] == L[j]) ==> (legal(F,N,M,n) <==> legal(F,N,L,n))

def N0(w: *world.world): array(str,ref) = NM(EE(), KK(), RT(w))
def nodesSame(w: *world.world): bool = (forall id: str {nd(w,id)} :: id in w.Items ==> nd(w,id) == old(nd(w,id)))
def contentSame(w: *world.world): bool = dom(w.Items) == old(dom(w.Items)) && vals(w.Items) == old(vals(w.Items)) && dom(w.Rels) == old(dom(w.Rels)) && vals(w.Rels) == old(vals(w.Rels))
def movesOk(w: *world.world, M: []itemMove): bool = forall j: int {M[j]} :: 0 <= j && j < len(M) ==> M[j].id != "" && M[j].id in w.Items && M[j].id != M[j].oldParentId && (M[j].oldParentId == "" || M[j].oldParentId in w.Items)

scenario ItemNest.Undo
tags C10
vars c: *ItemNestCommand, w: *world.world
requires wf: wf(w)
requires c: c != nil
requires w: w != nil
hide wfTree wfItems wfRels
exec r, e := app.(*ItemNestCommand).Execute (c, w)
exec e2 := app.(*ItemNestCommand).Undo (c, w)
ensures noerr: e2 == nil
ensures restored: restored(w)
inv (idx: int) wf(w)
inv (idx: int) contentSame(w)
inv (idx: int) nodesSame(w)
inv (idx: int) movesOk(w, c.moves)
inv (seq: []string, idx: int) isnew(arr(c.moves))
inv (seq: []string, idx: int) mark(len(c.moves)) && unm(EE(), old(N0(w)), vals(c.moves), len(c.moves)) == old(EE())
inv (seq: []string, idx: int) mark(len(c.moves)) && legal(EE(), old(N0(w)), vals(c.moves), len(c.moves))
inv (i: int) wf(w)
inv (i: int) contentSame(w)
inv (i: int) nodesSame(w)
inv (i: int) movesOk(w, c.moves)
inv (i: int) i < len(c.moves)
inv (i: int) i <= len(c.moves)
inv (i: int) mark(i) && unm(EE(), old(N0(w)), vals(c.moves), i) == old(EE())
inv (i: int) mark(i) && legal(EE(), old(N0(w)), vals(c.moves), i)
inv (i: int) mark(i+1) && unm(EE(), old(N0(w)), vals(c.moves), i+1) == old(EE())
inv (i: int) mark(i+1) && legal(EE(), old(N0(w)), vals(c.moves), i+1)
inv (idx: int) idx <= len(c.moves)
inv (idx: int) mark(len(c.moves)-idx) && unm(EE(), old(N0(w)), vals(c.moves), len(c.moves)-idx) == old(EE())
inv (idx: int) mark(len(c.moves)-idx) && legal(EE(), old(N0(w)), vals(c.moves), len(c.moves)-idx)

scenario ItemFree.Undo
tags C10
vars c: *ItemFreeCommand, w: *world.world
requires wf: wf(w)
requires c: c != nil
requires w: w != nil
hide wfTree wfItems wfRels
exec r, e := app.(*ItemFreeCommand).Execute (c, w)
exec e2 := app.(*ItemFreeCommand).Undo (c, w)
ensures noerr: e2 == nil
ensures restored: restored(w)
inv (idx: int) wf(w)
inv (idx: int) contentSame(w)
inv (idx: int) nodesSame(w)
inv (idx: int) movesOk(w, c.moves)
inv (seq: []string, idx: int) isnew(arr(c.moves))
inv (seq: []string, idx: int) mark(len(c.moves)) && unm(EE(), old(N0(w)), vals(c.moves), len(c.moves)) == old(EE())
inv (seq: []string, idx: int) mark(len(c.moves)) && legal(EE(), old(N0(w)), vals(c.moves), len(c.moves))
inv (i: int) wf(w)
inv (i: int) contentSame(w)
inv (i: int) nodesSame(w)
inv (i: int) movesOk(w, c.moves)
inv (i: int) i < len(c.moves)
inv (i: int) i <= len(c.moves)
inv (i: int) mark(i) && unm(EE(), old(N0(w)), vals(c.moves), i) == old(EE())
inv (i: int) mark(i) && legal(EE(), old(N0(w)), vals(c.moves), i)
inv (i: int) mark(i+1) && unm(EE(), old(N0(w)), vals(c.moves), i+1) == old(EE())
inv (i: int) mark(i+1) && legal(EE(), old(N0(w)), vals(c.moves), i+1)
inv (idx: int) idx <= len(c.moves)
inv (idx: int) mark(len(c.moves)-idx) && unm(EE(), old(N0(w)), vals(c.moves), len(c.moves)-idx) == old(EE())
inv (idx: int) mark(len(c.moves)-idx) && legal(EE(), old(N0(w)), vals(c.moves), len(c.moves)-idx)
