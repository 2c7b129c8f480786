package app

// ---------------------------------------------------------------- a command does what its name says, and answers with what it did (C13)
def asItem(r: any, i: world.Item): bool = r == box(world.Item, i)
def asRel(r: any, i: world.Rel): bool = r == box(world.Rel, i)
def newItem(w: *world.world, id: str, i: world.Item): bool = dom(w.Items) == upd(old(dom(w.Items)), id, true) && vals(w.Items) == upd(old(vals(w.Items)), id, i) && relsSame(w)
   && (forall x: str {nd(w,x)} :: x in w.Items ==> parId(w,x) == ite(old(x in w.Items), old(parId(w,x)), ""))
def changedItem(w: *world.world, id: str, i: world.Item): bool = dom(w.Items) == old(dom(w.Items)) && vals(w.Items) == upd(old(vals(w.Items)), id, i) && parsSame(w) && dom(w.Rels) == old(dom(w.Rels))
   && (forall k: str {vals(w.Rels)[k]} :: k in w.Rels ==> vals(w.Rels)[k] == setf(setf(old(vals(w.Rels)[k]), From, vals(w.Items)[old(vals(w.Rels)[k].From.Id)]), To, vals(w.Items)[old(vals(w.Rels)[k].To.Id)]))
def noItem(id: str): world.Item = setf(zero(world.Item), Id, id)
def restSame(w: *world.world): bool = itemsSame(w) && linksSame() && parsSame(w)

scenario ItemCreate.Does
tags C13
vars c: *ItemCreateCommand, w: *world.world
requires wf: wf(w)
requires c: c != nil
exec r, e := app.(*ItemCreateCommand).Execute (c, w)
ensures exists: old(c.Id in w.Items) ==> e == nil && sameWorld(w) && asItem(r, vals(w.Items)[c.Id])
ensures refused: !old(c.Id in w.Items) && (c.Id == "" || !old(knownParams(c.Params))) ==> e != nil && sameWorld(w)
ensures does: !old(c.Id in w.Items) && c.Id != "" && old(knownParams(c.Params)) ==> e == nil && newItem(w, c.Id, old(applyItem(noItem(c.Id), c.Params)))
ensures doesAnswer: !old(c.Id in w.Items) && c.Id != "" && old(knownParams(c.Params)) ==> asItem(r, vals(w.Items)[c.Id])

scenario ItemCreateOrFetch.Does
tags C13
vars c: *ItemCreateOrFetchCommand, w: *world.world
requires wf: wf(w)
requires c: c != nil
exec r, e := app.(*ItemCreateOrFetchCommand).Execute (c, w)
ensures exists: old(c.Id in w.Items) ==> e == nil && sameWorld(w) && asItem(r, vals(w.Items)[c.Id])
ensures refused: c.Id == "" ==> e != nil && sameWorld(w)
ensures does: !old(c.Id in w.Items) && c.Id != "" ==> e == nil && newItem(w, c.Id, noItem(c.Id))
ensures doesAnswer: !old(c.Id in w.Items) && c.Id != "" ==> asItem(r, vals(w.Items)[c.Id])

scenario ItemSet.Does
tags C13
vars c: *ItemSetCommand, w: *world.world
requires wf: wf(w)
requires c: c != nil
exec r, e := app.(*ItemSetCommand).Execute (c, w)
ensures refused: !old(c.Id in w.Items) || !old(knownParams(c.Params)) ==> e != nil && sameWorld(w)
ensures does: old(c.Id in w.Items) && old(knownParams(c.Params)) ==> e == nil && changedItem(w, c.Id, old(applyItem(vals(w.Items)[c.Id], c.Params)))
ensures doesAnswer: old(c.Id in w.Items) && old(knownParams(c.Params)) ==> asItem(r, vals(w.Items)[c.Id])

scenario ItemClear.Does
tags C13
vars c: *ItemClearCommand, w: *world.world
requires wf: wf(w)
requires c: c != nil
exec r, e := app.(*ItemClearCommand).Execute (c, w)
ensures refused: !old(c.Id in w.Items) || !old(knownParams(c.Params)) ==> e != nil && sameWorld(w)
ensures does: old(c.Id in w.Items) && old(knownParams(c.Params)) ==> e == nil && changedItem(w, c.Id, old(applyItem(vals(w.Items)[c.Id], c.Params)))
ensures doesAnswer: old(c.Id in w.Items) && old(knownParams(c.Params)) ==> asItem(r, vals(w.Items)[c.Id])

scenario ItemCreateOrSet.Does
tags C13
vars c: *ItemCreateOrSetCommand, w: *world.world
requires wf: wf(w)
requires c: c != nil
exec r, e := app.(*ItemCreateOrSetCommand).Execute (c, w)
ensures refused: c.Id == "" || !old(knownParams(c.Params)) ==> e != nil && sameWorld(w)
ensures sets: old(c.Id in w.Items) && old(knownParams(c.Params)) ==> e == nil && changedItem(w, c.Id, old(applyItem(vals(w.Items)[c.Id], c.Params)))
ensures setsAnswer: old(c.Id in w.Items) && old(knownParams(c.Params)) ==> asItem(r, vals(w.Items)[c.Id])
ensures creates: !old(c.Id in w.Items) && c.Id != "" && old(knownParams(c.Params)) ==> e == nil && newItem(w, c.Id, old(applyItem(noItem(c.Id), c.Params)))
ensures createsAnswer: !old(c.Id in w.Items) && c.Id != "" && old(knownParams(c.Params)) ==> asItem(r, vals(w.Items)[c.Id])

scenario ItemDelete.Does
tags C13
vars c: *ItemDeleteCommand, w: *world.world
requires wf: wf(w)
requires c: c != nil
exec r, e := app.(*ItemDeleteCommand).Execute (c, w)
ensures answer: e == nil && asItem(r, zero(world.Item))
ensures absent: !old(c.Id in w.Items) ==> sameWorld(w)
ensures does: dom(w.Items) == upd(old(dom(w.Items)), c.Id, false) && (forall id: str {vals(w.Items)[id]} :: id in w.Items ==> vals(w.Items)[id] == old(vals(w.Items)[id]))
ensures rels: forall k: str {k in w.Rels} {vals(w.Rels)[k]} :: (k in w.Rels <==> old(k in w.Rels) && old(vals(w.Rels)[k].From.Id) != c.Id && old(vals(w.Rels)[k].To.Id) != c.Id) && (k in w.Rels ==> vals(w.Rels)[k] == old(vals(w.Rels)[k]))
ensures pars: forall x: str {nd(w,x)} :: x in w.Items ==> parId(w,x) == ite(old(c.Id in w.Items) && old(parId(w,x)) == c.Id, old(parId(w,c.Id)), old(parId(w,x)))

scenario ItemFree.Does
tags C13
vars c: *ItemFreeCommand, w: *world.world
requires wf: wf(w)
requires c: c != nil
exec r, e := app.(*ItemFreeCommand).Execute (c, w)
inv (seq: []string, idx: int) wf(w) && contentSame(w)
inv (seq: []string, idx: int) forall x: str {nd(w,x)} :: x in w.Items ==> parId(w,x) == ite(inSl(vals(seq), idx, x), "", old(parId(w,x)))
inv (seq: []string, idx: int, acc: []error) len(acc) == 0 <==> (forall j: int {seq[j]} :: 0 <= j && j < idx ==> seq[j] in w.Items)
ensures content: contentSame(w)
ensures pars: forall x: str {nd(w,x)} :: x in w.Items ==> parId(w,x) == ite(mem(x, c.Ids), "", old(parId(w,x)))
ensures err: e == nil <==> (forall j: int {c.Ids[j]} :: 0 <= j && j < len(c.Ids) ==> c.Ids[j] in w.Items)
ensures answer: r == box(BoolStringer, e == nil)

// item x can go into item p: it exists and is there, or p exists and is not inside x
def fits(w: *world.world, x: str, p: str): bool = x in w.Items && (parId(w,x) == p || (p in w.Items && (x == p || !in_(nd(w,p), nd(w,x)))))
scenario ItemNest.Does
tags C13
vars c: *ItemNestCommand, w: *world.world
let P = c.ParentId
requires wf: wf(w)
requires c: c != nil
exec r, e := app.(*ItemNestCommand).Execute (c, w)
inv (seq: []string, idx: int) wf(w) && contentSame(w)
inv (seq: []string, idx: int) forall x: str {nd(w,x)} :: x in w.Items ==> nd(w,x) == old(nd(w,x))
inv (seq: []string, idx: int) P in w.Items ==> (forall x: str {nd(w,x)} :: x in w.Items ==> (in_(nd(w,P),nd(w,x)) <==> old(in_(nd(w,P),nd(w,x)))))
inv (seq: []string, idx: int) forall x: str {nd(w,x)} :: x in w.Items ==> parId(w,x) == ite(inSl(vals(seq), idx, x) && old(fits(w,x,P)) && x != P, P, old(parId(w,x)))
inv (seq: []string, idx: int, acc: []error) len(acc) == 0 <==> (forall j: int {seq[j]} :: 0 <= j && j < idx ==> old(fits(w,seq[j],P)))
ensures content: contentSame(w)
ensures pars: forall x: str {nd(w,x)} :: x in w.Items ==> parId(w,x) == ite(mem(x, c.Ids) && old(fits(w,x,P)) && x != P, P, old(parId(w,x)))
ensures err: e == nil <==> (forall j: int {c.Ids[j]} :: 0 <= j && j < len(c.Ids) ==> old(fits(w,c.Ids[j],P)))
ensures answer: r == box(BoolStringer, e == nil)

scenario RelCreate.Does
tags C13
vars c: *RelCreateCommand, w: *world.world
let k = relKey(c.Id, c.ToId)
let ends = c.Id in w.Items && c.ToId in w.Items
let new = setf(setf(zero(world.Rel), From, vals(w.Items)[c.Id]), To, vals(w.Items)[c.ToId])
requires wf: wf(w)
requires c: c != nil
exec r, e := app.(*RelCreateCommand).Execute (c, w)
ensures exists: old(k in w.Rels) ==> e == nil && sameWorld(w)
ensures refused: !old(k in w.Rels) && !old(ends) ==> e != nil && sameWorld(w)
ensures createsOk: !old(k in w.Rels) && old(ends) ==> e == nil
ensures createsRest: !old(k in w.Rels) && old(ends) ==> restSame(w)
ensures createsOne: !old(k in w.Rels) && old(ends) ==> dom(w.Rels) == upd(old(dom(w.Rels)), k, true)
ensures creates: !old(k in w.Rels) && old(ends) ==> vals(w.Rels) == upd(old(vals(w.Rels)), k, old(applyRel(new, c.Params)))
ensures createsAnswer: !old(k in w.Rels) && old(ends) ==> asRel(r, vals(w.Rels)[k])

scenario RelCreateOrFetch.Does
tags C13
vars c: *RelCreateOrFetchCommand, w: *world.world
let k = relKey(c.Id, c.ToId)
let ends = c.Id in w.Items && c.ToId in w.Items
let new = setf(setf(zero(world.Rel), From, vals(w.Items)[c.Id]), To, vals(w.Items)[c.ToId])
requires wf: wf(w)
requires c: c != nil
exec r, e := app.(*RelCreateOrFetchCommand).Execute (c, w)
ensures exists: old(k in w.Rels) ==> e == nil && sameWorld(w) && asRel(r, vals(w.Rels)[k])
ensures refused: !old(k in w.Rels) && !old(ends) ==> e != nil && sameWorld(w)
ensures createsOk: !old(k in w.Rels) && old(ends) ==> e == nil
ensures createsRest: !old(k in w.Rels) && old(ends) ==> restSame(w)
ensures createsOne: !old(k in w.Rels) && old(ends) ==> dom(w.Rels) == upd(old(dom(w.Rels)), k, true)
ensures creates: !old(k in w.Rels) && old(ends) ==> vals(w.Rels) == upd(old(vals(w.Rels)), k, old(new))
ensures createsAnswer: !old(k in w.Rels) && old(ends) ==> asRel(r, vals(w.Rels)[k])

scenario RelSet.Does
tags C13
vars c: *RelSetCommand, w: *world.world
let k = relKey(c.Id, c.ToId)
let ends = c.Id in w.Items && c.ToId in w.Items
let new = setf(setf(zero(world.Rel), From, vals(w.Items)[c.Id]), To, vals(w.Items)[c.ToId])
requires wf: wf(w)
requires c: c != nil
exec r, e := app.(*RelSetCommand).Execute (c, w)
ensures refused: !old(k in w.Rels) ==> e != nil && sameWorld(w)
ensures sets: old(k in w.Rels) ==> e == nil && restSame(w) && dom(w.Rels) == old(dom(w.Rels)) && vals(w.Rels) == upd(old(vals(w.Rels)), k, old(applyRel(vals(w.Rels)[k], c.Params)))
ensures setsAnswer: old(k in w.Rels) ==> asRel(r, vals(w.Rels)[k])

scenario RelClear.Does
tags C13
vars c: *RelClearCommand, w: *world.world
let k = relKey(c.Id, c.ToId)
let ends = c.Id in w.Items && c.ToId in w.Items
let new = setf(setf(zero(world.Rel), From, vals(w.Items)[c.Id]), To, vals(w.Items)[c.ToId])
requires wf: wf(w)
requires c: c != nil
exec r, e := app.(*RelClearCommand).Execute (c, w)
ensures refused: !old(k in w.Rels) ==> e != nil && sameWorld(w)
ensures sets: old(k in w.Rels) ==> e == nil && restSame(w) && dom(w.Rels) == old(dom(w.Rels)) && vals(w.Rels) == upd(old(vals(w.Rels)), k, old(applyRel(vals(w.Rels)[k], c.Params)))
ensures setsAnswer: old(k in w.Rels) ==> asRel(r, vals(w.Rels)[k])

scenario RelCreateOrSet.Does
tags C13
vars c: *RelCreateOrSetCommand, w: *world.world
let k = relKey(c.Id, c.ToId)
let ends = c.Id in w.Items && c.ToId in w.Items
let new = setf(setf(zero(world.Rel), From, vals(w.Items)[c.Id]), To, vals(w.Items)[c.ToId])
requires wf: wf(w)
requires c: c != nil
exec r, e := app.(*RelCreateOrSetCommand).Execute (c, w)
ensures refused: !old(k in w.Rels) && !old(ends) ==> e != nil && sameWorld(w)
ensures sets: old(k in w.Rels) ==> e == nil && restSame(w) && dom(w.Rels) == old(dom(w.Rels)) && vals(w.Rels) == upd(old(vals(w.Rels)), k, old(applyRel(vals(w.Rels)[k], c.Params)))
ensures setsAnswer: old(k in w.Rels) ==> asRel(r, vals(w.Rels)[k])
ensures createsOk: !old(k in w.Rels) && old(ends) ==> e == nil
ensures createsRest: !old(k in w.Rels) && old(ends) ==> restSame(w)
ensures createsOne: !old(k in w.Rels) && old(ends) ==> dom(w.Rels) == upd(old(dom(w.Rels)), k, true)
ensures creates: !old(k in w.Rels) && old(ends) ==> vals(w.Rels) == upd(old(vals(w.Rels)), k, old(applyRel(new, c.Params)))
ensures createsAnswer: !old(k in w.Rels) && old(ends) ==> asRel(r, vals(w.Rels)[k])

scenario RelDelete.Does
tags C13
vars c: *RelDeleteCommand, w: *world.world
let k = relKey(c.Id, c.ToId)
let ends = c.Id in w.Items && c.ToId in w.Items
let new = setf(setf(zero(world.Rel), From, vals(w.Items)[c.Id]), To, vals(w.Items)[c.ToId])
requires wf: wf(w)
requires c: c != nil
exec r, e := app.(*RelDeleteCommand).Execute (c, w)
ensures does: e == nil && restSame(w) && dom(w.Rels) == upd(old(dom(w.Rels)), k, false) && (forall x: str {vals(w.Rels)[x]} :: x in w.Rels ==> vals(w.Rels)[x] == old(vals(w.Rels)[x]))
