package world

// a world written as text and read back is the same world (C14)
scenario world.worldRoundTrip
vars w: *world
requires wf: wf(w)
requires rep: repWorld(w)
exec s := world.(*world).String (w)
assert [C14] top: isTree(wTree(s)) && tRoot(wTree(s)) == ""
assert [C14] ids: forall id: str {tHas(wTree(s),id)} {id in w.Items} :: tHas(wTree(s),id) <==> id in w.Items
assert [C14] texts: forall id: str {tHas(wTree(s),id)} :: tHas(wTree(s),id) ==> isText(tIt(wTree(s),id), vals(w.Items)[id])
assert [C14] parents: forall id: str {tHas(wTree(s),id)} {nd(w,id)} :: id in w.Items ==> tUp(wTree(s),id) == parId(w,id)
assert [C14] relEnds: forall j: int {wRel(s)[j]} :: 0 <= j && j < wRelN(s) ==> tHas(wTree(s),pId(wRel(s)[j])) && tHas(wTree(s),pSec(wRel(s)[j]))
assert [C14] well: wellWorld(s)
exec r, err := world.FromString (s)
ensures [C14] read: err == nil
ensures [C14] info: r.Version_ == old(w.Version_) && r.Id_ == old(w.Id_) && r.Name_ == old(w.Name_) && r.Expanded_ == old(w.Expanded_)
ensures [C14] items: forall id: str {id in r.Items} {vals(r.Items)[id]} :: (id in r.Items <==> old(id in w.Items)) && (id in r.Items ==> vals(r.Items)[id] == old(vals(w.Items)[id]))
ensures [C14] parents: forall id: str {nd(r,id)} :: id in r.Items ==> parId(r,id) == old(parId(w,id))
ensures [C14] rels: forall k: str {k in r.Rels} {vals(r.Rels)[k]} :: (k in r.Rels <==> old(k in w.Rels)) && (k in r.Rels ==> vals(r.Rels)[k] == old(vals(w.Rels)[k]))
