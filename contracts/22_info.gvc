package world

// ---------------------------------------------------------------- what a world says about itself (C14); setting it touches nothing else (C01, C04, C05)
func world.(*world).Version
params w
results r
requires w: w != nil
ensures [C14] r: r == w.Version_

func world.(*world).Id
params w
results r
requires w: w != nil
ensures [C14] r: r == w.Id_

func world.(*world).Name
params w
results r
requires w: w != nil
ensures [C14] r: r == w.Name_

func world.(*world).Expanded
params w
results r
requires w: w != nil
ensures [C14] r: r == w.Expanded_

func world.(*world).SetVersion
params w v
results r
requires wf: wf(w)
modifies world.Version_ @ w
ensures [C14] set: r == w && w.Version_ == v
ensures [C01] forest: wfTree(w)
ensures [C05,C20] items: wfItems(w)
ensures [C04,C05] rels: wfRels(w)

func world.(*world).SetId
params w v
results r
requires wf: wf(w)
modifies world.Id_ @ w
ensures [C14] set: r == w && w.Id_ == v
ensures [C01] forest: wfTree(w)
ensures [C05,C20] items: wfItems(w)
ensures [C04,C05] rels: wfRels(w)

func world.(*world).SetName
params w v
results r
requires wf: wf(w)
modifies world.Name_ @ w
ensures [C14] set: r == w && w.Name_ == v
ensures [C01] forest: wfTree(w)
ensures [C05,C20] items: wfItems(w)
ensures [C04,C05] rels: wfRels(w)

func world.(*world).SetExpanded
params w v
results r
requires wf: wf(w)
modifies world.Expanded_ @ w
ensures [C14] set: r == w && w.Expanded_ == v
ensures [C01] forest: wfTree(w)
ensures [C05,C20] items: wfItems(w)
ensures [C04,C05] rels: wfRels(w)
