package world

// ---------------------------------------------------------------- reading text back (C01, C04, C05, C14, C20)
func world.ItemFromString
params s
results r err
ensures [C05,C20] type: err == nil ==> typeOk(r.Type)
ensures [C14] read: err == nil <==> accepts(s) && (pHas(s,"type") ==> knownType(pVal(s,"type")))
ensures [C14] value: err == nil ==> r == readItem(s)

func world.RelFromString
params w s
results r err
requires wf: wf(w)
ensures [C04] ends: err == nil ==> r.From.Id in w.Items && r.To.Id in w.Items && r.From == vals(w.Items)[r.From.Id] && r.To == vals(w.Items)[r.To.Id]
ensures [C14] read: accepts(s) && pSecN(s) > 0 && pId(s) in w.Items && pSec(s) in w.Items ==> err == nil
ensures [C14] value: err == nil ==> r == readRel(s, vals(w.Items)[pId(s)], vals(w.Items)[pSec(s)])
