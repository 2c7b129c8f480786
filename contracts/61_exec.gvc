package app

// ---------------------------------------------------------------- the grammar, as far as the application relies on it
// accepts(s): s is a sentence of the grammar; stmtOf(s): what kind of sentence
fun accepts(s: str): bool
fun stmtOf(s: str): str

func grammar.Parse
trusted
params s
results p err
ensures p: err == nil ==> p != nil && isnew(p)
ensures accepted: err == nil <==> accepts(s)
ensures text: err == nil ==> p.InputAttributes.ResourceId == pId(s) && len(p.InputAttributes.SecondaryIds) == pSecN(s) && (pSecN(s) > 0 ==> p.InputAttributes.SecondaryIds[0] == pSec(s))
ensures params: err == nil ==> (forall k: str {k in p.InputAttributes.Params} {vals(p.InputAttributes.Params)[k]} :: (k in p.InputAttributes.Params <==> pHas(s,k)) && (pHas(s,k) ==> vals(p.InputAttributes.Params)[k] == pVal(s,k)))
ensures world: isWorld(s) ==> "version" in p.WorldParams && vals(p.WorldParams)["version"] == itoa(wVer(s)) && "id" in p.WorldParams && vals(p.WorldParams)["id"] == wId(s)
   && "name" in p.WorldParams && vals(p.WorldParams)["name"] == "\"" + wName(s) + "\"" && "expanded" in p.WorldParams && vals(p.WorldParams)["expanded"] == "\"" + wExp(s) + "\"" && p.TreeString == wTree(s) && isTree(wTree(s)) && tRoot(wTree(s)) == ""
ensures worldItems: isWorld(s) ==> forall j: int {p.ItemStrings[j]} :: 0 <= j && j < len(p.ItemStrings) ==> tHas(wTree(s), pId(p.ItemStrings[j])) && p.ItemStrings[j] == tIt(wTree(s), pId(p.ItemStrings[j])) && itIx(s, pId(p.ItemStrings[j])) == j
ensures worldAll: isWorld(s) ==> forall x: str {tHas(wTree(s),x)} :: tHas(wTree(s),x) ==> 0 <= itIx(s,x) && itIx(s,x) < len(p.ItemStrings) && pId(p.ItemStrings[itIx(s,x)]) == x
ensures worldTree: isWorld(s) ==> isKids(wTree(s), heap("elem:grammar.Node"), "", p.Tree.Children)
ensures worldRels: isWorld(s) ==> len(p.RelStrings) == wRelN(s) && (forall j: int {p.RelStrings[j]} {wRel(s)[j]} :: 0 <= j && j < wRelN(s) ==> p.RelStrings[j] == wRel(s)[j])
ensures tree: isTree(s) ==> p.TreeString == s && isKids(s, heap("elem:grammar.Node"), tRoot(s), p.Tree.Children) && (tRoot(s) != "" ==> p.Tree.Id == tRoot(s))
ensures treeItems: isTree(s) ==> forall j: int {p.ItemStrings[j]} :: 0 <= j && j < len(p.ItemStrings) ==> tHas(s, pId(p.ItemStrings[j])) && p.ItemStrings[j] == tIt(s, pId(p.ItemStrings[j])) && itIx(s, pId(p.ItemStrings[j])) == j
ensures treeAll: isTree(s) ==> forall x: str {tHas(s,x)} :: tHas(s,x) ==> 0 <= itIx(s,x) && itIx(s,x) < len(p.ItemStrings) && pId(p.ItemStrings[itIx(s,x)]) == x
ensures kind: err == nil ==> p.StmtType == stmtOf(s)
ensures second: err == nil && p.StmtType == "Command" && needsSecond(p.InputAttributes) ==> len(p.InputAttributes.SecondaryIds) > 0

func grammar.(*Parser).PrintSyntaxTree
trusted
params p

// ---------------------------------------------------------------- one command line (C11, C16)
fun okText(s: str): bool
axiom okText_def [defn]: forall x: str, y: str {x + "\n$$$$\n200 ok " + y} :: okText(x + "\n$$$$\n200 ok " + y)
axiom okText_def0 [defn]: forall x: str {x + "\n$$$$\n200 ok "} :: okText(x + "\n$$$$\n200 ok ")
def histSame(h: *app): bool = h.commandsIdx == old(h.commandsIdx) && len(h.commands) == old(len(h.commands)) && (forall j: int {effect(h,j)} :: 0 <= j && j < len(h.commands) ==> effect(h,j) == old(effect(h,j)))
def isCommand(s: str): bool = accepts(s) && stmtOf(s) == "Command"

func app.okString
params o err
results r
requires answer: o != nil
ensures [C16] ok: okText(r)

func app.(*app).Exec
params h s
results r
requires hist: hist(h)
modifies app.app.commands @ h ; app.app.commandsIdx @ h ; elem:app.Command ; auto:app.Command.Execute ; ranN ; ranCmd ; ranHow ; ranOn
ensures [C11] hist: hist(h)
ensures [C11] one: ranNothing() && histSame(h) || (h.commandsIdx == old(h.commandsIdx)+1 && len(h.commands) == h.commandsIdx+1 && ran(effect(h, h.commandsIdx), 1, ref(old(h.world)))
   && (forall j: int {effect(h,j)} :: 0 <= j && j <= old(h.commandsIdx) ==> effect(h,j) == old(effect(h,j))))
ensures [C16] rejected: !isCommand(s) ==> ranNothing() && histSame(h) && errText(r)
ensures [C16] untouched: !isCommand(s) ==> itemsSame(h.world) && relsSame(h.world) && linksSame() && parsSame(h.world)
ensures [C16] reply: errText(r) || (accepts(r) && stmtOf(r) == "Response" && okText(r))
