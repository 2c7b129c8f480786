package world

// ---------------------------------------------------------------- what the grammar reads from a text (C14)
// The generated parser is out of the verifier's reach: these functions name what it reads from a text, and the axioms marked
// [grammar] say what that is for the texts the String methods write (taken on trust, exercised at run time).
fun pId(s: str): str
fun pSecN(s: str): int
fun pSec(s: str): str
fun pHas(s: str, k: str): bool
fun pVal(s: str, k: str): str
// rep(s): quoted text can hold s (letters, digits, the punctuation of the grammar, spaces)
fun rep(s: str): bool
fun isItemText(h: str): bool
fun isRelText(h: str): bool
// an attribute as written: key=value
fun attrItem(x: str): bool
fun attrRel(x: str): bool
fun attrKey(x: str): str
fun attrVal(x: str): str
// the first n attributes of A: distinct keys; which keys; which values
fun attrsItem(A: array(int,str), n: int): bool
fun attrsRel(A: array(int,str), n: int): bool
fun attrsHas(A: array(int,str), n: int, k: str): bool
fun attrsVal(A: array(int,str), n: int, k: str): str
fun joinS(A: array(int,str), n: int, sep: str): str

axiom attrsItem_def [defn]: forall A: array(int,str), n: int {attrsItem(A,n)} :: attrsItem(A,n) <==> n <= 0 || (attrsItem(A,n-1) && attrItem(A[n-1]) && !attrsHas(A,n-1,attrKey(A[n-1])))
axiom attrsRel_def [defn]: forall A: array(int,str), n: int {attrsRel(A,n)} :: attrsRel(A,n) <==> n <= 0 || (attrsRel(A,n-1) && attrRel(A[n-1]) && !attrsHas(A,n-1,attrKey(A[n-1])))
axiom attrsHas_def [defn]: forall A: array(int,str), n: int, k: str {attrsHas(A,n,k)} :: attrsHas(A,n,k) <==> n > 0 && (attrKey(A[n-1]) == k || attrsHas(A,n-1,k))
axiom attrsVal_def [defn]: forall A: array(int,str), n: int, k: str {attrsVal(A,n,k)} :: n > 0 ==> attrsVal(A,n,k) == ite(attrKey(A[n-1]) == k, attrVal(A[n-1]), attrsVal(A,n-1,k))

axiom a_name [grammar]: forall v: str {"name=\"" + v + "\""} :: (let x = "name=\"" + v + "\"" in rep(v) ==> attrItem(x) && attrKey(x) == "name" && attrVal(x) == v)
axiom a_mech [grammar]: forall v: str {"mechanism=\"" + v + "\""} :: (let x = "mechanism=\"" + v + "\"" in rep(v) ==> attrItem(x) && attrRel(x) && attrKey(x) == "mechanism" && attrVal(x) == v)
axiom a_exp [grammar]: forall v: str {"expanded=\"" + v + "\""} :: (let x = "expanded=\"" + v + "\"" in rep(v) ==> attrItem(x) && attrRel(x) && attrKey(x) == "expanded" && attrVal(x) == v)
axiom a_verb [grammar]: forall v: str {"verb=\"" + v + "\""} :: (let x = "verb=\"" + v + "\"" in rep(v) ==> attrRel(x) && attrKey(x) == "verb" && attrVal(x) == v)
axiom a_type [grammar]: forall v: str {"type=" + v} :: (let x = "type=" + v in typeOfName(v) != 0 ==> attrItem(x) && attrKey(x) == "type" && attrVal(x) == v)
axiom a_ext [grammar]: (let x = "external=true" in attrItem(x) && attrKey(x) == "external" && attrVal(x) == "true") && (let x = "external=false" in attrItem(x) && attrKey(x) == "external" && attrVal(x) == "false")
axiom a_async [grammar]: (let x = "async=true" in attrRel(x) && attrKey(x) == "async" && attrVal(x) == "true") && (let x = "async=false" in attrRel(x) && attrKey(x) == "async" && attrVal(x) == "false")

axiom t_item0 [grammar]: forall id: str {"item \"" + id + "\""} :: (let t = "item \"" + id + "\"" in rep(id) ==> accepts(t) && isItemText(t) && t != "nil" && pId(t) == id && (forall k: str {pHas(t,k)} :: !pHas(t,k)))
axiom t_item [grammar]: forall id: str, A: array(int,str), n: int {"item \"" + id + "\" " + joinS(A,n," ")} :: (let t = "item \"" + id + "\" " + joinS(A,n," ") in rep(id) && n > 0 && attrsItem(A,n) ==>
   accepts(t) && isItemText(t) && t != "nil" && pId(t) == id && (forall k: str {pHas(t,k)} {pVal(t,k)} :: (pHas(t,k) <==> attrsHas(A,n,k)) && (pHas(t,k) ==> pVal(t,k) == attrsVal(A,n,k))))
axiom t_rel0 [grammar]: forall a: str, b: str {"rel \"" + a + "\" \"" + b + "\""} :: (let t = "rel \"" + a + "\" \"" + b + "\"" in rep(a) && rep(b) ==>
   accepts(t) && isRelText(t) && pId(t) == a && pSecN(t) == 1 && pSec(t) == b && (forall k: str {pHas(t,k)} :: !pHas(t,k)))
axiom t_rel [grammar]: forall a: str, b: str, A: array(int,str), n: int {"rel \"" + a + "\" \"" + b + "\" " + joinS(A,n," ")} :: (let t = "rel \"" + a + "\" \"" + b + "\" " + joinS(A,n," ") in rep(a) && rep(b) && n > 0 && attrsRel(A,n) ==>
   accepts(t) && isRelText(t) && pId(t) == a && pSecN(t) == 1 && pSec(t) == b && (forall k: str {pHas(t,k)} {pVal(t,k)} :: (pHas(t,k) <==> attrsHas(A,n,k)) && (pHas(t,k) ==> pVal(t,k) == attrsVal(A,n,k))))

func strings.Join
trusted
params elems sep
results r
ensures r: r == joinS(vals(elems), len(elems), sep)

// ---------------------------------------------------------------- items
def repItem(i: Item): bool = rep(i.Id) && rep(i.Name) && rep(i.Mechanism) && rep(i.Expanded) && typeOk(i.Type)
def txt(s: str, k: str): str = ite(pHas(s,k), pVal(s,k), "")
def readItem(s: str): Item = setf(setf(setf(setf(setf(setf(zero(Item), Id, pId(s)), External, pHas(s,"external") && pVal(s,"external") == "true"),
   Type, ite(pHas(s,"type"), typeFrom(pVal(s,"type")), 0)), Name, txt(s,"name")), Mechanism, txt(s,"mechanism")), Expanded, txt(s,"expanded"))

func world.(Item).String
params i
results r
assert [C14] fields: repItem(i) ==> pId(r) == i.Id && (pHas(r,"external") && pVal(r,"external") == "true" <==> i.External) && txt(r,"name") == i.Name && txt(r,"mechanism") == i.Mechanism && txt(r,"expanded") == i.Expanded
assert [C14] type: repItem(i) ==> ite(pHas(r,"type"), typeFrom(pVal(r,"type")), 0) == i.Type && (pHas(r,"type") ==> knownType(pVal(r,"type")))
ensures [C14] accepted: repItem(i) ==> accepts(r) && isItemText(r) && r != "nil" && (pHas(r,"type") ==> knownType(pVal(r,"type")))
ensures [C14] value: repItem(i) ==> readItem(r) == i

func world.(Rel).String
params x
results r
assert [C14] fields: repRel(x) ==> pId(r) == x.From.Id && pSecN(r) == 1 && pSec(r) == x.To.Id && (pHas(r,"async") && pVal(r,"async") == "true" <==> x.Async) && txt(r,"verb") == x.Verb && txt(r,"mechanism") == x.Mechanism && txt(r,"expanded") == x.Expanded
ensures [C14] accepted: repRel(x) ==> accepts(r) && isRelText(r) && pSecN(r) == 1
ensures [C14] value: repRel(x) ==> readRel(r, x.From, x.To) == x && pId(r) == x.From.Id && pSec(r) == x.To.Id

def repRel(x: Rel): bool = rep(x.From.Id) && rep(x.To.Id) && rep(x.Verb) && rep(x.Mechanism) && rep(x.Expanded)
def readRel(s: str, a: Item, b: Item): Rel = setf(setf(setf(setf(setf(setf(zero(Rel), From, a), To, b), Verb, txt(s,"verb")), Mechanism, txt(s,"mechanism")),
   Async, pHas(s,"async") && pVal(s,"async") == "true"), Expanded, txt(s,"expanded"))

scenario world.itemRoundTrip
vars i: Item
requires rep: repItem(i)
exec s := world.(Item).String (i)
exec r, err := world.ItemFromString (s)
ensures [C14] same: err == nil && r == i

scenario world.relRoundTrip
vars w: *world, x: Rel
requires wf: wf(w)
requires rep: repRel(x)
requires ends: x.From.Id in w.Items && x.From == vals(w.Items)[x.From.Id] && x.To.Id in w.Items && x.To == vals(w.Items)[x.To.Id]
exec s := world.(Rel).String (x)
exec r, err := world.RelFromString (w, s)
ensures [C14] same: err == nil && r == x
