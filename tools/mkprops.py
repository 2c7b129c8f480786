import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))
W="pkg/world/world.go"; T="pkg/world/tree.go"; I="pkg/world/item.go"; R="pkg/world/rel.go"; C="pkg/app/command.go"; A="pkg/app/main.go"; G="pkg/grammar/main.go"; E="pkg/errors/main.go"; F="pkg/persistence/main.go"
st_world=[dict(name="items",meaning="item id -> item attributes",where=W),dict(name="tree",meaning="containment hierarchy, parent and component links",where=T),dict(name="rels",meaning="relationships keyed by their ordered endpoint pair",where=W)]

p("C01","Containment is always a forest over exactly the existing items",
  "After any sequence of world operations, every existing item occurs exactly once in the containment hierarchy and nothing else occurs in it. The parent reported for an item and the components reported for that parent always agree. No item ever contains itself, directly or through other items.",
  ["inputs","histories"],"every world reachable by any sequence of create, set, delete, nest, free and relationship operations with any ids and parameters",
  "The tests build two fixed worlds and nest each item at most once; they never move an item twice, nest into a descendant, or delete a nested item, and the invariant ranges over all histories.",
  [W,T],[("AddOrMove / Delete keep parent and component links in step",T),("ItemCreate, ItemDelete, Nest, Free",W)],st_world,["World.Parent, Components, In, ItemParent, ItemComponents, String"])
p("C02","Nest and free move exactly one subtree and change nothing else",
  "A successful nest makes the child a direct component of the named parent, and a free makes the item top-level; whatever the moved item contained moves with it, and no other item's place, no item attribute and no relationship changes. A nest whose child or parent does not exist, or whose parent lies inside the child, is refused with an error and changes nothing; nesting an item into itself changes nothing.",
  ["inputs","histories"],"every well-formed world and every pair of ids",
  "The only test that nests does so once per item and checks only that a saved copy is equal; moves, repeats and refused nests are not exercised.",
  [W,T],[("Nest, Free",W),("AddOrMove",T)],st_world,["World.Nest, Free, then Parent, Components, In, ItemList, RelList"])
p("C03","Deleting an item removes it and its relationships and nothing else",
  "Deleting an item removes that item and every relationship that starts or ends at it; the item's direct components become direct components of the item's former parent (or top-level). Every other item, attribute, containment link and relationship is unchanged, and deleting an id that does not exist changes nothing.",
  ["inputs","histories"],"every well-formed world and every id",
  "No existing test deletes anything.",
  [W,T],[("ItemDelete",W),("tree Delete promotes components",T)],st_world,["World.ItemDelete, then every query"])
p("C04","Relationships connect existing items; an ordered pair identifies one",
  "Both endpoints of every relationship are existing items, and there is at most one relationship for each ordered pair of items. Creating, changing or deleting the relationship of one ordered pair never affects or is confused with that of a different ordered pair, whatever characters the ids contain.",
  ["inputs","histories"],"every reachable world, all pairs of arbitrary id strings",
  "Tests use a handful of short ids without separator characters and never delete items or relationships.",
  [W,R],[("RelCreate, RelSet, RelDelete, ItemDelete",W),("relationship key built from the two ids",R)],st_world,["World.RelList, RelFetch strict"])
p("C05","Item attributes read back exactly as last written, in every view",
  "Creating an item stores exactly the given attributes, and setting an item changes exactly the supplied attributes of exactly that item. Every view of an item (returned value, fetch, list, parent and component lookups, and the endpoints of its relationships) shows its current attributes. Creating an id that already exists changes nothing, returns the existing item, and reports a conflict exactly when a supplied attribute differs.",
  ["inputs","histories"],"every well-formed world, id and combination of supplied attributes",
  "Tests create items with no attributes through the world, so lost or stale attributes are invisible to them.",
  [W,T,I],[("ItemCreate, ItemSet, itemSet, equalItemParams",W)],st_world,["World.ItemCreate(...).Item, ItemFetch, ItemList, ItemParent, ItemComponents, RelFetch"])
p("C06","Relationship attributes read back exactly as last written",
  "Creating a relationship between two existing items stores exactly the given attributes and returns that relationship; setting it changes exactly the supplied attributes of exactly that relationship; deleting it removes exactly that relationship. Creating a pair that already exists changes nothing, returns the existing relationship, and reports a conflict exactly when a supplied attribute differs. Creating with a missing endpoint, or setting a missing relationship, reports an error and changes nothing.",
  ["inputs","histories"],"every well-formed world, pair of ids and combination of supplied attributes",
  "Relationship tests cover text conversion of one value; relationships are only ever created with no attributes.",
  [W,R],[("RelCreate, RelSet, RelDelete, relSet, equalRelParams",W)],st_world,["World.RelCreate(...).Rel, RelFetch, RelList"])
p("C07","Containment queries and listings are exact",
  "Parent, component and containment queries answer exactly according to the containment hierarchy: components lists each direct component once, a non-strict containment query is true exactly when the two ids are equal or the first lies at any depth inside the second, and a strict one only when they are the same existing item. Item and relationship lists return each existing element at most once, all of them when the limit is not positive, and otherwise as many as the limit allows.",
  ["inputs","histories"],"every well-formed world of any depth and size, all ids and limits",
  "Tests query a two-level tree of three nodes; depth, repetition and limits are not sampled.",
  [W,T],[("In, Parent, Components, ItemParent, ItemComponents, ItemList, RelList",W),("Find, Has",T)],st_world,["the query results"])
p("C08","Relationship queries return exactly the matching relationships",
  "A strict relationship query returns exactly the relationships whose endpoint ids equal the given ids. A non-strict one returns exactly those whose endpoints each equal the given item or lie anywhere inside it; this holds for querying by source, by destination and by both. Each matching relationship is returned once and nothing else is returned.",
  ["inputs","histories"],"every well-formed world, all ids, both strictness modes",
  "No existing test runs a relationship query.",
  [W,T],[("RelFetch, RelTo, RelFrom",W),("GetDescendantIds",T)],st_world,["World.RelFetch, RelTo, RelFrom"])
p("C09","A failed operation changes nothing and an error belongs to its own operation",
  "When a mutating world operation reports an error, items, containment and relationships are exactly as before the call. A mutating operation that succeeds leaves no error behind from earlier operations, and one that is refused always reports one.",
  ["inputs","histories"],"every well-formed world, every mutating operation and argument",
  "No existing test provokes an operation error.",
  [W],[("resetLatestTrackers and the error paths of each operation",W)],[dict(name="latest error",meaning="outcome of the last operation",where=W)],["World.Err, WorldWithItem.Item, WorldWithRel.Rel"])
p("C10","Undo exactly reverses any executed command",
  "For every command and every world, executing the command and then undoing it leaves the same items with the same attributes, the same containment and the same relationships with the same attributes as before.",
  ["inputs","programs","histories"],"every command kind, every argument, every well-formed world",
  "No existing test calls undo.",
  [C,W],[("Execute / Undo of each command",C)],st_world,["world contents before execute and after undo"])
p("C11","Undo/redo history is linear and replays the right command",
  "Executing a command makes it the last entry of the history and discards anything that could have been redone. Undo steps back exactly one command, redo runs again exactly the command most recently undone and steps forward one, and the can-undo and can-redo indications are true exactly when such a step is available. History always lists exactly the commands currently in effect, in order; only an undo or redo that itself reports an error empties it.",
  ["histories"],"every interleaving of execute, undo and redo",
  "No existing test uses undo, redo or the history.",
  [A],[("exec, undo, redo, History, CanUndo, CanRedo",A)],[dict(name="command list and cursor",meaning="executed commands and how many are in effect",where=A)],["App.History, CanUndo, CanRedo"])
p("C12","Query commands never change the world",
  "Executing or undoing a command that only asks (fetch, list, exists, in?, from?, to?, world) leaves every item, attribute, containment link and relationship exactly as it was.",
  ["inputs","programs"],"every query command, argument and world",
  "Only the bare world query is executed by a test, and its effect on the world is not examined.",
  [C,W,T],[("Execute / Undo of the query commands",C)],st_world,["world contents before and after"])
p("C13","A parsed command line runs the operation it names",
  "For every parsed command the operation that is run is the one its resource type and verb name, on the ids, attributes, limit and flags of the command line; asking for the items in an item lists that item's components. An unknown resource type or verb is rejected with an error.",
  ["inputs","programs"],"every parse result, every verb and resource type",
  "Tests check parse results of sample lines but never which command they turn into or what it does.",
  [C,I,R],[("InputToCommand, itemCommand, relCommand, limitFromInput",C),("ItemParamsFromInput, RelParamsFromInput",I)],[],["InputToCommand result and the effect of executing it"])
p("C14","World text round-trips without loss",
  "Writing a world, item, relationship or containment tree as text and reading that text back yields an equal value: same info, items with all attributes, containment and relationships with all attributes. This holds for every value whose strings the text format can represent.",
  ["inputs"],"all worlds built from strings of letters, digits, spaces and the punctuation the grammar allows in quoted text",
  "Tests round-trip two fixed worlds with no attributes and two items.",
  [W,T,I,R,"pkg/grammar/grammar.peg.go",G],[("String methods and FromString functions",W)],[],["FromString(w.String())"])
p("C15","Equality functions decide exactly observable equality",
  "Item, relationship, tree and world equality return true exactly when there is no observable difference between the two values, independently of the order in which their elements happen to be stored. They are reflexive and symmetric and change no item, containment, relationship or other content of their arguments.",
  ["inputs"],"all pairs of items, relationships, trees and worlds",
  "Tests only compare values that are equal, at small size.",
  [I,R,T,W],[("ItemEqual",I),("RelEqual",R),("TreeEqual",T),("WorldEqual",W)],[],["result of the equality functions"])
p("C16","Every command line gets one well-formed reply",
  "Submitting any text to the application returns a reply: on success one that the grammar accepts as a response with status 200, otherwise an error text that starts with a numeric error code and the word error. Text that is not a command never changes the world or the history.",
  ["inputs"],"all input strings and all world states",
  "One command on an empty world is tested.",
  [A,E,C],[("Exec, okString",A),("error String",E)],[],["App.Exec result"])
p("C17","Error values are immutable and keep what they are given",
  "Deriving a new error value (setting a code or description, adding data, wrapping errors) yields the requested value and never alters the original or any other value derived from it. Standard unwrapping reaches the wrapped error, joined errors contain exactly the non-nil errors given, and the text of an error always starts with its code, the word error, and its quoted description and message.",
  ["inputs","histories"],"all chains of derivations, in any order, of any length",
  "One derivation chain is tested, only for its text.",
  [E],[("UseCode, WithDescription, WithData, ClearData, WithError, Join, Unwrap, String",E)],[],["fields and text of the error values"])
p("C18","Saved worlds can be listed and loaded back",
  "After a world is saved without error, its name appears in the list of worlds and loading that name reads exactly the text that was saved; other saved worlds are unaffected. Listing reports exactly the saved world files.",
  ["inputs","histories"],"all world names that are plain file names, all directory contents",
  "One save and load of one world is tested; listing, several worlds and other files are not.",
  [F],[("Save, Load, ListWorlds",F)],[],["files in the source path, ListWorlds, Load"])
p("C19","World and application operations never panic",
  "No sequence of world operations and no command, executed, undone or redone in any world, ends in a runtime panic (nil dereference, index out of range, write to a nil map, failed assertion).",
  ["inputs","histories"],"all arguments and all reachable worlds",
  "A panic needs only one unforeseen argument; tests pass a few dozen.",
  [W,T,C,A,R],[("all operations",W)],[],["absence of panics"])
p("C20","Item types and their names correspond one to one",
  "Every item type has a name that converts back to that type, distinct types have distinct names, and text that is not a type name is not accepted as one. Creating or setting an item with a type name gives it exactly that type, and text that is neither the name nor the number of a type is refused.",
  ["inputs"],"all type values and all strings",
  "No existing test gives an item a type.",
  [I,W],[("ItemTypeFromString, StringFromItemType",I),("itemSet",W)],[],["Item type after create / set; text of an item"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
