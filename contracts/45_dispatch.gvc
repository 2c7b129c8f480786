package app

// ---------------------------------------------------------------- from a parsed command line to the command (C13)
def itemParams(p: world.ItemParams, input: grammar.InputAttributes): bool =
   (p.External != nil <==> "external" in input.Params) && (p.External != nil ==> *p.External == (input.Params["external"] == "true"))
   && (p.Type != nil <==> "type" in input.Params) && (p.Type != nil ==> *p.Type == input.Params["type"])
   && (p.Name != nil <==> "name" in input.Params) && (p.Name != nil ==> *p.Name == input.Params["name"])
   && (p.Mechanism != nil <==> "mechanism" in input.Params) && (p.Mechanism != nil ==> *p.Mechanism == input.Params["mechanism"])
   && (p.Expanded != nil <==> "expanded" in input.Params) && (p.Expanded != nil ==> *p.Expanded == input.Params["expanded"])
def relParams(p: world.RelParams, input: grammar.InputAttributes): bool =
   (p.Async != nil <==> "async" in input.Params) && (p.Async != nil ==> *p.Async == (input.Params["async"] == "true"))
   && (p.Verb != nil <==> "verb" in input.Params) && (p.Verb != nil ==> *p.Verb == input.Params["verb"])
   && (p.Mechanism != nil <==> "mechanism" in input.Params) && (p.Mechanism != nil ==> *p.Mechanism == input.Params["mechanism"])
   && (p.Expanded != nil <==> "expanded" in input.Params) && (p.Expanded != nil ==> *p.Expanded == input.Params["expanded"])
def limitOf(input: grammar.InputAttributes): int = ite("limit" in input.Params && atoiOk(input.Params["limit"]), atoiVal(input.Params["limit"]), 0)
def isBase(c: CommandBase, input: grammar.InputAttributes): bool =
   c.InputAttributes == input && c.ResourceType == input.ResourceType && c.Id == input.ResourceId && c.Flags != nil
   && (forall f: str {f in c.Flags} :: f in c.Flags <==> inSl(vals(input.Flags), len(input.Flags), f))

def needsSecond(input: grammar.InputAttributes): bool =
   (input.ResourceType == "item" && (input.Verb == "nest" || input.Verb == "in?"))
   || (input.ResourceType == "rel" && (input.Verb == "create" || input.Verb == "fetch" || input.Verb == "set" || input.Verb == "clear" || input.Verb == "delete"
      || input.Verb == "exists" || input.Verb == "create-or-fetch" || input.Verb == "create-or-set"))

func world.ItemParamsFromInput
params input
results r
ensures [C13] params: itemParams(r, input)

func world.RelParamsFromInput
params input
results r
ensures [C13] params: relParams(r, input)

func app.limitFromInput
params input
results r
ensures [C13] limit: r == limitOf(input)

func app.InputToCommand
params input
results r err
// the grammar gives every verb that names a second item at least one second id
requires second: needsSecond(input) ==> len(input.SecondaryIds) > 0
inv (b: CommandBase, seq: []string, idx: int) b.InputAttributes == input && b.ResourceType == input.ResourceType && b.Id == input.ResourceId && isnew(b.Flags)
inv (b: CommandBase, seq: []string, idx: int) forall f: str {f in b.Flags} :: f in b.Flags <==> inSl(vals(seq), idx, f)
ensures [C13] world: input.ResourceType == "world" ==> err == nil && istype(*WorldFetchCommand, r) && unbox(*WorldFetchCommand, r).InputAttributes == input
ensures [C13] item_create: input.ResourceType == "item" && input.Verb == "create" ==> err == nil && istype(*ItemCreateCommand, r) && isBase(unbox(*ItemCreateCommand, r).CommandBase, input) && itemParams(unbox(*ItemCreateCommand, r).Params, input)
ensures [C13] item_fetch: input.ResourceType == "item" && input.Verb == "fetch" ==> err == nil && istype(*ItemFetchCommand, r) && isBase(unbox(*ItemFetchCommand, r).CommandBase, input)
ensures [C13] item_set: input.ResourceType == "item" && input.Verb == "set" ==> err == nil && istype(*ItemSetCommand, r) && isBase(unbox(*ItemSetCommand, r).CommandBase, input) && itemParams(unbox(*ItemSetCommand, r).Params, input)
ensures [C13] item_clear: input.ResourceType == "item" && input.Verb == "clear" ==> err == nil && istype(*ItemClearCommand, r) && isBase(unbox(*ItemClearCommand, r).CommandBase, input) && itemParams(unbox(*ItemClearCommand, r).Params, input)
ensures [C13] item_delete: input.ResourceType == "item" && input.Verb == "delete" ==> err == nil && istype(*ItemDeleteCommand, r) && isBase(unbox(*ItemDeleteCommand, r).CommandBase, input)
ensures [C13] item_nest: input.ResourceType == "item" && input.Verb == "nest" ==> err == nil && istype(*ItemNestCommand, r) && isBase(unbox(*ItemNestCommand, r).CommandBase, input) && unbox(*ItemNestCommand, r).Ids == input.ResourceIds && unbox(*ItemNestCommand, r).ParentId == vals(input.SecondaryIds)[0]
ensures [C13] item_free: input.ResourceType == "item" && input.Verb == "free" ==> err == nil && istype(*ItemFreeCommand, r) && isBase(unbox(*ItemFreeCommand, r).CommandBase, input) && unbox(*ItemFreeCommand, r).Ids == input.ResourceIds
ensures [C13] item_exists: input.ResourceType == "item" && input.Verb == "exists" ==> err == nil && istype(*ItemExistsCommand, r) && isBase(unbox(*ItemExistsCommand, r).CommandBase, input)
ensures [C13] item_in: input.ResourceType == "item" && input.Verb == "in?" ==> err == nil && istype(*ItemInQueryCommand, r) && isBase(unbox(*ItemInQueryCommand, r).CommandBase, input) && unbox(*ItemInQueryCommand, r).ParentId == vals(input.SecondaryIds)[0]
ensures [C13] item_create_or_fetch: input.ResourceType == "item" && input.Verb == "create-or-fetch" ==> err == nil && istype(*ItemCreateOrFetchCommand, r) && isBase(unbox(*ItemCreateOrFetchCommand, r).CommandBase, input)
ensures [C13] item_create_or_set: input.ResourceType == "item" && input.Verb == "create-or-set" ==> err == nil && istype(*ItemCreateOrSetCommand, r) && isBase(unbox(*ItemCreateOrSetCommand, r).CommandBase, input) && itemParams(unbox(*ItemCreateOrSetCommand, r).Params, input)
ensures [C13] item_list_all: input.ResourceType == "item" && input.Verb == "list" && input.ResourceId == "" ==> err == nil && istype(*ItemListCommand, r) && isBase(unbox(*ItemListCommand, r).CommandBase, input) && unbox(*ItemListCommand, r).Limit == limitOf(input)
ensures [C13] item_list_in: input.ResourceType == "item" && input.Verb == "list" && input.ResourceId != "" ==> err == nil && istype(*ItemComponentsListCommand, r) && isBase(unbox(*ItemComponentsListCommand, r).CommandBase, input)
ensures [C13] item_unknown: input.ResourceType == "item" && input.Verb != "create" && input.Verb != "fetch" && input.Verb != "set" && input.Verb != "clear" && input.Verb != "delete" && input.Verb != "nest" && input.Verb != "free" && input.Verb != "exists" && input.Verb != "in?" && input.Verb != "create-or-fetch" && input.Verb != "create-or-set" && input.Verb != "list" ==> err != nil
ensures [C13] rel_create: input.ResourceType == "rel" && input.Verb == "create" ==> err == nil && istype(*RelCreateCommand, r) && isBase(unbox(*RelCreateCommand, r).CommandBase, input) && unbox(*RelCreateCommand, r).ToId == vals(input.SecondaryIds)[0] && relParams(unbox(*RelCreateCommand, r).Params, input)
ensures [C13] rel_fetch: input.ResourceType == "rel" && input.Verb == "fetch" ==> err == nil && istype(*RelFetchCommand, r) && isBase(unbox(*RelFetchCommand, r).CommandBase, input) && unbox(*RelFetchCommand, r).ToId == vals(input.SecondaryIds)[0]
ensures [C13] rel_list: input.ResourceType == "rel" && input.Verb == "list" ==> err == nil && istype(*RelListCommand, r) && isBase(unbox(*RelListCommand, r).CommandBase, input) && unbox(*RelListCommand, r).Limit == limitOf(input)
ensures [C13] rel_set: input.ResourceType == "rel" && input.Verb == "set" ==> err == nil && istype(*RelSetCommand, r) && isBase(unbox(*RelSetCommand, r).CommandBase, input) && unbox(*RelSetCommand, r).ToId == vals(input.SecondaryIds)[0] && relParams(unbox(*RelSetCommand, r).Params, input)
ensures [C13] rel_clear: input.ResourceType == "rel" && input.Verb == "clear" ==> err == nil && istype(*RelClearCommand, r) && isBase(unbox(*RelClearCommand, r).CommandBase, input) && unbox(*RelClearCommand, r).ToId == vals(input.SecondaryIds)[0] && relParams(unbox(*RelClearCommand, r).Params, input)
ensures [C13] rel_delete: input.ResourceType == "rel" && input.Verb == "delete" ==> err == nil && istype(*RelDeleteCommand, r) && isBase(unbox(*RelDeleteCommand, r).CommandBase, input) && unbox(*RelDeleteCommand, r).ToId == vals(input.SecondaryIds)[0]
ensures [C13] rel_exists: input.ResourceType == "rel" && input.Verb == "exists" ==> err == nil && istype(*RelExistsCommand, r) && isBase(unbox(*RelExistsCommand, r).CommandBase, input) && unbox(*RelExistsCommand, r).ToId == vals(input.SecondaryIds)[0]
ensures [C13] rel_to: input.ResourceType == "rel" && input.Verb == "to?" ==> err == nil && istype(*RelToQueryCommand, r) && isBase(unbox(*RelToQueryCommand, r).CommandBase, input)
ensures [C13] rel_from: input.ResourceType == "rel" && input.Verb == "from?" ==> err == nil && istype(*RelFromQueryCommand, r) && isBase(unbox(*RelFromQueryCommand, r).CommandBase, input)
ensures [C13] rel_create_or_fetch: input.ResourceType == "rel" && input.Verb == "create-or-fetch" ==> err == nil && istype(*RelCreateOrFetchCommand, r) && isBase(unbox(*RelCreateOrFetchCommand, r).CommandBase, input) && unbox(*RelCreateOrFetchCommand, r).ToId == vals(input.SecondaryIds)[0]
ensures [C13] rel_create_or_set: input.ResourceType == "rel" && input.Verb == "create-or-set" ==> err == nil && istype(*RelCreateOrSetCommand, r) && isBase(unbox(*RelCreateOrSetCommand, r).CommandBase, input) && unbox(*RelCreateOrSetCommand, r).ToId == vals(input.SecondaryIds)[0] && relParams(unbox(*RelCreateOrSetCommand, r).Params, input)
ensures [C13] rel_unknown: input.ResourceType == "rel" && input.Verb != "create" && input.Verb != "fetch" && input.Verb != "list" && input.Verb != "set" && input.Verb != "clear" && input.Verb != "delete" && input.Verb != "exists" && input.Verb != "to?" && input.Verb != "from?" && input.Verb != "create-or-fetch" && input.Verb != "create-or-set" ==> err != nil
ensures [C13] unknown: input.ResourceType != "world" && input.ResourceType != "item" && input.ResourceType != "rel" ==> err != nil
ensures [C11,C19] cmd: err == nil ==> cmdOk(ref(r))
