package app

// ---------------------------------------------------------------- the history of an application (C11)
// what was run, in order: the command, whether it was executed (1) or undone (2), and the world it ran on
ghost ranN: int
ghost ranCmd: array(int,ref)
ghost ranHow: array(int,int)
ghost ranOn: array(int,ref)

def ran(c: ref, how: int, w: ref): bool =
   ranN == old(ranN)+1 && ranCmd == upd(old(ranCmd), old(ranN), c) && ranHow == upd(old(ranHow), old(ranN), how) && ranOn == upd(old(ranOn), old(ranN), w)
def ranNothing(): bool = ranN == old(ranN) && ranCmd == old(ranCmd) && ranHow == old(ranHow) && ranOn == old(ranOn)

// what InputToCommand guarantees about a command, and executing it keeps
def cmdOk(c: ref): bool = c != nil
   && (istype(*ItemCreateCommand, c) ==> unbox(*ItemCreateCommand, c).Flags != nil)
   && (istype(*ItemFetchCommand, c) ==> unbox(*ItemFetchCommand, c).Flags != nil)
   && (istype(*ItemListCommand, c) ==> unbox(*ItemListCommand, c).Flags != nil)
   && (istype(*ItemSetCommand, c) ==> unbox(*ItemSetCommand, c).Flags != nil)
   && (istype(*ItemClearCommand, c) ==> unbox(*ItemClearCommand, c).Flags != nil)
   && (istype(*ItemDeleteCommand, c) ==> unbox(*ItemDeleteCommand, c).Flags != nil)
   && (istype(*ItemNestCommand, c) ==> unbox(*ItemNestCommand, c).Flags != nil)
   && (istype(*ItemFreeCommand, c) ==> unbox(*ItemFreeCommand, c).Flags != nil)
   && (istype(*ItemExistsCommand, c) ==> unbox(*ItemExistsCommand, c).Flags != nil)
   && (istype(*ItemCreateOrFetchCommand, c) ==> unbox(*ItemCreateOrFetchCommand, c).Flags != nil)
   && (istype(*ItemCreateOrSetCommand, c) ==> unbox(*ItemCreateOrSetCommand, c).Flags != nil)
   && (istype(*ItemComponentsListCommand, c) ==> unbox(*ItemComponentsListCommand, c).Flags != nil)
   && (istype(*ItemInQueryCommand, c) ==> unbox(*ItemInQueryCommand, c).Flags != nil)
   && (istype(*RelCreateCommand, c) ==> unbox(*RelCreateCommand, c).Flags != nil)
   && (istype(*RelFetchCommand, c) ==> unbox(*RelFetchCommand, c).Flags != nil)
   && (istype(*RelListCommand, c) ==> unbox(*RelListCommand, c).Flags != nil)
   && (istype(*RelClearCommand, c) ==> unbox(*RelClearCommand, c).Flags != nil)
   && (istype(*RelExistsCommand, c) ==> unbox(*RelExistsCommand, c).Flags != nil)
   && (istype(*RelToQueryCommand, c) ==> unbox(*RelToQueryCommand, c).Flags != nil)
   && (istype(*RelFromQueryCommand, c) ==> unbox(*RelFromQueryCommand, c).Flags != nil)
   && (istype(*RelCreateOrFetchCommand, c) ==> unbox(*RelCreateOrFetchCommand, c).Flags != nil)
   && (istype(*RelCreateOrSetCommand, c) ==> unbox(*RelCreateOrSetCommand, c).Flags != nil)
   && (istype(*RelSetCommand, c) ==> unbox(*RelSetCommand, c).Flags != nil)
   && (istype(*RelDeleteCommand, c) ==> unbox(*RelDeleteCommand, c).Flags != nil)

abstract app.Command.Execute
params c w
results r err
requires wf: wf(w)
requires cmd: cmdOk(ref(c))
inv (idx: int) wf(w)
inv (i: int) wf(w)
inv (i: int) i < len(c.moves)
ensures [C19] wf: wf(w)
ensures [C16] answer: r != nil
modifies auto:app.Command.Execute ; ranN ; ranCmd ; ranHow ; ranOn
defines ran: ran(c, 1, ref(w))

abstract app.Command.Undo
params c w
results err
requires wf: wf(w)
requires cmd: cmdOk(ref(c))
inv (idx: int) wf(w)
inv (i: int) wf(w)
inv (i: int) i < len(c.moves)
ensures [C19] wf: wf(w)
modifies auto:app.Command.Undo ; ranN ; ranCmd ; ranHow ; ranOn
defines ran: ran(c, 2, ref(w))

def hist(h: *app): bool = h != nil && -1 <= h.commandsIdx && h.commandsIdx < len(h.commands) && wf(h.world)
   && (forall j: int {effect(h,j)} :: 0 <= j && j < len(h.commands) ==> cmdOk(effect(h,j)))
def effect(h: *app, j: int): ref = ref(h.commands[j])

func app.(*app).exec
params h c
results r err
requires hist: hist(h)
requires cmd: cmdOk(ref(c))
modifies app.app.commands @ h ; app.app.commandsIdx @ h ; elem:app.Command ; auto:app.Command.Execute ; ranN ; ranCmd ; ranHow ; ranOn
ensures [C11] hist: hist(h)
ensures [C11] last: h.commandsIdx == old(h.commandsIdx)+1 && effect(h, h.commandsIdx) == ref(c)
ensures [C11] noredo: len(h.commands) == h.commandsIdx+1
ensures [C11] before: forall j: int {effect(h,j)} :: 0 <= j && j <= old(h.commandsIdx) ==> effect(h,j) == old(effect(h,j))
ensures [C11] ran: ran(ref(c), 1, ref(old(h.world)))
ensures [C16] answer: r != nil

func app.(*app).undo
params h
results err n
requires hist: hist(h)
modifies app.app.commands @ h ; app.app.commandsIdx @ h ; auto:app.Command.Undo ; ranN ; ranCmd ; ranHow ; ranOn
ensures [C11] hist: hist(h)
ensures [C11] nothing: old(h.commandsIdx) < 0 ==> err == nil && ranNothing() && h.commandsIdx == old(h.commandsIdx) && len(h.commands) == old(len(h.commands))
ensures [C11] ran: old(h.commandsIdx) >= 0 ==> ran(old(effect(h, h.commandsIdx)), 2, ref(old(h.world)))
ensures [C11] back: err == nil && old(h.commandsIdx) >= 0 ==> h.commandsIdx == old(h.commandsIdx)-1 && len(h.commands) == old(len(h.commands))
ensures [C11] kept: err == nil ==> (forall j: int {effect(h,j)} :: 0 <= j && j < old(len(h.commands)) ==> effect(h,j) == old(effect(h,j)))
ensures [C11] emptied: err != nil ==> h.commandsIdx == -1 && len(h.commands) == 0

func app.(*app).redo
params h
results err n
requires hist: hist(h)
modifies app.app.commands @ h ; app.app.commandsIdx @ h ; auto:app.Command.Execute ; ranN ; ranCmd ; ranHow ; ranOn
ensures [C11] hist: hist(h)
ensures [C11] nothing: old(h.commandsIdx+1 >= len(h.commands)) ==> err == nil && ranNothing() && h.commandsIdx == old(h.commandsIdx) && len(h.commands) == old(len(h.commands))
ensures [C11] ran: old(h.commandsIdx+1 < len(h.commands)) ==> ran(old(effect(h, h.commandsIdx+1)), 1, ref(old(h.world)))
ensures [C11] forward: err == nil && old(h.commandsIdx+1 < len(h.commands)) ==> h.commandsIdx == old(h.commandsIdx)+1 && len(h.commands) == old(len(h.commands))
ensures [C11] kept: err == nil ==> (forall j: int {effect(h,j)} :: 0 <= j && j < old(len(h.commands)) ==> effect(h,j) == old(effect(h,j)))
ensures [C11] emptied: err != nil ==> h.commandsIdx == -1 && len(h.commands) == 0

func app.(*app).CanUndo
params h
results r
requires hist: hist(h)
ensures [C11] r: r <==> h.commandsIdx >= 0

func app.(*app).CanRedo
params h
results r
requires hist: hist(h)
ensures [C11] r: r <==> h.commandsIdx+1 < len(h.commands)

func app.(*app).History
params h
results r
requires hist: hist(h)
ensures [C11] len: len(r) == h.commandsIdx+1
ensures [C11] same: forall j: int {r[j]} :: 0 <= j && j <= h.commandsIdx ==> ref(r[j]) == effect(h,j)

func app.NewApp
params world
results r err
ensures [C11] empty: err == nil ==> h0(r) && r.world == world && (wf(world) ==> hist(r))
ensures [C11] refused: err != nil <==> world == nil
def h0(h: *app): bool = h.commandsIdx == -1 && len(h.commands) == 0

func os.Getenv
trusted
params k
results r
