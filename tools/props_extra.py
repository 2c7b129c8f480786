U = "For all well-formed worlds and all commands. "
PROPS["C10"] = P(note=U + "For each of the 16 mutating commands the scenario 'execute, then undo' over the contracts of the world operations (the bodies of Execute and Undo are part of the scenario) ends in the same items, parents and relationships.",
  assumptions=["C10: node identity is not part of the compared state: an item deleted and restored may be held by a new node of the tree"])
PROPS["C11"] = P(note="For all histories and all commands: exec, undo, redo, CanUndo, CanRedo, History and NewApp proved against a log of what was executed or undone (ghost state), with the list of commands described entry by entry.")
PROPS["C12"] = P(note=U + "Execute and Undo of each of the 11 query commands proved to leave items, links, parents and relationships as they were.")
PROPS["C17"] = P(note="For all error values: each deriving function proved to return the requested value and to change no memory that existed before; text prefix, Unwrap and Join proved.")
GR = ["grammar.Parse (the generated parser) has a contract that is taken on trust: it answers the same for the same text, and a command that names a second item carries a second id; it is exercised at run time only"]
PROPS["C13"] = P(note="For all parsed inputs: InputToCommand proved, verb by verb, to return the command of that verb with the ids, attributes, limit and flags of the input, and to refuse everything else; the query commands proved to answer from the world. That the parser fills the input correctly is checked at run time only (bounded).",
  assumptions=GR, bounded=["parsing of the command line text into InputAttributes (generated PEG parser): sampled executions"])
PROPS["C16"] = P(note="For all texts and all histories: Exec proved to return an error text (code, the word error) or a text the parser accepts as a response with status 200, and to leave history and world alone when the text is not a command. Termination of the generated parser is not proved.",
  assumptions=GR, bounded=["the generated PEG parser itself: sampled executions"])
PROPS["C19"] = P(note="For all well-formed worlds, all histories and all commands: every nil dereference, index, slice bound, map write, failed assertion and nil interface call in the functions under contract (and in what is inlined into them) is proved impossible; each command, executed or undone in any state, is proved to keep the world well-formed.",
  safety=True, assumptions=GR + ["C19: stack exhaustion by recursion over very deep trees is not considered", "C19: library functions do not panic"],
  not_covered=["the generated PEG parser"])
PROPS["C15"] = P(note="For all values: ItemEqual and RelEqual proved equal to equality of every field; WorldEqual, for all well-formed worlds, proved true exactly when info, items, parents and relationships agree, and symmetric; TreeEqual, for all trees whose sibling ids differ, proved true exactly when the trees correspond component by component. The order elements are stored or enumerated in is arbitrary in the proof, and the arguments are proved unmodified (a world's record of its last operation apart).",
  assumptions=["C15: trees are finite and siblings carry different ids; sort.Slice and slices.Sort sort as documented"])
PROPS["C18"] = P(note="For all directory contents, names and well-formed worlds: Save, Load, ListWorlds and SetSourcePath proved against a ghost file system (which paths are files, what text each holds), and the scenario save, list, load proved to list the name and to hand exactly the saved text to the reader.",
  assumptions=["C18: the contracts of os.WriteFile, os.ReadFile, os.Stat, os.ReadDir, filepath.Join/Base/Ext, strings.HasSuffix/TrimSuffix are assumed; reading an existing file succeeds (no device failure, no missing permission)",
    "C18: a name with a path separator is refused by Save and not considered by Load"])
PROPS["C14"] = P(note="For all values whose strings the format can hold: a world written by String and read by FromString is proved to have the same info, items with all attributes, containment and relationships with all attributes (scenario over the contracts of both); likewise for single items and relationships. A containment tree written by String and read by TreeFromString is proved to have the same items, one inside the other as before.",
  assumptions=GR + ["C14: what the grammar reads from a text written by a String method is stated as axioms (marked [grammar]) and in the contract of grammar.Parse, and taken on trust; exercised at run time"],
  bounded=["the generated PEG parser itself: sampled executions"])
