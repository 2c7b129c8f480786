package persistence

// ---------------------------------------------------------------- the file system, as far as saving and loading rely on it (C18)
// which paths are files, and what text they hold
ghost fsFile: array(str,bool)
ghost fsText: array(str,str)
// the text the last world was written as, the text the last world was read from
ghost lastText: str
ghost lastRead: str
// no device failure, enough space and permission
fun ioOk(): bool
fun pjoin(dir: str, name: str): str
fun pname(path: str): str
fun pbase(p: str): str
fun pext(p: str): str
fun bytestr(A: array(int,int), n: int): str
fun fs_DirEntry_Name(e: any): str
fun fs_DirEntry_IsDir(e: any): bool
fun entryOf(dir: str, name: str): int
def plain(n: str): bool = pbase(n) == n && pext(n) == ".world"
axiom pjoin_ax [library]: forall d: str, n: str {pjoin(d,n)} :: plain(n) ==> pname(pjoin(d,n)) == n
axiom pext_suffix [library]: forall s: str {pext(s)} :: substr(s, 0, len(s) - len(pext(s))) + pext(s) == s && len(pext(s)) <= len(s)
axiom pext_world [library]: forall s: str {s + ".world"} :: pext(s + ".world") == ".world"
axiom stem_world [library]: forall s: str {s + ".world"} :: stem(s + ".world") == s

func filepath.Join
trusted
params elem
results r
ensures r: len(elem) == 2 ==> r == pjoin(elem[0], elem[1])

func filepath.Base
trusted
params p
results r
ensures r: r == pbase(p)

func filepath.Ext
trusted
params p
results r
ensures r: r == pext(p)

fun hasSuf(s: str, t: str): bool
axiom hasSuf_world [library]: forall s: str {hasSuf(s, ".world")} {pext(s)} :: hasSuf(s, ".world") <==> pext(s) == ".world"

func strings.HasSuffix
trusted
params s t
results r
ensures r: r <==> hasSuf(s, t)

func strings.TrimSuffix
trusted
params s t
results r
ensures r: r == ite(hasSuf(s, t), substr(s, 0, len(s) - len(t)), s)

func os.MkdirAll
trusted
params path perm
results err

func os.WriteFile
trusted
params name data perm
results err
modifies fsFile ; fsText
ensures written: err == nil ==> fsFile == upd(old(fsFile), name, true) && fsText == upd(old(fsText), name, bytestr(vals(data), len(data)))
ensures others: forall p: str {fsFile[p]} {fsText[p]} :: p != name ==> fsFile[p] == old(fsFile[p]) && fsText[p] == old(fsText[p])

func os.ReadFile
trusted
params name
results data err
ensures read: err == nil ==> fsFile[name] && bytestr(vals(data), len(data)) == fsText[name]
ensures ok: fsFile[name] && ioOk() ==> err == nil

func os.Stat
trusted
params name
results info err
ensures ok: fsFile[name] && ioOk() ==> err == nil

func os.ReadDir
trusted
params dir
results entries err
ensures entries: err == nil ==> forall j: int {entries[j]} :: 0 <= j && j < len(entries) ==> entries[j] != nil && pbase(fs_DirEntry_Name(entries[j])) == fs_DirEntry_Name(entries[j])
   && (!fs_DirEntry_IsDir(entries[j]) ==> fsFile[pjoin(dir, fs_DirEntry_Name(entries[j]))])
ensures all: err == nil ==> forall n: str {fsFile[pjoin(dir,n)]} :: fsFile[pjoin(dir,n)] && plain(n) ==>
   0 <= entryOf(dir,n) && entryOf(dir,n) < len(entries) && fs_DirEntry_Name(entries[entryOf(dir,n)]) == n && !fs_DirEntry_IsDir(entries[entryOf(dir,n)])
ensures once: err == nil ==> forall i: int, j: int {entries[i], entries[j]} :: 0 <= i && i < len(entries) && 0 <= j && j < len(entries) && fs_DirEntry_Name(entries[i]) == fs_DirEntry_Name(entries[j]) ==> i == j
ensures ok: ioOk() && (exists n: str :: plain(n) && fsFile[pjoin(dir,n)]) ==> err == nil

def stem(n: str): str = substr(n, 0, len(n) - len(pext(n)))
def worldFile(dir: str, name: str): str = pjoin(dir, name + ".world")

func persistence.(*filePersistence).Save
params fp w
results err
requires fp: fp != nil && w != nil
requires wf: wf(w)
let f = worldFile(fp.directory, w.Name_)
modifies fsFile ; fsText ; lastText
ensures [C18] saved: err == nil ==> fsFile[f] && fsText[f] == lastText
ensures [C18] plain: err == nil ==> plain(w.Name_ + ".world")
ensures [C18] others: forall p: str {fsFile[p]} {fsText[p]} :: p != f ==> fsFile[p] == old(fsFile[p]) && fsText[p] == old(fsText[p])

func persistence.(*filePersistence).Load
params fp name
results r err
requires fp: fp != nil
let f = worldFile(fp.directory, name)
modifies lastRead ; set:Tree ; tree.parent ; mapdom:map[string]Item ; mapval:map[string]Item ; mapdom:map[string]Rel ; mapval:map[string]Rel
ensures [C18] loaded: fsFile[f] && ioOk() ==> lastRead == fsText[f]
ensures [C18] text: err == nil ==> r != nil

func persistence.(*filePersistence).ListWorlds
params fp
results r err
requires fp: fp != nil
inv (seq: []fs.DirEntry, idx: int, acc: []string) isnew(arr(acc)) || len(acc) == 0
inv (seq: []fs.DirEntry, idx: int, acc: []string) forall j: int {acc[j]} :: 0 <= j && j < len(acc) ==> fsFile[worldFile(fp.directory, acc[j])] && plain(acc[j] + ".world")
inv (seq: []fs.DirEntry, idx: int, acc: []string) forall j: int {seq[j]} :: 0 <= j && j < idx && !fs_DirEntry_IsDir(seq[j]) && pext(fs_DirEntry_Name(seq[j])) == ".world" ==> inSl(vals(acc), len(acc), stem(fs_DirEntry_Name(seq[j])))
inv (seq: []fs.DirEntry, idx: int, acc: []string) forall j: int {acc[j]} :: 0 <= j && j < len(acc) ==> entryOf(fp.directory, acc[j] + ".world") < idx
inv (seq: []fs.DirEntry, idx: int, acc: []string) forall i: int, j: int {acc[i], acc[j]} :: 0 <= i && i < len(acc) && 0 <= j && j < len(acc) && acc[i] == acc[j] ==> i == j
ensures [C18] once: err == nil ==> forall i: int, j: int {r[i], r[j]} :: 0 <= i && i < len(r) && 0 <= j && j < len(r) && r[i] == r[j] ==> i == j
ensures [C18] sound: err == nil ==> forall j: int {r[j]} :: 0 <= j && j < len(r) ==> fsFile[worldFile(fp.directory, r[j])] && plain(r[j] + ".world")
ensures [C18] complete: err == nil ==> forall n: str {worldFile(fp.directory, n)} :: fsFile[worldFile(fp.directory, n)] && plain(n + ".world") ==> inSl(vals(r), len(r), n)
ensures [C18] ok: ioOk() && (exists n: str :: plain(n) && fsFile[pjoin(fp.directory,n)]) ==> err == nil

func persistence.(*filePersistence).SetSourcePath
params fp dir
requires fp: fp != nil
modifies persistence.filePersistence.directory @ fp
ensures [C18] dir: fp.directory == dir

scenario persistence.saveThenUse
vars fp: *persistence.filePersistence, w: *world.world
requires fp: fp != nil
requires wf: wf(w)
exec e1 := persistence.(*filePersistence).Save (fp, w)
label saved
exec l, e2 := persistence.(*filePersistence).ListWorlds (fp)
exec r, e3 := persistence.(*filePersistence).Load (fp, w.Name_)
ensures [C18] listed: e1 == nil && ioOk() ==> e2 == nil && inSl(vals(l), len(l), w.Name_)
ensures [C18] read: e1 == nil && ioOk() ==> lastRead == at(saved, lastText)
