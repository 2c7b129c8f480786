package errors

def sameErr(a: TopolithError, b: TopolithError): bool = a.Code == b.Code && a.Description == b.Description && a.Message == b.Message
def keepsData(e: TopolithError, r: TopolithError): bool = len(r.Data) == len(e.Data) && (forall i: int {r.Data[i]} :: 0 <= i && i < len(e.Data) ==> r.Data[i] == old(e.Data[i]))
def keepsErrs(e: TopolithError, r: TopolithError): bool = len(r.errs) == len(e.errs) && (forall i: int {r.errs[i]} :: 0 <= i && i < len(e.errs) ==> r.errs[i] == old(e.errs[i]))

func errors.New
tags C17
params text
results r
ensures code: r.Code == 500 && r.Message == text
ensures empty: len(r.Data) == 0 && len(r.errs) == 0

func errors.(TopolithError).UseCode
tags C17
params e code
results r
ensures code: r.Code == code && r.Message == e.Message
ensures desc: r.Description == ite(code in topolithErrorDescriptions, vals(topolithErrorDescriptions)[code], e.Description)
ensures data: keepsData(e, r) && keepsErrs(e, r)

func errors.(TopolithError).WithDescription
tags C17
params e d
results r
ensures rest: r.Code == e.Code && r.Message == e.Message && r.Description == d
ensures data: keepsData(e, r) && keepsErrs(e, r)

func errors.(TopolithError).WithData
tags C17
params e data
results r
ensures rest: sameErr(e, r) && keepsErrs(e, r)
ensures length: len(r.Data) == len(e.Data) + len(data)
ensures old: forall i: int {r.Data[i]} :: 0 <= i && i < len(e.Data) ==> r.Data[i] == old(e.Data[i])
ensures added: forall i: int {old(data[i])} :: 0 <= i && i < len(data) ==> r.Data[len(e.Data) + i] == old(data[i])

func errors.(TopolithError).ClearData
tags C17
params e
results r
ensures rest: sameErr(e, r) && keepsErrs(e, r)
ensures none: len(r.Data) == 0

func errors.(TopolithError).WithError
tags C17
params e errs
results r
ensures rest: sameErr(e, r) && keepsData(e, r)
ensures length: len(r.errs) == len(e.errs) + len(errs)
ensures old: forall i: int {r.errs[i]} :: 0 <= i && i < len(e.errs) ==> r.errs[i] == old(e.errs[i])
ensures added: forall i: int {old(errs[i])} :: 0 <= i && i < len(errs) ==> r.errs[len(e.errs) + i] == old(errs[i])

func errors.(TopolithError).Unwrap
tags C17
params e
results r
ensures first: len(e.errs) > 0 ==> r == e.errs[0]
ensures none: len(e.errs) == 0 ==> r == nil

// text that starts with a number and the word error
fun errText(s: str): bool
axiom errText_def [defn]: forall s: str, c: int, d: str {startsWith(s, itoa(c) + " error \"" + d)} :: startsWith(s, itoa(c) + " error \"" + d) ==> errText(s)

func errors.(TopolithError).String
tags C17
params e
results r
assert head: startsWith(r, itoa(e.Code) + " error \"" + e.Description + ": " + e.Message + "\"")
ensures head: startsWith(r, itoa(e.Code) + " error \"" + e.Description + ": " + e.Message + "\"")
ensures [C16] err: errText(r)

func errors.(TopolithError).Error
tags C17
params e
results r
ensures head: startsWith(r, itoa(e.Code) + " error \"" + e.Description + ": " + e.Message + "\"")
ensures [C16] err: errText(r)

// nnil(A,n): how many of the first n errors are not nil
fun nnil(A: array(int,any), n: int): int
axiom nnil_def [defn]: forall A: array(int,any), n: int {nnil(A,n)} {A[n]} :: n >= 0 ==> nnil(A,n) >= 0 && nnil(A,0) == 0 && nnil(A,n+1) == nnil(A,n) + ite(A[n] != nil, 1, 0)

func errors.Join
tags C17
params errs
results r
inv (seq: []error, idx: int, acc: TopolithError) len(acc.errs) == nnil(vals(seq), idx)
inv (seq: []error, idx: int, acc: TopolithError) acc.Code == 600 && acc.Message == "multiple errors" && len(acc.Data) == 0
inv (seq: []error, idx: int, acc: TopolithError) forall j: int {seq[j]} :: 0 <= j && j < idx && seq[j] != nil ==> nnil(vals(seq), j) < len(acc.errs) && acc.errs[nnil(vals(seq), j)] == seq[j]
inv (seq: []error, idx: int, acc: []error) len(acc) == nnil(vals(seq), idx)
inv (seq: []error, idx: int, acc: []error) forall j: int {seq[j]} :: 0 <= j && j < idx && seq[j] != nil ==> nnil(vals(seq), j) < len(acc) && acc[nnil(vals(seq), j)] == seq[j]
ensures code: r.Code == 600 && r.Message == "multiple errors" && len(r.Data) == 0
ensures count: len(r.errs) == nnil(vals(errs), len(errs))
ensures each: forall j: int {errs[j]} :: 0 <= j && j < len(errs) && errs[j] != nil ==> r.errs[nnil(vals(errs), j)] == errs[j]
