package main

import (
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// frozenField: the address of a field of a local struct that is used as a value, where after this point nothing writes the
// field and nothing in the program writes a value of this type through a pointer that is not itself such an address.
func (e *Engine) frozenField(ins *ssa.FieldAddr, ft types.Type) bool {
	if _, ok := ft.Underlying().(*types.Basic); !ok {
		return false
	}
	al, ok := ins.X.(*ssa.Alloc)
	if !ok || !al.Heap {
		return false
	}
	asValue := false
	for _, u := range *ins.Referrers() {
		switch u := u.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if u.Addr == ins {
				return false
			}
			asValue = true
		case *ssa.Call, *ssa.Phi, *ssa.MakeInterface:
			asValue = true
		default:
			return false
		}
	}
	if !asValue {
		return false
	}
	writes := map[ssa.Instruction]bool{}
	for _, u := range *al.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Addr != al {
				return false
			}
			writes[u] = true
		case *ssa.UnOp:
			if u.Op != token.MUL {
				return false
			}
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			if u.Field != ins.Field {
				continue
			}
			for _, v := range *u.Referrers() {
				if st, ok := v.(*ssa.Store); ok && st.Addr == u {
					writes[st] = true
				}
			}
		default:
			return false
		}
	}
	// is a write reached from here without passing the allocation?
	seen := map[*ssa.BasicBlock]bool{}
	var from func(b *ssa.BasicBlock, i int) bool
	from = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			if b.Instrs[i] == ssa.Instruction(al) {
				return false
			}
			if writes[b.Instrs[i]] {
				return true
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if from(s, 0) {
					return true
				}
			}
		}
		return false
	}
	for i, x := range ins.Block().Instrs {
		if x == ssa.Instruction(ins) && from(ins.Block(), i+1) {
			return false
		}
	}
	return !e.writtenThrough(ft)
}

// writtenThrough: somewhere in the repository a value of this type is stored through a pointer held in a variable.
func (e *Engine) writtenThrough(t types.Type) bool {
	e.storedOnce.Do(func() {
		e.storedTypes = map[string]bool{}
		for fn := range ssautil.AllFunctions(e.prog) {
			if !strings.HasPrefix(pkgPath(fn), repoPrefix) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					st, ok := i.(*ssa.Store)
					if !ok {
						continue
					}
					switch st.Addr.(type) {
					case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global, *ssa.FreeVar:
					default:
						e.storedTypes[typeKey(st.Val.Type().Underlying())] = true
					}
				}
			}
		}
	})
	return e.storedTypes[typeKey(t.Underlying())]
}

func pkgPath(fn *ssa.Function) string {
	if fn.Pkg == nil && fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg == nil {
		return ""
	}
	return fn.Pkg.Pkg.Path()
}

type storedThrough struct {
	storedOnce  sync.Once
	storedTypes map[string]bool
}
