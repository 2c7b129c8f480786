package main

// Inference of modification sets (which heap components a function may write).

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

func (r *Run) flushComps() {
	for k, s := range r.compSort {
		if len(k) > 2 && (k[:2] == "L:" || k[:2] == "I:") {
			continue
		}
		if _, ok := r.e.compReg[k]; !ok {
			r.e.compReg[k] = compInfo{s, r.compGo[k]}
		}
	}
}

// inferMods symbolically executes fn without obligations and collects written components.
func (e *Engine) inferMods(fn *ssa.Function) map[string]bool {
	if m, ok := e.inferCache[fn]; ok {
		return m
	}
	e.inferCache[fn] = map[string]bool{}
	out := e.inferModsC(fn, e.spec.contract(shortFn(fn)))
	e.inferCache[fn] = out
	return out
}

func (e *Engine) inferModsC(fn *ssa.Function, c *Contract) (out map[string]bool) {
	out = map[string]bool{}
	saved := freshRef
	r := NewRun(e, "infer:"+shortFn(fn), nil)
	defer func() {
		freshRef = saved
		r.flushComps()
		for k := range out {
			if k == "now" || len(k) > 2 && (k[:2] == "L:" || k[:2] == "I:") {
				delete(out, k)
			}
		}
		if x := recover(); x != nil {
			switch x := x.(type) {
			case unsupported:
				e.inferBroken[shortFn(fn)] = x.msg
				if debugInfer {
					fmt.Println("infer", shortFn(fn), "unsupported:", x.msg)
				}
			case specErr:
				e.inferBroken[shortFn(fn)] = x.msg
				if debugInfer {
					fmt.Println("infer", shortFn(fn), "spec:", x.msg)
				}
			default:
				panic(x)
			}
		}
	}()
	r.dry = 1
	r.topC = c
	r.collect = append(r.collect, out)
	st := &State{m: map[string]*Term{}, guard: TTrue}
	var args []Val
	for i, p := range fn.Params {
		args = append(args, Const(fmt.Sprintf("arg%d@in", i), e.sortOf(p.Type())))
	}
	r.oldState = st
	r.evalFunc(fn, args, nil, st)
	delete(e.inferBroken, shortFn(fn))
	return out
}

var debugInfer = false

// computeModsets: least fixed point of written components over all contracts.
func (e *Engine) computeModsets() {
	for round := 0; round < 6; round++ {
		changed := false
		e.inferCache = map[*ssa.Function]map[string]bool{}
		for _, c := range e.spec.Order {
			if c.IsLemma || c.Abstract || c.Trusted || c.Inline {
				continue
			}
			fn := e.funcs[c.Name]
			if fn == nil {
				continue
			}
			m := e.inferModsC(fn, c)
			if e.modset[c.Name] == nil {
				e.modset[c.Name] = map[string]bool{}
			}
			for k := range m {
				if !e.modset[c.Name][k] {
					e.modset[c.Name][k] = true
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	e.inferCache = map[*ssa.Function]map[string]bool{}
}
