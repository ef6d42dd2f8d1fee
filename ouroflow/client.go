package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// client computes what holds between operations of an object used by an arbitrary client: the least states that
// contain init and are closed under step.  Values that have to survive are kept in ghosts.  Obligations of step
// are recorded once for each state of the result.
func (in *Interp) client(init []*State, steps []func(st *State) []*State) []*State {
	heads := map[string]*State{}
	var order []string
	iters := map[string]int{}
	add := func(s *State) (string, bool) {
		in.gc(s)
		k := modeKey(s) + in.signKey(s)
		h, ok := heads[k]
		if !ok {
			heads[k] = s
			order = append(order, k)
			return k, true
		}
		if in.covers(h, s) {
			return k, false
		}
		iters[k]++
		if debugLoops {
			fmt.Printf("CLIENTJOIN %d\n  H %s\n  S %s\n", iters[k], h.C, s.C)
			for g, v := range h.Ghost {
				if p, ok := v.(VPtr); ok {
					fmt.Printf("   %s = %s // %s\n", g, h.describe(in.contents(h, p.Obj)), s.describe(in.contents(s, s.Ghost[g].(VPtr).Obj)))
				}
			}
		}
		if in.h.Join != nil {
			in.h.Join(h, s, nil, nil)
		}
		heads[k] = in.join(h, s, iters[k] > 2)
		in.gc(heads[k])
		return k, true
	}
	changed := false
	push := func(s *State) {
		if s.C.bot {
			return
		}
		in.forgetArgs(s)
		if _, ch := add(s); ch {
			changed = true
		}
	}
	in.quiet++
	for _, s := range init {
		push(s.clone())
	}
	fail := false
	// The effect of one operation is closed before the next one is considered: what the simple ones keep
	// invariant guides the others.
	total := 0
	for changed = true; changed && !fail; {
		again := false
		for _, step := range steps {
			for changed = true; changed && !fail; {
				changed = false
				for i := 0; i < len(order); i++ {
					k := order[i]
					total++
					if total > 60+40*len(steps) || iters[k] > 14+8*len(steps) {
						fail = true
						break
					}
					in.useTemplates(heads[k])
					for _, s := range step(heads[k].clone()) {
						push(s)
					}
				}
				again = again || changed
			}
		}
		changed = again
	}
	in.quiet--
	if fail {
		in.giveUp(nil, "invariant of the object has no fixpoint")
	}
	var r []*State
	for _, k := range order {
		h := heads[k]
		if debugLoops {
			fmt.Printf("CLIENT %s iters=%d\n", k, iters[k])
			for g, v := range h.Ghost {
				fmt.Printf("   %s = %s\n", g, h.describe(v))
			}
			for o, v := range h.Heap {
				fmt.Printf("   obj%d = %s\n", o, h.describe(v))
			}
			fmt.Printf("   %s\n", h.C)
		}
		in.useTemplates(h)
		for _, step := range steps {
			step(h.clone())
		}
		r = append(r, h)
	}
	return r
}

// useObject makes a client that creates an object and calls its methods in any order with any arguments.
func (x *ctx) useObject(in *Interp, ctor *ssa.Function, methods []*ssa.Function, after func(st *State, m *ssa.Function, ret []Value)) []*State {
	if ctor == nil {
		return nil
	}
	st := in.enter()
	var init []*State
	for _, o := range in.callFn(st, ctor, in.lazyArgs(st, ctor), nil) {
		if len(o.Ret) > 1 {
			if e, ok := o.Ret[len(o.Ret)-1].(VIface); ok {
				s := o.St
				s.assumeEq(e.Nil, k1)
				if s.C.bot {
					continue
				}
			}
		}
		o.St.setGhost("self", o.Ret[0])
		init = append(init, o.St)
	}
	x.count("constructors", 1)
	x.count("methods", len(methods))
	var steps []func(st *State) []*State
	for _, m := range byCalls(methods) {
		m := m
		steps = append(steps, func(s *State) []*State {
			var r []*State
			s.setGhost("consumed", intk(0))
			args := in.stepArgs(s, m)
			self := s.Ghost["self"]
			args[0] = self
			if p, ok := self.(VPtr); ok {
				s.assumeEq(p.Nil, k0)
				if !isPtrType(m.Params[0].Type()) {
					args[0] = in.contents(s, p.Obj)
				}
			}
			for _, o := range in.callFn(s, m, args, nil) {
				o.St.setGhost("consumed", nil)
				if after != nil {
					after(o.St, m, o.Ret)
				}
				r = append(r, o.St)
			}
			return r
		})
	}
	return in.client(init, steps)
}

func isPtrType(t types.Type) bool { _, ok := under(t).(*types.Pointer); return ok }

// transient marks identities of arguments of one step of a client.
const transient = "arg~"

// stepArgs makes arbitrary arguments that belong to one step only.
func (in *Interp) stepArgs(st *State, fn *ssa.Function) []Value {
	in.step++
	var r []Value
	for i, p := range fn.Params {
		r = append(r, in.arg(st, p.Type(), fmt.Sprintf("%s%d.%d:%s", transient, in.step, i, p.Name())))
	}
	return r
}

// forgetArgs drops what is known about arguments of finished steps that nothing refers to any more.
func (in *Interp) forgetArgs(st *State) {
	if len(st.Frames) > 0 {
		return
	}
	in.gc(st)
	used := in.valueSyms(st)
	st.C = project(st.C, func(s Sym) bool { return used[s] || !in.fromStep(s) })
}

// valueSyms returns the symbols that values of a state contain.
func (in *Interp) valueSyms(st *State) map[Sym]bool {
	used := map[Sym]bool{}
	note := func(l Lin) Lin {
		for _, t := range st.C.norm(l).T {
			used[t.S] = true
		}
		return l
	}
	id := func(o ObjID) ObjID { return o }
	for _, v := range st.Ghost {
		mapVal(v, note, id)
	}
	for _, v := range st.Heap {
		mapVal(v, note, id)
	}
	for _, f := range st.Frames {
		for _, v := range f.Env {
			mapVal(v, note, id)
		}
	}
	return used
}

// fromStep reports whether a symbol depends on an argument of a step.
func (in *Interp) fromStep(s Sym) bool {
	i := tab.info[s]
	if strings.Contains(i.Name, transient) {
		return true
	}
	any := func(l Lin) bool {
		for _, t := range l.T {
			if in.fromStep(t.S) {
				return true
			}
		}
		return false
	}
	switch x := i.Def.(type) {
	case elemDef:
		return any(x.Idx)
	case bitDef:
		return in.fromStep(x.X)
	case condDef:
		return any(x.L)
	case andDef:
		return any(x.A) || any(x.B)
	case modDef:
		return any(x.L)
	case divDef:
		return any(x.L)
	case modKDef:
		return any(x.L)
	case powDef:
		return any(x.N)
	}
	return false
}

// useTemplates lets joins keep what a state between operations knows about the object.
func (in *Interp) useTemplates(h *State) {
	in.tmpl = nil
	if p, ok := h.Ghost["self"].(VPtr); ok {
		in.tmpl = map[ObjID][]invTemplate{p.Obj: in.invTemplates(h, p.Obj)}
	}
}

// signKey keeps states apart in which signed fields of the object are known to be negative and known not to be.
func (in *Interp) signKey(s *State) string {
	p, ok := s.Ghost["self"].(VPtr)
	if !ok {
		return ""
	}
	v, ok := in.contents(s, p.Obj).(VStruct)
	if !ok {
		return ""
	}
	u, ok := under(v.T).(*types.Struct)
	if !ok {
		return ""
	}
	k := ""
	for i, f := range v.F {
		if _, _, bits, signed := intRange(u.Field(i).Type()); bits > 0 && signed {
			x := in.expand(s, f).(VInt)
			switch {
			case s.isLt(x.L, k0):
				k += pf("/%d-", i)
			case s.isLe(k0, x.L):
				k += pf("/%d+", i)
			}
		}
	}
	return k
}
