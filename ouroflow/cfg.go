package main

import (
	"go/token"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// fnInfo is control flow information of a function.
type fnInfo struct {
	fn       *ssa.Function
	rpo      []*ssa.BasicBlock
	num      map[*ssa.BasicBlock]int
	loopAt   map[*ssa.BasicBlock]*loop // by header
	inner    map[*ssa.BasicBlock]*loop // innermost loop that contains the block
	liveIn   map[*ssa.BasicBlock]map[ssa.Value]bool
	liveOut  map[*ssa.BasicBlock]map[ssa.Value]bool
	liveCall map[ssa.Instruction]map[ssa.Value]bool
	bad      string
}

// loop is a natural loop.
type loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loop
	depth  int
	rank   string // why it terminates, when established
}

func (in *Interp) info(fn *ssa.Function) *fnInfo {
	if f, ok := in.fns[fn]; ok {
		return f
	}
	f := &fnInfo{fn: fn, num: map[*ssa.BasicBlock]int{}, loopAt: map[*ssa.BasicBlock]*loop{}, inner: map[*ssa.BasicBlock]*loop{},
		liveCall: map[ssa.Instruction]map[ssa.Value]bool{}}
	in.fns[fn] = f
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				walk(s)
			}
		}
		post = append(post, b)
	}
	walk(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		f.num[post[i]] = len(f.rpo)
		f.rpo = append(f.rpo, post[i])
	}
	for _, b := range f.rpo {
		for _, s := range b.Succs {
			if f.num[s] > f.num[b] {
				continue
			}
			if !s.Dominates(b) {
				f.bad = "irreducible control flow"
				continue
			}
			l := f.loopAt[s]
			if l == nil {
				l = &loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				f.loopAt[s] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				for _, p := range x.Preds {
					if seen[p] {
						work = append(work, p)
					}
				}
			}
		}
	}
	var ls []*loop
	for _, l := range f.loopAt {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		if len(ls[i].blocks) != len(ls[j].blocks) {
			return len(ls[i].blocks) > len(ls[j].blocks)
		}
		return f.num[ls[i].head] < f.num[ls[j].head]
	})
	for _, l := range ls {
		l.parent = f.inner[l.head]
		if l.parent != nil {
			l.depth = l.parent.depth + 1
		}
		for b := range l.blocks {
			f.inner[b] = l
		}
	}
	f.liveness()
	return f
}

func isTracked(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
		return false
	}
	return true
}

func (f *fnInfo) liveness() {
	f.liveIn = map[*ssa.BasicBlock]map[ssa.Value]bool{}
	f.liveOut = map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range f.rpo {
		f.liveIn[b] = map[ssa.Value]bool{}
		f.liveOut[b] = map[ssa.Value]bool{}
	}
	for again := true; again; {
		again = false
		for i := len(f.rpo) - 1; i >= 0; i-- {
			b := f.rpo[i]
			out := f.liveOut[b]
			n := len(out)
			for _, s := range b.Succs {
				for v := range f.liveIn[s] {
					if p, ok := v.(*ssa.Phi); ok && p.Block() == s {
						continue
					}
					out[v] = true
				}
				for k, p := range s.Preds {
					if p != b {
						continue
					}
					for _, ins := range s.Instrs {
						phi, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						if isTracked(phi.Edges[k]) {
							out[phi.Edges[k]] = true
						}
					}
				}
			}
			if len(out) != n {
				again = true
			}
			in := map[ssa.Value]bool{}
			for v := range out {
				in[v] = true
			}
			back(b.Instrs, in, nil)
			if len(in) != len(f.liveIn[b]) {
				again = true
			}
			f.liveIn[b] = in
		}
	}
}

// back moves liveness from the end of instructions to their start, or to the point after stop.
func back(ins []ssa.Instruction, live map[ssa.Value]bool, stop ssa.Instruction) {
	var ops [16]*ssa.Value
	for i := len(ins) - 1; i >= 0; i-- {
		if ins[i] == stop {
			return
		}
		if _, ok := ins[i].(*ssa.DebugRef); ok {
			continue
		}
		if phi, ok := ins[i].(*ssa.Phi); ok {
			_ = phi // stays live at the start of its block, values are assigned at edges
			continue
		}
		if v, ok := ins[i].(ssa.Value); ok {
			delete(live, v)
		}
		for _, o := range ins[i].Operands(ops[:0]) {
			if *o != nil && isTracked(*o) {
				live[*o] = true
			}
		}
	}
}

// liveAfter returns values that are needed after an instruction.
func (f *fnInfo) liveAfter(ins ssa.Instruction) map[ssa.Value]bool {
	if l, ok := f.liveCall[ins]; ok {
		return l
	}
	b := ins.Block()
	l := map[ssa.Value]bool{}
	for v := range f.liveOut[b] {
		l[v] = true
	}
	back(b.Instrs, l, ins)
	f.liveCall[ins] = l
	return l
}

// prune drops values of the top frame that are not live.
func prune(st *State, live map[ssa.Value]bool) {
	f := st.top()
	n := 0
	for v := range f.Env {
		if !live[v] && !keepAlive(v) {
			n++
		}
	}
	if n == 0 {
		return
	}
	e := make(map[ssa.Value]Value, len(f.Env)-n)
	for v, x := range f.Env {
		if live[v] || keepAlive(v) {
			e[v] = x
		}
	}
	st.Frames[len(st.Frames)-1] = &Frame{Fn: f.Fn, Env: e, Defers: f.Defers}
}

// keepAlive tells values that stay in a frame for rules to look at.
func keepAlive(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return false
	}
	return false
}

func posOf(ins ssa.Instruction) token.Pos {
	if p := ins.Pos(); p.IsValid() {
		return p
	}
	b := ins.Block()
	if b == nil {
		return token.NoPos
	}
	k := -1
	for i, x := range b.Instrs {
		if x == ins {
			k = i
		}
	}
	for d := 1; d < len(b.Instrs); d++ {
		for _, i := range []int{k - d, k + d} {
			if i >= 0 && i < len(b.Instrs) && b.Instrs[i].Pos().IsValid() {
				return b.Instrs[i].Pos()
			}
		}
	}
	if b.Parent() != nil {
		return b.Parent().Pos()
	}
	return token.NoPos
}
