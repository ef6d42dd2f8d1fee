package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// loopRun is a loop invariant with the states in which the loop starts again.
type loopRun struct {
	head *State
	back []*State
	// again executes the body from a state in which the loop starts again.
	again func(*State) []*State
	lasts map[*State]bool
}

// cellsOf names integers that variables of the top frame and objects hold.
func cellsOf(st *State) map[string]Lin {
	r := map[string]Lin{}
	for v, x := range st.top().Env {
		if t, ok := x.(VStr); ok {
			r[v.Name()+".len"] = st.norm(segsLen(t.S))
		}
		structInts(st, x, v.Name(), r)
	}
	for o, x := range st.Heap {
		if _, ok := x.(VStruct); ok {
			structInts(st, x, fmt.Sprintf("obj%d", o), r)
		} else if t, ok := x.(VStr); ok {
			r[fmt.Sprintf("obj%d.len", o)] = st.norm(segsLen(t.S))
		} else if _, ok := x.(VInt); ok {
			structInts(st, x, fmt.Sprintf("obj%d", o), r)
		}
	}
	return r
}

// last reports whether the loop ends in the next iteration.
func (r loopRun) last(b *State) bool {
	if x, ok := r.lasts[b]; ok {
		return x
	}
	x := r.isLast(b)
	if r.lasts != nil {
		r.lasts[b] = x
	}
	return x
}

func (r loopRun) isLast(b *State) bool {
	if r.again == nil {
		return false
	}
	for _, s := range r.again(b) {
		if !s.C.bot && s.C.feasibleAll() {
			return false
		}
	}
	return true
}

var debugRank = os.Getenv("OUROFLOW_RANK") != ""

// iterates reports whether a loop ends with an iterator or by itself.
func iterates(l *loop) bool {
	for _, i := range l.head.Instrs {
		if n, ok := i.(*ssa.Next); ok {
			if r, ok := n.Iter.(*ssa.Range); ok && !l.blocks[r.Block()] {
				return true
			}
		}
	}
	return false
}

// ranked looks for an expression that is bounded and grows with each iteration.
func (in *Interp) ranked(l *loop, runs []loopRun) (string, bool) {
	if iterates(l) {
		return "iterator", true
	}
	any := false
	for _, r := range runs {
		for _, b := range r.back {
			if !b.C.bot {
				any = true
			}
		}
	}
	if !any {
		return "no iteration", true
	}
	type cand struct {
		t    []invTerm
		text string
	}
	var cands []cand
	seen := map[string]bool{}
	for _, r := range runs {
		cells := cellsOf(r.head)
		var names []string
		for n := range cells {
			names = append(names, n)
		}
		sort.Strings(names)
		of := map[Sym]invTerm{}
		for _, n := range names {
			l := cells[n]
			if len(l.T) == 1 && (l.T[0].C == 1 || l.T[0].C == -1) {
				if _, ok := of[l.T[0].S]; !ok {
					of[l.T[0].S] = invTerm{n, l.T[0].C}
				}
			}
		}
		add := func(l Lin) {
			var c cand
			for _, x := range l.T {
				i, ok := of[x.S]
				if !ok {
					continue // does not change in the loop or does not matter
				}
				c.t = append(c.t, invTerm{i.field, x.C * i.c})
			}
			if len(c.t) == 0 {
				return
			}
			sort.Slice(c.t, func(i, k int) bool { return c.t[i].field < c.t[k].field })
			for _, x := range c.t {
				c.text += fmt.Sprintf("%+d*%s ", x.c, x.field)
			}
			if !seen[c.text] {
				seen[c.text] = true
				cands = append(cands, c)
			}
		}
		for _, l := range r.head.C.list() {
			add(l)
		}
		for _, b := range r.back {
			for _, l := range b.C.list() {
				add(l)
			}
		}
		for _, n := range names {
			add(cells[n])
			add(neg(cells[n]))
		}
	}
	value := func(c cand, cells map[string]Lin) (Lin, bool) {
		return invTemplate{t: c.t}.at(cells)
	}
next:
	for _, c := range cands {
		for _, r := range runs {
			hc := cellsOf(r.head)
			lh, ok := value(c, hc)
			if !ok {
				continue next
			}
			for _, b := range r.back {
				if b.C.bot {
					continue
				}
				lb, ok := value(c, cellsOf(b))
				// It grows.
				if !ok || !b.isLe(addK(lh, 1), lb) {
					if r.last(b) {
						continue
					}
					continue next
				}
				// It has a bound that does not change: symbols that the loop head does not introduce.
				if !in.boundedBy(r.head, b, lh, hc) {
					continue next
				}
			}
		}
		return c.text, true
	}
	if text, ok := in.ringRanked(runs); ok {
		return text, true
	}
	// Each iteration consumes input that a rule accounts for.
	if consumes(runs) {
		return "consumes input", true
	}
	if debugRank {
		fmt.Printf("RANK %d candidates\n", len(cands))
		for _, c := range cands {
			fmt.Printf("  %s\n", c.text)
		}
		for _, r := range runs {
			fmt.Printf("  HEAD %s\n", r.head.C)
			fmt.Printf("     consumed %v\n", r.head.Ghost["consumed"])
			for n, l := range cellsOf(r.head) {
				fmt.Printf("      %s = %s\n", n, l)
			}
			for _, b := range r.back {
				fmt.Printf("  BACK %s\n", b.C)
				fmt.Printf("     consumed %v = %s\n", b.Ghost["consumed"], b.describe(b.Ghost["consumed"]))
				for n, l := range cellsOf(b) {
					fmt.Printf("      %s = %s\n", n, l)
				}
			}
		}
	}
	return strings.TrimSpace(fmt.Sprint(len(cands), " candidates")), false
}

// boundedBy tells whether an expression over values at loop head has an upper bound in a state in which the
// loop starts again.  The bound may refer to what the loop does not change.
func (in *Interp) boundedBy(head, back *State, l Lin, cells map[string]Lin) bool {
	// The size of memory is no bound.
	const huge = maxLen >> 2
	if _, hi := back.C.interval(back.norm(l)); hi < huge {
		return true
	}
	if hi, ok := back.C.sup(l); ok && hi < huge {
		return true
	}
	// Constraints l - rest <= k where the rest consists of symbols which are the same in each iteration.
	hl := back.norm(l)
	ours := map[Sym]int64{}
	for _, t := range hl.T {
		ours[t.S] = t.C
	}
	known := in.valueSyms(head)
	for _, c := range head.C.list() {
		for _, t := range c.T {
			known[t.S] = true
		}
	}
	varying := map[Sym]bool{}
	bc := cellsOf(back)
	for n, h := range cells {
		if x, ok := bc[n]; ok && !eqLin(back.norm(x), back.norm(h)) {
			for _, t := range back.norm(h).T {
				if i := tab.info[t.S]; i.Def == nil && i.Name != "j" && i.Name != "nil" && i.Name != "arr.len" {
					continue // only joins make symbols that stand for different values in each iteration
				}
				varying[t.S] = true
			}
		}
	}
	for _, c := range back.C.list() {
		d := sub(c, hl)
		good := true
		for _, t := range d.T {
			if !known[t.S] || in.dependsOn(t.S, varying) {
				good = false
				break
			}
		}
		if good && len(c.T) > 0 && overlaps(c, ours) && (len(d.T) > 0 || -d.K < huge) {
			return true
		}
	}
	return false
}

// dependsOn reports whether a symbol is one of a set or is defined by one of them.
func (in *Interp) dependsOn(s Sym, set map[Sym]bool) bool {
	if set[s] {
		return true
	}
	any := func(l Lin) bool {
		for _, t := range l.T {
			if in.dependsOn(t.S, set) {
				return true
			}
		}
		return false
	}
	switch x := tab.info[s].Def.(type) {
	case elemDef:
		return any(x.Idx)
	case bitDef:
		return in.dependsOn(x.X, set)
	case condDef:
		return any(x.L)
	case andDef:
		return any(x.A) || any(x.B)
	case modDef:
		return any(x.L)
	case divDef:
		return any(x.L)
	case modKDef:
		return any(x.L)
	case powDef:
		return any(x.N)
	}
	return false
}

func overlaps(c Lin, m map[Sym]int64) bool {
	for _, t := range c.T {
		if m[t.S] != 0 {
			return true
		}
	}
	return false
}

// terminates makes obligations of the loops of the module.
func (x *ctx) terminates(in *Interp) {
	in.h.Loops = func(f *fnInfo, l *loop, runs []loopRun) {
		if !isModule(f.fn) {
			return
		}
		text, ok := in.ranked(l, runs)
		where := fmt.Sprintf("%s loop %d", f.fn.RelString(nil), l.head.Index)
		in.obligeAt("termination", where, in.loopPos(f, l), ok, "no bounded quantity changes with each iteration of the loop ("+text+")")
	}
}

// ringRanked looks for an index that walks a ring of n elements towards an element.
func (in *Interp) ringRanked(runs []loopRun) (string, bool) {
	if len(runs) != 1 {
		return "", false
	}
	h := runs[0].head
	cells := cellsOf(h)
	var names []string
	for n := range cells {
		names = append(names, n)
	}
	sort.Strings(names)
	fixed := func(n string) bool {
		for _, b := range runs[0].back {
			x, ok := cellsOf(b)[n]
			if !ok || !b.isEq(x, cells[n]) {
				return false
			}
		}
		return true
	}
	var fix, moves []string
	for _, n := range names {
		if fixed(n) {
			fix = append(fix, n)
		} else {
			moves = append(moves, n)
		}
	}
	// Quantities the loop does not change may be known by symbols only.
	lims := map[string]Lin{}
	for _, n := range fix {
		lims[n] = cells[n]
	}
	for _, v := range h.Heap {
		if st, ok := v.(VStruct); ok {
			m := map[string]Lin{}
			structInts(h, st, "x", m)
			for k, l := range m {
				lims["heap"+k] = l
			}
		}
	}
	var ln []string
	for n := range lims {
		ln = append(ln, n)
	}
	sort.Strings(ln)
	inRange := func(st *State, x, n Lin) bool { return st.isLe(k0, x) && st.isLt(x, n) }
	for _, i := range moves {
		for _, t := range fix {
			for _, n := range ln {
				N, T, I := lims[n], cells[t], cells[i]
				if !inRange(h, T, N) || !inRange(h, I, N) {
					continue
				}
				good := true
				for _, b := range runs[0].back {
					if b.C.bot {
						continue
					}
					J, ok := cellsOf(b)[i]
					if !ok || !b.isNe(I, T) || !inRange(b, J, N) {
						good = false
						break
					}
					for c := 0; c < 4; c++ {
						s := b.clone()
						ri, rj := sub(T, I), sub(T, J)
						if c&1 == 0 {
							s.assumeLe(I, T)
						} else {
							s.assumeLt(T, I)
							ri = add(ri, N)
						}
						if c&2 == 0 {
							s.assumeLe(J, T)
						} else {
							s.assumeLt(T, J)
							rj = add(rj, N)
						}
						if s.C.bot || !s.C.feasibleAll() {
							continue
						}
						if !s.isLt(rj, ri) {
							good = false
						}
					}
				}
				if good {
					return "distance from " + i + " to " + t + " on a ring of " + n, true
				}
			}
		}
	}
	return "", false
}

// loopPos is where a loop begins.
func (in *Interp) loopPos(f *fnInfo, l *loop) string {
	at := f.fn.Pos()
	for b := range l.blocks {
		for _, i := range b.Instrs {
			if i.Pos().IsValid() && (at == f.fn.Pos() || i.Pos() < at) {
				at = i.Pos()
			}
		}
	}
	q := in.prog.Fset.Position(at)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, repoDir+"/"), q.Line)
}

// consumes reports whether each iteration consumes input that a rule accounts for.
func consumes(runs []loopRun) bool {
	for _, r := range runs {
		h, ok := r.head.Ghost["consumed"].(VInt)
		for _, b := range r.back {
			c, ok2 := b.Ghost["consumed"].(VInt)
			if !ok || !ok2 || !b.C.bot && !b.isLe(addK(h.L, 1), c.L) && !r.last(b) {
				return false
			}
		}
	}
	return true
}

// inProportion reports whether a loop consumes input in each iteration or counts within limits.
func (in *Interp) inProportion(runs []loopRun, lim Lin) bool {
	if consumes(runs) {
		return true
	}
	for _, r := range runs {
		found := false
		cells := cellsOf(r.head)
		for n, l := range cells {
			if !r.head.isLe(k0, addK(l, 1)) || !r.head.isLe(l, lim) {
				continue
			}
			up, down := true, true
			for _, b := range r.back {
				x, ok := cellsOf(b)[n]
				up = up && ok && (b.C.bot || b.isLe(addK(l, 1), x))
				down = down && ok && (b.C.bot || b.isLe(addK(x, 1), l))
			}
			if up || down {
				found = true
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}
