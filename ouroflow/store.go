package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// SymInfo is what is known about a symbol in every state.
type SymInfo struct {
	Lo, Hi int64 // range that follows from its type; negInf and posInf when it is not bounded
	Name   string
	Def    any // definition, if symbol is a function of others
}

// SymTab is the table of all symbols of an analysis.
type SymTab struct {
	info []SymInfo
	memo map[string]Sym
}

func newSymTab() *SymTab {
	return &SymTab{info: make([]SymInfo, 1), memo: map[string]Sym{}}
}

func (t *SymTab) fresh(name string, lo, hi int64) Sym {
	t.info = append(t.info, SymInfo{Lo: lo, Hi: hi, Name: name})
	return Sym(len(t.info) - 1)
}

// named returns the symbol with a given identity, creating it when necessary.
func (t *SymTab) named(key string, lo, hi int64, def any) Sym {
	if s, ok := t.memo[key]; ok {
		return s
	}
	s := t.fresh(key, lo, hi)
	t.info[s].Def = def
	t.memo[key] = s
	return s
}

var tab *SymTab

// Store is a conjunction of linear constraints.
type Store struct {
	sub    map[Sym]Lin // solved equalities; right hand sides contain no solved symbols
	lo, hi map[Sym]int64
	ineq   []Lin // each <= 0, with at least two symbols
	neq    []Lin // each != 0
	elems  []Sym // elements of sequences that have been looked at
	bot    bool
	shared bool // maps are shared with another store
}

func newStore() *Store {
	return &Store{sub: map[Sym]Lin{}, lo: map[Sym]int64{}, hi: map[Sym]int64{}}
}

func (c *Store) clone() *Store {
	c.shared = true
	d := *c
	return &d
}

// own makes the store modifiable.
func (c *Store) own() {
	if !c.shared {
		return
	}
	sub := make(map[Sym]Lin, len(c.sub))
	for k, v := range c.sub {
		sub[k] = v
	}
	lo := make(map[Sym]int64, len(c.lo))
	for k, v := range c.lo {
		lo[k] = v
	}
	hi := make(map[Sym]int64, len(c.hi))
	for k, v := range c.hi {
		hi[k] = v
	}
	c.sub, c.lo, c.hi = sub, lo, hi
	c.ineq = append([]Lin(nil), c.ineq...)
	c.neq = append([]Lin(nil), c.neq...)
	c.shared = false
}

func (c *Store) norm(l Lin) Lin {
	for _, t := range l.T {
		if _, ok := c.sub[t.S]; ok {
			r := konst(l.K)
			for _, t := range l.T {
				if v, ok := c.sub[t.S]; ok {
					r = lincomb(r, t.C, v)
				} else {
					r = lincomb(r, t.C, symL(t.S))
				}
			}
			return r
		}
	}
	return l
}

func (c *Store) low(s Sym) int64 {
	if v, ok := c.lo[s]; ok {
		return v
	}
	return tab.info[s].Lo
}

func (c *Store) high(s Sym) int64 {
	if v, ok := c.hi[s]; ok {
		return v
	}
	return tab.info[s].Hi
}

// bound returns interval of a normalized expression.
func (c *Store) interval(l Lin) (lo, hi int64) {
	lo, hi = l.K, l.K
	for _, t := range l.T {
		a, b := c.low(t.S), c.high(t.S)
		if t.C < 0 {
			a, b = b, a
		}
		lo = satAdd(lo, satMul(a, t.C), negInf)
		hi = satAdd(hi, satMul(b, t.C), posInf)
	}
	return
}

func satMul(a, c int64) int64 {
	if a == negInf || a == posInf {
		if (a > 0) == (c > 0) {
			return posInf
		}
		return negInf
	}
	if a == 0 || c == 0 {
		return 0
	}
	r := a * c
	if r/c != a || r == negInf {
		if (a > 0) == (c > 0) {
			return posInf
		}
		return negInf
	}
	return r
}

// satAdd adds where an infinite or overflowing operand makes the result the given infinity.
func satAdd(a, b, inf int64) int64 {
	if a == negInf || a == posInf || b == negInf || b == posInf {
		if a == -inf || b == -inf { // cannot happen for well formed intervals
			return inf
		}
		return inf
	}
	r := a + b
	if (r > a) != (b > 0) && b != 0 {
		return inf
	}
	return r
}

// setLo and setHi record bounds of a symbol and report whether anything changed.
func (c *Store) setLo(s Sym, v int64) bool {
	if v <= c.low(s) {
		return false
	}
	c.own()
	c.lo[s] = v
	if v > c.high(s) {
		c.bot = true
	}
	return true
}

func (c *Store) setHi(s Sym, v int64) bool {
	if v >= c.high(s) {
		return false
	}
	c.own()
	c.hi[s] = v
	if v < c.low(s) {
		c.bot = true
	}
	return true
}

// addLe assumes l <= 0.
func (c *Store) addLe(l Lin) {
	if c.bot {
		return
	}
	try(func() { c.addLe1(l) })
}

func (c *Store) addLe1(l Lin) {
	l = tighten(c.norm(l))
	if l.isConst() {
		if l.K > 0 {
			c.bot = true
		}
		return
	}
	if len(l.T) == 1 {
		t := l.T[0] // coefficient is 1 or -1 after tightening
		ch := false
		if t.C > 0 {
			ch = c.setHi(t.S, -l.K)
		} else {
			ch = c.setLo(t.S, l.K)
		}
		if ch && !c.bot {
			c.changed(t.S)
		}
		return
	}
	lo, hi := c.interval(l)
	if hi != posInf && hi <= 0 {
		return
	}
	if lo != negInf && lo > 0 {
		c.bot = true
		return
	}
	h := l.hkey()
	for i, x := range c.ineq {
		if len(x.T) == len(l.T) && x.hkey() == h {
			if l.K > x.K {
				c.own()
				c.ineq[i] = l
				c.checkPair(l)
				c.propagate(l)
			}
			return
		}
	}
	c.own()
	c.ineq = append(c.ineq, l)
	c.checkPair(l)
	c.propagate(l)
	c.checkNeqs(l)
}

// checkPair turns a pair of opposite inequalities into an equality.
func (c *Store) checkPair(l Lin) {
	if c.bot {
		return
	}
	n := neg(l)
	h := n.hkey()
	for _, x := range c.ineq {
		if len(x.T) == len(n.T) && x.hkey() == h {
			if n.K == x.K {
				c.addEq1(l)
			} else if x.K > n.K { // x: n' + x.K <= 0, l: -n' + l.K <= 0
				c.bot = true
			}
			return
		}
	}
}

// propagate derives bounds of symbols from constraint l <= 0.
func (c *Store) propagate(l Lin) {
	for i := range l.T {
		if c.bot {
			return
		}
		t := l.T[i]
		// t.C*S <= -(K + rest); need minimum of rest
		rest := l.K
		for j, u := range l.T {
			if j == i {
				continue
			}
			b := c.low(u.S)
			if u.C < 0 {
				b = c.high(u.S)
			}
			rest = satAdd(rest, satMul(b, u.C), negInf)
		}
		if rest == negInf || rest == posInf {
			continue
		}
		ch := false
		if t.C > 0 {
			ch = c.setHi(t.S, floordiv(-rest, t.C))
		} else {
			ch = c.setLo(t.S, ceildiv(rest, -t.C))
		}
		if ch && !c.bot && c.low(t.S) == c.high(t.S) {
			c.changed(t.S)
		}
	}
}

// changed reacts to changed bounds of a symbol.
func (c *Store) changed(s Sym) {
	if c.bot {
		return
	}
	if _, ok := c.sub[s]; ok {
		return
	}
	lo, hi := c.low(s), c.high(s)
	for i := 0; i < len(c.neq); i++ {
		n := c.neq[i]
		if len(n.T) == 1 && n.T[0].S == s {
			for again := true; again; {
				again = false
				if k, ok := c.solve1(n); ok {
					if k == lo && lo <= hi {
						lo++
						again = true
					}
					if k == hi && lo <= hi {
						hi--
						again = true
					}
				}
			}
		}
	}
	if lo > hi {
		c.bot = true
		return
	}
	c.setLo(s, lo)
	c.setHi(s, hi)
	if lo == hi {
		c.addEq1(addK(symL(s), -lo))
	}
}

// solve1 returns the value excluded by a disequality with a single symbol.
func (c *Store) solve1(n Lin) (int64, bool) {
	if -n.K%n.T[0].C != 0 {
		return 0, false
	}
	return -n.K / n.T[0].C, true
}

// addEq assumes l == 0.
func (c *Store) addEq(l Lin) {
	if c.bot {
		return
	}
	if !try(func() { c.addEq1(l) }) {
		return
	}
}

func (c *Store) addEq1(l Lin) {
	l = c.norm(l)
	if c.bot {
		return
	}
	if l.isConst() {
		if l.K != 0 {
			c.bot = true
		}
		return
	}
	if g := l.gcdT(); g > 1 {
		if l.K%g != 0 {
			c.bot = true
			return
		}
		r := Lin{K: l.K / g, T: make([]Term, len(l.T))}
		for i, t := range l.T {
			r.T[i] = Term{t.S, t.C / g}
		}
		l = r
	}
	if len(l.T) > 1 {
		// Let bounds of all symbols follow first.
		for again, n := true, 0; again && n < 20 && !c.bot; n++ {
			again = false
			for i := range l.T {
				t := l.T[i]
				lo, hi := c.interval(lincomb(l, -t.C, symL(t.S))) // rest
				// t.C*S = -rest
				if t.C < 0 {
					lo, hi = hi, lo
					if lo != negInf && lo != posInf && c.setHi(t.S, floordiv(lo, -t.C)) {
						again = true
					}
					if hi != negInf && hi != posInf && c.setLo(t.S, ceildiv(hi, -t.C)) {
						again = true
					}
				} else {
					if lo != negInf && lo != posInf && c.setHi(t.S, floordiv(-lo, t.C)) {
						again = true
					}
					if hi != negInf && hi != posInf && c.setLo(t.S, ceildiv(-hi, t.C)) {
						again = true
					}
				}
			}
		}
		if c.bot {
			return
		}
	}
	// Solve for a symbol with unit coefficient, the youngest of them.
	best := -1
	for i, t := range l.T {
		if t.C == 1 || t.C == -1 {
			if best < 0 || c.prefer(t.S, l.T[best].S) {
				best = i
			}
		}
	}
	if best < 0 {
		// No integer solution form, keep as two inequalities.
		c.own()
		c.ineq = append(c.ineq, l, neg(l))
		c.propagate(l)
		c.propagate(neg(l))
		return
	}
	t := l.T[best]
	r := scale(lincomb(l, -t.C, symL(t.S)), -t.C) // S = -(rest)/C with C = +-1
	c.solveFor(t.S, r)
	c.congruence(t.S)
}

// noteElem registers an element of a sequence for congruence.
func (c *Store) noteElem(s Sym) {
	for _, e := range c.elems {
		if e == s {
			return
		}
	}
	c.elems = append(c.elems[:len(c.elems):len(c.elems)], s)
}

// congruence equates elements whose indexes became equal when s has been solved.
func (c *Store) congruence(s Sym) {
	for i := 0; i < len(c.elems) && !c.bot; i++ {
		e := c.elems[i]
		d := tab.info[e].Def.(elemDef)
		if !d.Idx.has(s) {
			continue
		}
		idx := c.norm(d.Idx)
		e2 := tab.named(d.Base+"["+idx.key()+"]", tab.info[e].Lo, tab.info[e].Hi, elemDef{d.Base, idx})
		if e2 == e {
			continue
		}
		c.noteElem(e2)
		c.addEq1(sub(symL(e), symL(e2)))
	}
}

// prefer tells whether a is eliminated rather than b: bits remain, then elements.
func (c *Store) prefer(a, b Sym) bool {
	ra, rb := symRank(a), symRank(b)
	if ra != rb {
		return ra < rb
	}
	return a > b
}

func symRank(s Sym) int {
	switch tab.info[s].Def.(type) {
	case bitDef:
		return 2
	case elemDef:
		return 1
	}
	return 0
}

// solveFor eliminates s using s = r.
func (c *Store) solveFor(s Sym, r Lin) {
	c.own()
	lo, hi := c.low(s), c.high(s)
	delete(c.lo, s)
	delete(c.hi, s)
	for k, v := range c.sub {
		if v.has(s) {
			c.sub[k] = v.subst(s, r)
		}
	}
	c.sub[s] = r
	old := c.ineq
	c.ineq = nil
	var redo []Lin
	for _, x := range old {
		if x.has(s) {
			redo = append(redo, x.subst(s, r))
		} else {
			c.ineq = append(c.ineq, x)
		}
	}
	oldn := c.neq
	c.neq = nil
	var redon []Lin
	for _, x := range oldn {
		if x.has(s) {
			redon = append(redon, x.subst(s, r))
		} else {
			c.neq = append(c.neq, x)
		}
	}
	if lo != negInf {
		c.addLe1(sub(konst(lo), r))
	}
	if hi != posInf {
		c.addLe1(addK(r, -hi))
	}
	for _, x := range redo {
		if c.bot {
			return
		}
		c.addLe1(x)
	}
	for _, x := range redon {
		if c.bot {
			return
		}
		c.addNe1(x)
	}
}

// addNe assumes l != 0.
func (c *Store) addNe(l Lin) {
	if c.bot {
		return
	}
	try(func() { c.addNe1(l) })
}

func (c *Store) addNe1(l Lin) {
	l = c.norm(l)
	if l.isConst() {
		if l.K == 0 {
			c.bot = true
		}
		return
	}
	if g := l.gcdT(); g > 1 {
		if l.K%g != 0 {
			return
		}
		r := Lin{K: l.K / g, T: make([]Term, len(l.T))}
		for i, t := range l.T {
			r.T[i] = Term{t.S, t.C / g}
		}
		l = r
	}
	if l.T[0].C < 0 {
		l = neg(l)
	}
	lo, hi := c.interval(l)
	if lo != negInf && lo > 0 || hi != posInf && hi < 0 {
		return
	}
	if lo == 0 {
		c.addLe1(addK(neg(l), 1))
		return
	}
	if hi == 0 {
		c.addLe1(addK(l, 1))
		return
	}
	k := l.key()
	for _, n := range c.neq {
		if n.key() == k {
			return
		}
	}
	// One of the sides may be excluded by the inequalities.
	if len(l.T) > 1 {
		if c.entailsLe(l) {
			c.addLe1(addK(l, 1))
			return
		}
		if c.entailsLe(neg(l)) {
			c.addLe1(addK(neg(l), 1))
			return
		}
	}
	c.own()
	c.neq = append(c.neq, l)
	if len(l.T) == 1 {
		c.changed(l.T[0].S)
	}
}

// checkNeqs strengthens disequalities that became one-sided with the new constraint.
func (c *Store) checkNeqs(l Lin) {
	for i := 0; i < len(c.neq) && !c.bot; i++ {
		n := c.neq[i]
		if len(n.T) != len(l.T) {
			continue
		}
		h := l.hkey()
		if n.hkey() == h && n.K == l.K {
			c.own()
			c.neq = append(c.neq[:i:i], c.neq[i+1:]...)
			c.addLe1(addK(n, 1))
			return
		}
		m := neg(n)
		if m.hkey() == h && m.K == l.K {
			c.own()
			c.neq = append(c.neq[:i:i], c.neq[i+1:]...)
			c.addLe1(addK(m, 1))
			return
		}
	}
}

// entailsLe decides whether constraints imply l <= 0.
func (c *Store) entailsLe(l Lin) bool {
	if c.bot {
		return true
	}
	res := false
	try(func() {
		l = c.norm(l)
		_, hi := c.interval(l)
		if hi != posInf && hi <= 0 {
			res = true
			return
		}
		if l.isConst() {
			return
		}
		if len(c.ineq) == 0 {
			return
		}
		for _, m := range c.ineq {
			if m.K >= l.K && sameTerms(m, l) {
				res = true
				return
			}
		}
		// Unsatisfiable together with l >= 1?
		res = !c.feasible(addK(neg(l), 1))
	})
	return res
}

func (c *Store) entailsEq(l Lin) bool {
	if c.bot {
		return true
	}
	res := false
	try(func() {
		l = c.norm(l)
		if l.isConst() {
			res = l.K == 0
			return
		}
		res = c.entailsLe(l) && c.entailsLe(neg(l))
	})
	return res
}

func (c *Store) entailsNe(l Lin) bool {
	if c.bot {
		return true
	}
	res := false
	try(func() {
		l = c.norm(l)
		if l.isConst() {
			res = l.K != 0
			return
		}
		lo, hi := c.interval(l)
		if lo != negInf && lo > 0 || hi != posInf && hi < 0 {
			res = true
			return
		}
		if g := l.gcdT(); g > 1 && l.K%g != 0 {
			res = true
			return
		}
		m := l
		if g := l.gcdT(); g > 1 {
			m = Lin{K: l.K / g}
			for _, t := range l.T {
				m.T = append(m.T, Term{t.S, t.C / g})
			}
		}
		if m.T[0].C < 0 {
			m = neg(m)
		}
		k := m.key()
		for _, n := range c.neq {
			if n.key() == k {
				res = true
				return
			}
		}
		if len(l.T) == 1 {
			return
		}
		res = c.entailsLe(addK(l, 1)) || c.entailsLe(addK(neg(l), 1))
	})
	return res
}

// constOf returns the value of expression if it is constant.
func (c *Store) constOf(l Lin) (int64, bool) {
	l = c.norm(l)
	if l.isConst() {
		return l.K, true
	}
	lo, hi := c.interval(l)
	if lo == hi && lo != negInf && lo != posInf {
		return lo, true
	}
	return 0, false
}

// bounds returns the tightest integer bounds found for expression.  It is more precise than interval.
func (c *Store) bounds(l Lin) (int64, int64) {
	l = c.norm(l)
	return c.interval(l)
}

// cone collects inequalities connected to the symbols of l.
func (c *Store) cone(l Lin) []Lin {
	seen := map[Sym]bool{}
	for _, t := range l.T {
		seen[t.S] = true
	}
	used := make([]bool, len(c.ineq))
	var r []Lin
	for again := true; again; {
		again = false
		for i, x := range c.ineq {
			if used[i] {
				continue
			}
			hit := false
			for _, t := range x.T {
				if seen[t.S] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				again = true
				r = append(r, x)
				for _, t := range x.T {
					seen[t.S] = true
				}
			}
		}
	}
	return r
}

// feasible decides whether constraints together with l <= 0 have a rational solution (integers are
// searched a few branches deep).  The answer true may be wrong, the answer false may not.
func (c *Store) feasible(l Lin) bool {
	cs := c.cone(l)
	if len(cs) > 250 {
		return true
	}
	ok := true
	done := try(func() {
		ok = lpFeasible(append(cs, l), c, 3)
	})
	if !done {
		// Large coefficients overflow: what can be concluded without them.
		var small []Lin
		for _, m := range cs {
			big := false
			for _, t := range m.T {
				big = big || t.C > 1<<16 || t.C < -1<<16
			}
			if !big {
				small = append(small, m)
			}
		}
		if len(small) == len(cs) || !try(func() { ok = lpFeasible(append(small, l), c, 3) }) {
			return true
		}
	}
	return ok
}

func (c *Store) String() string {
	var b []string
	for s, l := range c.sub {
		b = append(b, fmt.Sprintf("%s = %s", symName(s), l.String()))
	}
	for s, v := range c.lo {
		b = append(b, fmt.Sprintf("%s >= %d", symName(s), v))
	}
	for s, v := range c.hi {
		b = append(b, fmt.Sprintf("%s <= %d", symName(s), v))
	}
	for _, l := range c.ineq {
		b = append(b, l.String()+" <= 0")
	}
	for _, l := range c.neq {
		b = append(b, l.String()+" != 0")
	}
	sort.Strings(b)
	return strings.Join(b, "; ")
}

func symName(s Sym) string {
	return fmt.Sprintf("%s#%d", tab.info[s].Name, s)
}

func (l Lin) String() string {
	var b strings.Builder
	for i, t := range l.T {
		if i > 0 {
			b.WriteString(" + ")
		}
		if t.C != 1 {
			fmt.Fprintf(&b, "%d*", t.C)
		}
		b.WriteString(symName(t.S))
	}
	if l.K != 0 || len(l.T) == 0 {
		if len(l.T) > 0 {
			b.WriteString(" + ")
		}
		fmt.Fprintf(&b, "%d", l.K)
	}
	return b.String()
}

// ---- rational simplex

type rat struct{ n, d int64 } // d > 0, reduced

func mkrat(n, d int64) rat {
	if d < 0 {
		n, d = -n, -d
	}
	if n == 0 {
		return rat{0, 1}
	}
	if g := gcd(n, d); g > 1 {
		n, d = n/g, d/g
	}
	return rat{n, d}
}

func (a rat) add(b rat) rat {
	if a.d == 1 && b.d == 1 {
		return rat{addc(a.n, b.n), 1}
	}
	return mkrat(addc(mulc(a.n, b.d), mulc(b.n, a.d)), mulc(a.d, b.d))
}

func (a rat) mul(b rat) rat {
	if a.d == 1 && b.d == 1 {
		return rat{mulc(a.n, b.n), 1}
	}
	g, h := gcd(a.n, b.d), gcd(b.n, a.d)
	if g == 0 || h == 0 {
		return rat{0, 1}
	}
	return mkrat(mulc(a.n/g, b.n/h), mulc(a.d/h, b.d/g))
}

func (a rat) neg() rat { return rat{-a.n, a.d} }
func (a rat) inv() rat { return mkrat(a.d, a.n) }

func (a rat) cmp(b rat) int {
	if a.d == b.d {
		switch {
		case a.n < b.n:
			return -1
		case a.n > b.n:
			return 1
		}
		return 0
	}
	an, bn := a.n < 0, b.n < 0
	if an != bn {
		if an {
			return -1
		}
		return 1
	}
	ah, al := bits.Mul64(uabs(a.n), uint64(b.d))
	bh, bl := bits.Mul64(uabs(b.n), uint64(a.d))
	r := 0
	switch {
	case ah < bh || ah == bh && al < bl:
		r = -1
	case ah > bh || ah == bh && al > bl:
		r = 1
	}
	if an {
		return -r
	}
	return r
}

func uabs(a int64) uint64 {
	if a < 0 {
		return uint64(-a)
	}
	return uint64(a)
}

type lpVar struct {
	hasLo, hasHi bool
	lo, hi       rat
	val          rat
	row          int // row of a basic variable, -1 otherwise
}

type simplex struct {
	v    []lpVar
	rows [][]rat // dense: coefficient of each variable
	bas  []int   // basic variable of the row
}

// lpFeasible decides satisfiability of cs (each <= 0) with the bounds of symbols in c.
func lpFeasible(cs []Lin, c *Store, depth int) bool {
	idx := map[Sym]int{}
	sx := &simplex{}
	for _, l := range cs {
		for _, t := range l.T {
			if _, ok := idx[t.S]; !ok {
				idx[t.S] = len(sx.v)
				v := lpVar{row: -1, val: rat{0, 1}}
				if lo := c.low(t.S); lo != negInf {
					v.hasLo, v.lo = true, rat{lo, 1}
				}
				if hi := c.high(t.S); hi != posInf {
					v.hasHi, v.hi = true, rat{hi, 1}
				}
				if v.hasLo && v.hasHi && v.lo.cmp(v.hi) > 0 {
					return false
				}
				if v.hasLo && v.lo.n > 0 {
					v.val = v.lo
				} else if v.hasHi && v.hi.n < 0 {
					v.val = v.hi
				}
				sx.v = append(sx.v, v)
			}
		}
	}
	nx := len(sx.v)
	total := nx + len(cs)
	for i, l := range cs {
		row := make([]rat, total)
		for j := range row {
			row[j] = rat{0, 1}
		}
		val := rat{0, 1}
		for _, t := range l.T {
			row[idx[t.S]] = rat{t.C, 1}
			val = val.add(rat{t.C, 1}.mul(sx.v[idx[t.S]].val))
		}
		sx.v = append(sx.v, lpVar{hasHi: true, hi: rat{-l.K, 1}, val: val, row: i})
		sx.rows = append(sx.rows, row)
		sx.bas = append(sx.bas, nx+i)
	}
	return sx.solve(nx, depth)
}

func (sx *simplex) solve(nx, depth int) bool {
	if !sx.check() {
		return false
	}
	if depth == 0 {
		return true
	}
	// Branch on a fractional symbol.
	for i := 0; i < nx; i++ {
		v := sx.v[i]
		if v.val.d == 1 {
			continue
		}
		f := floordiv(v.val.n, v.val.d)
		a := sx.copy()
		a.v[i].hasHi, a.v[i].hi = true, rat{f, 1}
		if a.fix(i) && a.solve(nx, depth-1) {
			return true
		}
		b := sx.copy()
		b.v[i].hasLo, b.v[i].lo = true, rat{f + 1, 1}
		return b.fix(i) && b.solve(nx, depth-1)
	}
	return true
}

// fix moves a nonbasic variable into its changed bounds.
func (sx *simplex) fix(i int) bool {
	v := &sx.v[i]
	if v.hasLo && v.hasHi && v.lo.cmp(v.hi) > 0 {
		return false
	}
	if v.row < 0 {
		if v.hasLo && v.val.cmp(v.lo) < 0 {
			sx.update(i, v.lo)
		} else if v.hasHi && v.val.cmp(v.hi) > 0 {
			sx.update(i, v.hi)
		}
	}
	return true
}

func (sx *simplex) copy() *simplex {
	r := &simplex{v: append([]lpVar(nil), sx.v...), bas: append([]int(nil), sx.bas...)}
	for _, row := range sx.rows {
		r.rows = append(r.rows, append([]rat(nil), row...))
	}
	return r
}

func (sx *simplex) update(j int, val rat) {
	d := val.add(sx.v[j].val.neg())
	for r, b := range sx.bas {
		if a := sx.rows[r][j]; a.n != 0 {
			sx.v[b].val = sx.v[b].val.add(a.mul(d))
		}
	}
	sx.v[j].val = val
}

func (sx *simplex) check() bool {
	for iter := 0; ; iter++ {
		if iter > 2000 {
			panic(overflow{})
		}
		// Bland: the smallest basic variable out of bounds.
		bi := -1
		for _, b := range sx.bas {
			v := &sx.v[b]
			if (v.hasLo && v.val.cmp(v.lo) < 0 || v.hasHi && v.val.cmp(v.hi) > 0) && (bi < 0 || b < bi) {
				bi = b
			}
		}
		if bi < 0 {
			return true
		}
		v := &sx.v[bi]
		r := v.row
		inc := v.hasLo && v.val.cmp(v.lo) < 0
		nj := -1
		for j := range sx.v {
			a := sx.rows[r][j]
			if a.n == 0 || sx.v[j].row >= 0 {
				continue
			}
			u := &sx.v[j]
			up := (a.n > 0) == inc
			if up && (!u.hasHi || u.val.cmp(u.hi) < 0) || !up && (!u.hasLo || u.val.cmp(u.lo) > 0) {
				nj = j
				break
			}
		}
		if nj < 0 {
			return false
		}
		target := v.hi
		if inc {
			target = v.lo
		}
		sx.pivot(r, nj, target)
	}
}

func (sx *simplex) pivot(r, j int, target rat) {
	bi := sx.bas[r]
	a := sx.rows[r][j]
	theta := target.add(sx.v[bi].val.neg()).mul(a.inv())
	sx.v[bi].val = target
	sx.v[j].val = sx.v[j].val.add(theta)
	for k, b := range sx.bas {
		if k != r {
			if x := sx.rows[k][j]; x.n != 0 {
				sx.v[b].val = sx.v[b].val.add(x.mul(theta))
			}
		}
	}
	// x_bi = sum row*x  =>  x_j = (x_bi - sum_{k != j} row_k x_k) / a
	row := sx.rows[r]
	ia := a.inv()
	for k := range row {
		if k != j && row[k].n != 0 {
			row[k] = row[k].mul(ia).neg()
		}
	}
	row[j] = rat{0, 1}
	row[bi] = ia
	for k := range sx.rows {
		if k == r {
			continue
		}
		x := sx.rows[k][j]
		if x.n == 0 {
			continue
		}
		sx.rows[k][j] = rat{0, 1}
		for m := range row {
			if row[m].n != 0 {
				sx.rows[k][m] = sx.rows[k][m].add(x.mul(row[m]))
			}
		}
	}
	sx.bas[r] = j
	sx.v[j].row = r
	sx.v[bi].row = -1
}

// feasibleAll decides whether all constraints together have a rational solution, as feasible does.
func (c *Store) feasibleAll() bool {
	if c.bot {
		return false
	}
	ok := true
	try(func() { ok = lpFeasible(c.ineq, c, 3) })
	return ok
}
