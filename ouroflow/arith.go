package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	mbits "math/bits"

	"golang.org/x/tools/go/ssa"
)

// shrDef says that a symbol is the quotient of a division by a power of two or another constant.
type divDef struct {
	L Lin
	K int64
}

// wrap reduces an expression to the range of an integer type.
func (in *Interp) wrap(st *State, l Lin, t types.Type) Lin {
	lo, hi, bits, signed := intRange(t)
	if bits == 0 {
		return l
	}
	l = st.norm(l)
	a, b := st.C.interval(l)
	if bits < 64 {
		if (a >= lo && a != negInf || st.isLe(konst(lo), l)) && (b <= hi && b != posInf || st.isLe(l, konst(hi))) {
			return l
		}
		return in.modulo(st, l, bits, signed)
	}
	if _, ok := l.single(); ok {
		return l
	}
	lim := konst(1 << 62)
	if signed {
		if (a != negInf || st.isLe(neg(lim), l)) && (b != posInf || st.isLe(l, lim)) {
			return l
		}
		return in.modulo(st, l, bits, signed)
	}
	if (a >= 0 || st.isLe(k0, l)) && (b != posInf || st.isLe(l, lim)) {
		return l
	}
	return in.modulo(st, l, bits, signed)
}

// modulo returns the canonical value of an expression modulo 2^bits.
func (in *Interp) modulo(st *State, l Lin, bits int, signed bool) Lin {
	var m Lin
	ok := try(func() {
		l = st.norm(l)
		// Open up sums that have been reduced already.
		for again := true; again; {
			again = false
			for _, t := range l.T {
				if d, ok := tab.info[t.S].Def.(modDef); ok && d.Bits >= bits {
					l = st.norm(l.subst(t.S, d.L))
					again = true
					break
				}
			}
		}
		m = l
		if bits < 63 {
			p := int64(1) << bits
			r := konst(((l.K % p) + p) % p)
			for _, t := range l.T {
				c := ((t.C % p) + p) % p
				if c > p/2 {
					c -= p
				}
				r = lincomb(r, c, symL(t.S))
			}
			m = r
		}
	})
	if !ok {
		lo, hi, _, _ := bitsRange(bits, signed)
		return in.freshInt("mod", lo, hi)
	}
	lo, hi, p, _ := bitsRange(bits, signed)
	// It may fit after all.
	a, b := st.C.interval(m)
	if bits < 64 && a != negInf && a >= lo && b != posInf && b <= hi {
		return m
	}
	sg := "u"
	if signed {
		sg = "s"
	}
	s := tab.named(fmt.Sprintf("mod%s%d(%s)", sg, bits, m.key()), lo, hi, modDef{m, bits})
	if bits < 63 {
		// m = s + p*q
		if a != negInf && b != posInf {
			ql, qh := floordiv(a-lo, p), floordiv(b-lo, p)
			if !signed {
				ql, qh = floordiv(a, p), floordiv(b, p)
			} else {
				ql, qh = floordiv(a-lo, p), ceildiv(b-hi, p)
			}
			q := tab.named(fmt.Sprintf("modq%s%d(%s)", sg, bits, m.key()), negInf, posInf, nil)
			try(func() {
				st.C.addEq(sub(m, lincomb(symL(s), p, symL(q))))
			})
			st.assumeLe(konst(ql), symL(q))
			st.assumeLe(symL(q), konst(qh))
		}
	}
	return symL(s)
}

func bitsRange(bits int, signed bool) (lo, hi, p int64, ok bool) {
	if bits >= 64 {
		if signed {
			return negInf, posInf, 0, false
		}
		return 0, posInf, 0, false
	}
	p = int64(1) << bits
	if signed {
		return -p / 2, p/2 - 1, p, true
	}
	return 0, p - 1, p, true
}

// cmp returns 0/1 expression of a <= 0 or a == 0.
func (in *Interp) cmpLe(st *State, l Lin) Lin {
	if st.C.entailsLe(l) {
		return k1
	}
	if st.C.entailsLe(addK(neg(l), 1)) {
		return k0
	}
	l = tighten(st.norm(l))
	// A condition on a single 0/1 symbol is that symbol.
	if len(l.T) == 1 && l.T[0].C == 1 && l.K == 0 && st.C.low(l.T[0].S) == 0 && st.C.high(l.T[0].S) == 1 {
		return sub(k1, symL(l.T[0].S))
	}
	if len(l.T) == 1 && l.T[0].C == -1 && l.K == 1 && st.C.low(l.T[0].S) == 0 && st.C.high(l.T[0].S) == 1 {
		return symL(l.T[0].S)
	}
	// Negated form has the same symbol.
	if l.T[0].C < 0 {
		n := addK(neg(l), 1) // not (l <= 0)  <=>  -l+1 <= 0
		s := tab.named("le("+n.key()+")", 0, 1, condDef{n, false})
		return sub(k1, symL(s))
	}
	return symL(tab.named("le("+l.key()+")", 0, 1, condDef{l, false}))
}

func (in *Interp) cmpEq(st *State, l Lin) Lin {
	if st.C.entailsNe(l) {
		return k0
	}
	if st.C.entailsEq(l) {
		return k1
	}
	l = st.norm(l)
	if g := l.gcdT(); g > 1 && l.K%g == 0 {
		r := Lin{K: l.K / g}
		for _, t := range l.T {
			r.T = append(r.T, Term{t.S, t.C / g})
		}
		l = r
	}
	if l.T[0].C < 0 {
		l = neg(l)
	}
	if len(l.T) == 1 && l.T[0].C == 1 && st.C.low(l.T[0].S) >= 0 && st.C.high(l.T[0].S) == 1 {
		switch l.K {
		case 0:
			return sub(k1, symL(l.T[0].S))
		case -1:
			return symL(l.T[0].S)
		}
	}
	return symL(tab.named("eq("+l.key()+")", 0, 1, condDef{l, true}))
}

func (in *Interp) binop(st *State, x *ssa.BinOp) []*State {
	a, b := in.eval(st, x.X), in.eval(st, x.Y)
	switch x.Op {
	case token.EQL, token.NEQ:
		states, vals := in.equal(st, a, b, x)
		for i, s := range states {
			l := vals[i]
			if x.Op == token.NEQ {
				l = sub(k1, l)
			}
			s.set(x, VInt{l})
		}
		return states
	}
	switch p := a.(type) {
	case VInt:
		q, ok := b.(VInt)
		if !ok {
			break
		}
		return in.intOp(st, x, p.L, q.L)
	case VFloat:
		q, ok := b.(VFloat)
		if !ok {
			break
		}
		st.set(x, in.floatOp(st, x, p, q))
		return []*State{st}
	case VStr:
		q, ok := b.(VStr)
		if !ok {
			break
		}
		if x.Op == token.ADD {
			st.set(x, VStr{in.concat(st, p.S, q.S)})
			return []*State{st}
		}
		s, ok1 := in.constStr(st, a)
		t, ok2 := in.constStr(st, b)
		if ok1 && ok2 {
			var r bool
			switch x.Op {
			case token.LSS:
				r = s < t
			case token.LEQ:
				r = s <= t
			case token.GTR:
				r = s > t
			case token.GEQ:
				r = s >= t
			}
			st.set(x, boolv(r))
			return []*State{st}
		}
		st.set(x, VInt{in.freshInt("strcmp", 0, 1)})
		return []*State{st}
	}
	in.giveUp(st, fmt.Sprintf("operation %s on %T and %T", x.Op, a, b))
	st.set(x, in.freshVal(st, x.Type(), "op"))
	return []*State{st}
}

// accumulates tells whether an addition is a step of a loop that sums up sizes: it takes more iterations than a
// program can make to exceed 63 bits by adding quantities that are not larger than memory.
func (in *Interp) accumulates(st *State, x *ssa.BinOp, acc ssa.Value, a, b Lin) bool {
	phi, ok := acc.(*ssa.Phi)
	if _, _, bits, signed := intRange(x.Type()); !ok || bits != 64 || !signed {
		return false
	}
	step := false
	for i, e := range phi.Edges {
		step = step || e == ssa.Value(x) && phi.Block().Dominates(phi.Block().Preds[i])
	}
	if !step {
		return false
	}
	for i, e := range phi.Edges {
		if e == ssa.Value(x) {
			continue
		}
		if phi.Block().Dominates(phi.Block().Preds[i]) {
			if e != ssa.Value(phi) {
				return false
			}
			continue
		}
		var init Value
		if _, ok := e.(*ssa.Const); ok {
			init = in.eval(st, e)
		} else {
			init = st.top().Env[e]
		}
		v, ok := init.(VInt)
		if !ok || !st.isLe(k0, v.L) || !st.isLe(v.L, konst(1<<61)) {
			return false
		}
	}
	return st.isLe(k0, a) && st.isLe(k0, b) && st.isLe(b, konst(maxLen))
}

func (in *Interp) floatOp(st *State, x *ssa.BinOp, a, b VFloat) Value {
	switch x.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if a.Known && b.Known {
			r := false
			switch x.Op {
			case token.LSS:
				r = a.V < b.V
			case token.LEQ:
				r = a.V <= b.V
			case token.GTR:
				r = a.V > b.V
			case token.GEQ:
				r = a.V >= b.V
			}
			return boolv(r)
		}
		return VInt{in.freshInt("fcmp", 0, 1)}
	}
	if a.Known && b.Known {
		v := 0.0
		switch x.Op {
		case token.ADD:
			v = a.V + b.V
		case token.SUB:
			v = a.V - b.V
		case token.MUL:
			v = a.V * b.V
		case token.QUO:
			v = a.V / b.V
		}
		return VFloat{Known: true, V: v}
	}
	return VFloat{ID: fmt.Sprintf("(%s%s%s)", in.valKey(st, a), x.Op, in.valKey(st, b))}
}

// equal compares values; it may distinguish cases.
func (in *Interp) equal(st *State, a, b Value, ins ssa.Instruction) ([]*State, []Lin) {
	one := func(l Lin) ([]*State, []Lin) { return []*State{st}, []Lin{l} }
	switch x := a.(type) {
	case VInt:
		if y, ok := b.(VInt); ok {
			return one(in.cmpEq(st, sub(x.L, y.L)))
		}
	case VFloat:
		if y, ok := b.(VFloat); ok {
			if x.Known && y.Known {
				return one(boolv(x.V == y.V).L)
			}
			return one(in.freshInt("feq", 0, 1))
		}
	case VStr:
		if y, ok := b.(VStr); ok {
			return one(in.strEq(st, x, y))
		}
	case VPtr:
		if y, ok := b.(VPtr); ok {
			switch {
			case st.isNil(y.Nil):
				return one(x.Nil)
			case st.isNil(x.Nil):
				return one(y.Nil)
			case st.notNil(x.Nil) && st.notNil(y.Nil) && x.Obj == y.Obj && !in.objs[x.Obj].Summary && x.Path.key() == y.Path.key():
				return one(k1)
			case st.notNil(x.Nil) && st.notNil(y.Nil) && x.Obj != y.Obj && in.objs[x.Obj].Lazy == "" && in.objs[y.Obj].Lazy == "" &&
				!in.objs[x.Obj].Summary && !in.objs[y.Obj].Summary:
				return one(k0)
			}
			return one(in.freshInt("ptreq", 0, 1))
		}
	case VSlice:
		if y, ok := b.(VSlice); ok {
			if st.isNil(y.Nil) {
				return one(x.Nil)
			}
			return one(y.Nil)
		}
	case VMap:
		if y, ok := b.(VMap); ok {
			if st.isNil(y.Nil) {
				return one(x.Nil)
			}
			return one(y.Nil)
		}
	case VChan:
		if y, ok := b.(VChan); ok {
			if st.isNil(y.Nil) {
				return one(x.Nil)
			}
			if st.isNil(x.Nil) {
				return one(y.Nil)
			}
			return one(in.freshInt("chaneq", 0, 1))
		}
	case VFunc:
		if y, ok := b.(VFunc); ok {
			if st.isNil(y.Nil) {
				return one(x.Nil)
			}
			return one(y.Nil)
		}
	case VIface:
		y, ok := b.(VIface)
		if !ok {
			return one(in.freshInt("ifeq", 0, 1))
		}
		switch {
		case st.isNil(y.Nil):
			return one(x.Nil)
		case st.isNil(x.Nil):
			return one(y.Nil)
		}
		if x.ID != "" && x.ID == y.ID && st.notNil(x.Nil) && st.notNil(y.Nil) {
			return one(k1)
		}
		if x.ID != "" && y.ID != "" {
			return one(symL(tab.named("ifeq("+x.ID+","+y.ID+")", 0, 1, nil)))
		}
		return one(in.freshInt("ifeq", 0, 1))
	case VStruct:
		y, ok := b.(VStruct)
		if !ok || len(x.F) != len(y.F) {
			break
		}
		all := k1
		for i := range x.F {
			_, ls := in.equal(st, in.expand(st, x.F[i]), in.expand(st, y.F[i]), ins)
			if k, ok := st.konst(ls[0]); ok && k == 0 {
				return one(k0)
			}
			all = in.and(st, all, ls[0])
		}
		return one(all)
	case *Arr:
		return one(in.freshInt("arreq", 0, 1))
	}
	in.giveUp(st, fmt.Sprintf("comparison of %T and %T", a, b))
	return one(in.freshInt("eq", 0, 1))
}

// and returns conjunction of 0/1 expressions.
func (in *Interp) and(st *State, a, b Lin) Lin {
	if k, ok := st.konst(a); ok {
		if k == 0 {
			return k0
		}
		return b
	}
	if k, ok := st.konst(b); ok {
		if k == 0 {
			return k0
		}
		return a
	}
	a, b = st.norm(a), st.norm(b)
	if eqLin(a, b) {
		return a
	}
	s := tab.named("and("+a.key()+","+b.key()+")", 0, 1, andDef{a, b})
	st.assumeLe(symL(s), a)
	st.assumeLe(symL(s), b)
	st.assumeLe(addK(add(a, b), -1), symL(s))
	return symL(s)
}

// strEq compares strings.
func (in *Interp) strEq(st *State, x, y VStr) Lin {
	s, ok1 := in.constStr(st, x)
	t, ok2 := in.constStr(st, y)
	if ok1 && ok2 {
		return boolv(s == t).L
	}
	if ok1 {
		x, y, s, t, ok1, ok2 = y, x, t, s, ok2, ok1
	}
	if ok2 {
		n := segsLen(x.S)
		if t == "" {
			return in.cmpEq(st, n)
		}
		if st.isNe(n, konst(int64(len(t)))) {
			return k0
		}
		if !in.canEqual(st, x.S, t) {
			return k0
		}
		// Different constant prefixes decide it.
		off := int64(0)
		for _, g := range x.S {
			k, ok := st.konst(g.N)
			if !ok || off >= int64(len(t)) {
				break
			}
			c, ok := in.constSegs(st, []Seg{g})
			if ok {
				for i := 0; i < len(c) && off+int64(i) < int64(len(t)); i++ {
					if c[i] != t[off+int64(i)] {
						return k0
					}
				}
			}
			off += k
		}
		key := in.segsKey(st, x.S)
		name := "streq(" + key + "," + t + ")"
		_, known := tab.memo[name]
		sy := tab.named(name, 0, 1, strDef{key, n, t, x})
		if !known {
			strSyms[key] = append(strSyms[key], sy)
		}
		if k, ok := st.konst(symL(sy)); ok {
			return konst(k)
		}
		for _, o := range strSyms[key] {
			if o != sy {
				if k, ok := st.konst(symL(o)); ok && k == 1 {
					return k0
				}
			}
		}
		return symL(sy)
	}
	ka, kb := in.segsKey(st, x.S), in.segsKey(st, y.S)
	if ka == kb {
		return k1
	}
	if ka > kb {
		ka, kb = kb, ka
	}
	return symL(tab.named("streq("+ka+","+kb+")", 0, 1, nil))
}

func (in *Interp) intOp(st *State, x *ssa.BinOp, a, b Lin) []*State {
	one := []*State{st}
	set := func(l Lin) []*State {
		st.set(x, VInt{l})
		return one
	}
	opaque := func() []*State {
		lo, hi, _, _ := intRange(x.Type())
		return set(in.freshInt("op", lo, hi))
	}
	var r Lin
	switch x.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		switch x.Op {
		case token.LSS: // a - b + 1 <= 0
			if !try(func() { r = addK(sub(a, b), 1) }) {
				return opaque()
			}
		case token.LEQ:
			if !try(func() { r = sub(a, b) }) {
				return opaque()
			}
		case token.GTR:
			if !try(func() { r = addK(sub(b, a), 1) }) {
				return opaque()
			}
		case token.GEQ:
			if !try(func() { r = sub(b, a) }) {
				return opaque()
			}
		}
		return set(in.cmpLe(st, r))
	case token.ADD:
		if !try(func() { r = add(a, b) }) {
			return opaque()
		}
		if in.accumulates(st, x, x.X, a, b) || in.accumulates(st, x, x.Y, b, a) {
			return set(r)
		}
		return set(in.wrap(st, r, x.Type()))
	case token.SUB:
		if !try(func() { r = sub(a, b) }) {
			return opaque()
		}
		return set(in.wrap(st, r, x.Type()))
	case token.MUL:
		a, b = st.norm(a), st.norm(b)
		ka, oka := st.konst(a)
		kb, okb := st.konst(b)
		switch {
		case oka:
			if !try(func() { r = scale(b, ka) }) {
				return opaque()
			}
			return set(in.wrap(st, r, x.Type()))
		case okb:
			if !try(func() { r = scale(a, kb) }) {
				return opaque()
			}
			return set(in.wrap(st, r, x.Type()))
		}
		al, ah := st.C.interval(a)
		bl, bh := st.C.interval(b)
		if small(bl, bh) && !small(al, ah) {
			a, b = b, a
			al, ah, bl, bh = bl, bh, al, ah
		}
		if small(al, ah) {
			var res []*State
			for k := al; k <= ah; k++ {
				s := st.clone()
				s.assumeEq(a, konst(k))
				if s.C.bot {
					continue
				}
				if !try(func() { r = scale(b, k) }) {
					continue
				}
				s.set(x, VInt{in.wrap(s, s.norm(r), x.Type())})
				res = append(res, s)
			}
			return res
		}
		ak, bk := a.key(), b.key()
		if ak > bk {
			ak, bk = bk, ak
		}
		lo, hi, _, _ := intRange(x.Type())
		return set(symL(tab.named(fmt.Sprintf("mul(%s,%s)%s", ak, bk, x.Type()), lo, hi, nil)))
	case token.QUO, token.REM:
		if k, ok := st.konst(b); ok && k != 0 {
			q, m, ok := in.divmod(st, a, k)
			if !ok {
				return opaque()
			}
			if x.Op == token.QUO {
				return set(q)
			}
			return set(m)
		}
		in.panicAt(st, "divide", x, st.isNe(b, k0), "division by value that may be zero")
		st.assumeNe(b, k0)
		if st.C.bot {
			return nil
		}
		if x.Op == token.REM && st.isLe(k0, a) && st.isLt(k0, b) {
			var res []*State
			s := st.clone()
			s.assumeLt(a, b)
			if !s.C.bot {
				s.set(x, VInt{a})
				res = append(res, s)
			}
			s = st.clone()
			s.assumeLe(b, a)
			s.assumeLt(a, add(b, b))
			if !s.C.bot {
				s.set(x, VInt{sub(a, b)})
				res = append(res, s)
			}
			s = st.clone()
			s.assumeLe(add(b, b), a)
			if !s.C.bot {
				m := in.freshInt("rem", 0, posInf)
				s.assumeLt(m, b)
				s.set(x, VInt{m})
				res = append(res, s)
			}
			return res
		}
		if x.Op == token.QUO && st.isLe(k0, a) && st.isLt(k0, b) {
			q := in.freshInt("quo", 0, posInf)
			st.assumeLe(q, a)
			return set(q)
		}
		return opaque()
	case token.AND:
		return set(in.bitAnd(st, a, b, x.Type()))
	case token.OR:
		return set(in.bitOr(st, a, b, x.Type(), false))
	case token.XOR:
		return set(in.bitOr(st, a, b, x.Type(), true))
	case token.AND_NOT:
		if k, ok := st.konst(b); ok {
			_, hi, bits, signed := intRange(x.Type())
			if !signed && bits < 64 {
				return set(in.bitAnd(st, a, konst(hi&^k), x.Type()))
			}
			if al, _ := st.C.interval(st.norm(a)); al >= 0 && k >= 0 {
				m := in.bitAnd(st, a, konst(k), x.Type())
				return set(sub(a, m))
			}
		}
		return opaque()
	case token.SHL:
		return in.shl(st, x, a, b)
	case token.SHR:
		return in.shr(st, x, a, b)
	}
	in.giveUp(st, "integer operation "+x.Op.String())
	return opaque()
}

func small(lo, hi int64) bool {
	return lo != negInf && hi != posInf && hi-lo <= 3 && hi >= lo
}

// divmod divides by a constant.
func (in *Interp) divmod(st *State, a Lin, k int64) (q, m Lin, ok bool) {
	a = st.norm(a)
	if c, isk := st.konst(a); isk {
		return konst(c / k), konst(c % k), true
	}
	if k < 0 {
		return
	}
	if k == 1 {
		return a, k0, true
	}
	nonneg := st.isLe(k0, a)
	if !nonneg {
		// Truncated division of a possibly negative value.
		m = in.freshInt("rem", -(k - 1), k-1)
		q = in.freshInt("quo", negInf, posInf)
		lo, hi := st.C.interval(a)
		if lo != negInf && hi != posInf {
			try(func() { st.C.addEq(sub(a, lincomb(m, k, q))) })
		}
		if st.isLe(a, k0) {
			st.assumeLe(m, k0)
		}
		return q, m, true
	}
	// Terms with coefficients divisible by k go into the quotient.
	qs, rest := k0, konst(0)
	for _, t := range a.T {
		if t.C%k == 0 {
			qs = lincomb(qs, t.C/k, symL(t.S))
		} else {
			rest = lincomb(rest, t.C, symL(t.S))
		}
	}
	rest.K = ((a.K % k) + k) % k
	qs.K = floordiv(a.K, k)
	lo, hi := st.C.interval(rest)
	if lo >= 0 && hi != posInf && hi < k {
		return qs, rest, true
	}
	if k&(k-1) == 0 && k < 1<<33 && st.apart(a) {
		if bl, w, ok := in.bitsOf(st, a); ok {
			s := mbits.TrailingZeros64(uint64(k))
			q, m = k0, k0
			for i := 0; i < w; i++ {
				if i < s {
					m = lincomb(m, 1<<i, bl[i])
				} else {
					q = lincomb(q, 1<<(i-s), bl[i])
				}
			}
			return st.norm(q), st.norm(m), true
		}
	}
	a = st.norm(a)
	qsym := tab.named(fmt.Sprintf("div(%s,%d)", a.key(), k), 0, posInf, divDef{a, k})
	msym := tab.named(fmt.Sprintf("rem(%s,%d)", a.key(), k), 0, k-1, modKDef{a, k})
	try(func() { st.C.addEq(sub(a, lincomb(symL(msym), k, symL(qsym)))) })
	return st.norm(symL(qsym)), st.norm(symL(msym)), true
}

// apart reports whether the terms of a sum may occupy different bits.
func (st *State) apart(l Lin) bool {
	used := uint64(0)
	for _, t := range l.T {
		lo, hi := st.C.low(t.S), st.C.high(t.S)
		if t.C <= 0 || lo < 0 || hi == posInf {
			return false
		}
		if _, opened := st.C.sub[t.S]; opened {
			continue
		}
		if w, at := mbits.Len64(uint64(hi)), mbits.TrailingZeros64(uint64(t.C)); w+at < 63 {
			if m := (uint64(1)<<w - 1) << at; w == 1 || used&m == 0 {
				used |= m
				continue
			}
			return false
		}
	}
	return true
}

type modKDef struct {
	L Lin
	K int64
}

// bitsOf decomposes a non-negative value of at most 16 bits (or one that already consists of bits).
func (in *Interp) bitsOf(st *State, l Lin) ([]Lin, int, bool) {
	l = st.norm(l)
	if l.isConst() {
		if l.K < 0 {
			return nil, 0, false
		}
		w := mbits.Len64(uint64(l.K))
		r := make([]Lin, w)
		for i := range r {
			r[i] = konst(l.K >> i & 1)
		}
		return r, w, true
	}
	// Open up bytes.
	for _, t := range l.T {
		lo, hi := st.C.low(t.S), st.C.high(t.S)
		if lo >= 0 && hi > 1 && hi <= 65535 {
			in.openBits(st, t.S, mbits.Len64(uint64(hi)))
		}
	}
	l = st.norm(l)
	at := map[int]Lin{}
	w := 0
	put := func(pos int, b Lin) bool {
		if _, ok := at[pos]; ok {
			return false
		}
		at[pos] = b
		if pos+1 > w {
			w = pos + 1
		}
		return true
	}
	ok := true
	for _, t := range l.T {
		if t.C <= 0 || t.C&(t.C-1) != 0 || st.C.low(t.S) < 0 || st.C.high(t.S) > 1 {
			ok = false
			break
		}
		if !put(mbits.TrailingZeros64(uint64(t.C)), symL(t.S)) {
			ok = false
			break
		}
	}
	if ok && l.K >= 0 {
		for i := 0; i < 62; i++ {
			if l.K>>i&1 == 1 && !put(i, k1) {
				ok = false
			}
		}
		if ok {
			r := make([]Lin, w)
			for i := range r {
				if b, has := at[i]; has {
					r[i] = b
				}
			}
			return r, w, true
		}
	}
	// Any other value of small range gets bits of its own.
	lo, hi := st.C.interval(l)
	if lo >= 0 && hi != posInf && hi <= 65535 {
		w := mbits.Len64(uint64(hi))
		s := tab.named("val("+l.key()+")", 0, 1<<w-1, nil)
		st.assumeEq(symL(s), l)
		r := make([]Lin, w)
		sum := k0
		for i := range r {
			b := tab.named(fmt.Sprintf("bit(%s,%d)", l.key(), i), 0, 1, nil)
			r[i] = symL(b)
			sum = lincomb(sum, 1<<i, symL(b))
		}
		st.assumeEq(sum, l)
		for i := range r {
			r[i] = st.norm(r[i])
		}
		return r, w, true
	}
	return nil, 0, false
}

// openBits defines a symbol as a sum of its bits.
func (in *Interp) openBits(st *State, s Sym, w int) {
	sum := k0
	for i := 0; i < w; i++ {
		b := tab.named(fmt.Sprintf("%s#%d.bit%d", tab.info[s].Name, s, i), 0, 1, bitDef{s, i})
		sum = lincomb(sum, 1<<i, symL(b))
	}
	st.assumeEq(symL(s), sum)
}

func (in *Interp) bitAnd(st *State, a, b Lin, t types.Type) Lin {
	a, b = st.norm(a), st.norm(b)
	if b.isConst() {
		a, b = b, a
	}
	if k, ok := st.konst(a); ok {
		if j, ok := st.konst(b); ok {
			return konst(k & j)
		}
		if k == 0 {
			return k0
		}
		if k > 0 {
			_, bh := st.C.interval(b)
			if k&(k+1) == 0 { // contiguous low bits
				if st.isLe(k0, b) && bh != posInf && bh <= k {
					return b
				}
				if st.isLe(k0, b) {
					if _, m, ok := in.divmod(st, b, k+1); ok {
						return m
					}
				}
			}
			if k&(k+1) == 0 {
				// Two's complement: multiples of the modulus do not matter.
				if lo, _ := st.C.interval(b); lo < 0 && lo > -1<<40 {
					if _, m, ok := in.divmod(st, addK(b, (-lo+k)/(k+1)*(k+1)), k+1); ok {
						return m
					}
				}
			}
			if bl, w, ok := in.bitsOf(st, b); ok {
				r := k0
				for i := 0; i < w; i++ {
					if k>>i&1 == 1 {
						r = lincomb(r, 1<<i, bl[i])
					}
				}
				return st.norm(r)
			}
			return in.freshInt("and", 0, k)
		}
	}
	if eqLin(a, b) {
		return a
	}
	// Booleans.
	if st.isLe(k0, a) && st.isLe(a, k1) && st.isLe(k0, b) && st.isLe(b, k1) {
		return in.and(st, a, b)
	}
	lo, hi, _, _ := intRange(t)
	r := in.freshInt("and", lo, hi)
	if st.isLe(k0, a) {
		st.assumeLe(k0, r)
		st.assumeLe(r, a)
	}
	if st.isLe(k0, b) {
		st.assumeLe(k0, r)
		st.assumeLe(r, b)
	}
	return r
}

// bitOr computes bitwise or (exclusive or).
func (in *Interp) bitOr(st *State, a, b Lin, t types.Type, xor bool) Lin {
	a, b = st.norm(a), st.norm(b)
	if a.isK(0) {
		return b
	}
	if b.isK(0) {
		return a
	}
	if k, ok := st.konst(a); ok {
		if j, ok := st.konst(b); ok {
			if xor {
				return konst(k ^ j)
			}
			return konst(k | j)
		}
	}
	if !st.isLe(k0, a) || !st.isLe(k0, b) {
		lo, hi, _, _ := intRange(t)
		return in.freshInt("or", lo, hi)
	}
	// Disjoint ranges of bits.
	if disjoint(st, a, b) || disjoint(st, b, a) {
		return add(a, b)
	}
	al, aw, ok1 := in.bitsOf(st, a)
	bl, bw, ok2 := in.bitsOf(st, b)
	if ok1 && ok2 {
		r := k0
		for i := 0; i < aw || i < bw; i++ {
			x, y := k0, k0
			if i < aw {
				x = al[i]
			}
			if i < bw {
				y = bl[i]
			}
			var z Lin
			kx, okx := st.konst(x)
			ky, oky := st.konst(y)
			switch {
			case okx && oky:
				if xor {
					z = konst(kx ^ ky)
				} else {
					z = konst(kx | ky)
				}
			case okx && kx == 0:
				z = y
			case oky && ky == 0:
				z = x
			case okx:
				z = k1
				if xor {
					z = sub(k1, y)
				}
			case oky:
				z = k1
				if xor {
					z = sub(k1, x)
				}
			default:
				both := in.and(st, x, y)
				z = sub(add(x, y), both)
				if xor {
					z = sub(z, both)
				}
			}
			r = lincomb(r, 1<<i, z)
		}
		return st.norm(r)
	}
	_, ah := st.C.interval(a)
	_, bh := st.C.interval(b)
	_, hi, _, _ := intRange(t)
	if ah != posInf && bh != posInf {
		w := mbits.Len64(uint64(max(ah, bh)))
		if w < 63 && int64(1)<<w-1 < hi {
			hi = int64(1)<<w - 1
		}
	}
	r := in.freshInt("or", 0, hi)
	if !xor {
		st.assumeLe(a, r)
		st.assumeLe(b, r)
	}
	st.assumeLe(r, add(a, b))
	return r
}

// disjoint reports that a is a multiple of a power of two that is above b.
func disjoint(st *State, a, b Lin) bool {
	g := a.gcdT()
	if a.K != 0 {
		g = gcd(g, a.K)
	}
	if g == 0 {
		return false
	}
	p := g & -g
	_, bh := st.C.interval(b)
	return bh != posInf && bh < p
}

func (in *Interp) shl(st *State, x *ssa.BinOp, a, b Lin) []*State {
	_, _, bits, _ := intRange(x.Type())
	set := func(s *State, l Lin) []*State {
		s.set(x, VInt{l})
		return []*State{s}
	}
	if _, _, _, signed := intRange(x.Y.Type()); signed {
		in.panicAt(st, "shift", x, st.isLe(k0, b), "shift count may be negative")
		st.assumeLe(k0, b)
	}
	if k, ok := st.konst(b); ok {
		return set(st, in.shlK(st, a, k, x.Type()))
	}
	_ = bits
	bl, bh := st.C.interval(st.norm(b))
	if bl != negInf && bh != posInf && bh-bl <= 12 && st.norm(a).isConst() {
		var res []*State
		for k := bl; k <= bh; k++ {
			s := st.clone()
			s.assumeEq(b, konst(k))
			if !s.C.bot {
				res = append(res, set(s, in.shlK(s, a, k, x.Type()))...)
			}
		}
		return res
	}
	// 1 << n of a wide n stays an uninterpreted function of n.
	lo, hi, _, _ := intRange(x.Type())
	if ka, ok := st.konst(a); ok && ka == 1 {
		s := tab.named(fmt.Sprintf("pow2(%s)%s", st.norm(b).key(), x.Type()), lo, hi, powDef{st.norm(b)})
		if bh != posInf && bits < 64 && bh < int64(bits) || bits == 64 && bh != posInf && bh < 62 {
			st.assumeLe(k1, symL(s))
			if bh < 62 {
				st.assumeLe(symL(s), konst(1<<bh))
			}
		}
		return set(st, symL(s))
	}
	al, _ := st.C.interval(st.norm(a))
	if al >= 0 {
		lo = 0
	}
	return set(st, in.freshInt("shl", lo, hi))
}

type powDef struct{ N Lin }

func (in *Interp) shlK(st *State, a Lin, k int64, t types.Type) Lin {
	_, _, bits, signed := intRange(t)
	if k >= int64(bits) {
		return k0
	}
	if c, ok := st.konst(a); ok {
		if bits == 64 {
			return konst(c << uint(k))
		}
		v := c << uint(k)
		if k < 63 && v>>uint(k) == c {
			return in.wrap(st, konst(v), t)
		}
	}
	var r Lin
	if k >= 62 || !try(func() { r = scale(a, 1<<uint(k)) }) {
		lo, hi, _, _ := intRange(t)
		return in.freshInt("shl", lo, hi)
	}
	if bits == 64 {
		r = st.norm(r)
		lo, hi := st.C.interval(r)
		if lo != negInf && hi != posInf {
			return r
		}
		if !signed {
			return in.freshInt("shl", 0, posInf)
		}
		return in.freshInt("shl", negInf, posInf)
	}
	if lo, hi, _, _ := intRange(t); true {
		r = st.norm(r)
		if a, b := st.C.interval(r); a != negInf && b != posInf && a >= lo && b <= hi {
			return r
		}
	}
	// Bits shifted out are lost.
	if bl, w, ok := in.bitsOf(st, a); ok {
		v := k0
		for i := 0; i < w && i+int(k) < bits; i++ {
			v = lincomb(v, 1<<(i+int(k)), bl[i])
		}
		return in.wrap(st, v, t)
	}
	return in.wrap(st, r, t)
}

func (in *Interp) shr(st *State, x *ssa.BinOp, a, b Lin) []*State {
	set := func(s *State, l Lin) []*State {
		s.set(x, VInt{l})
		return []*State{s}
	}
	if _, _, _, signed := intRange(x.Y.Type()); signed {
		in.panicAt(st, "shift", x, st.isLe(k0, b), "shift count may be negative")
		st.assumeLe(k0, b)
	}
	lo, hi, bits, _ := intRange(x.Type())
	if k, ok := st.konst(b); ok {
		if k == 0 {
			return set(st, a)
		}
		if st.isLe(k0, a) {
			if k >= int64(bits) || k >= 62 {
				return set(st, k0)
			}
			if q, _, ok := in.divmod(st, a, 1<<uint(k)); ok {
				return set(st, q)
			}
		}
		return set(st, in.freshInt("shr", lo, hi))
	}
	if st.isLe(k0, a) {
		// Small sets of counts could be enumerated; the range is enough for most purposes.
		r := in.freshInt("shr", 0, hi)
		st.assumeLe(r, a)
		return set(st, r)
	}
	return set(st, in.freshInt("shr", lo, hi))
}

// convert executes conversions.
func (in *Interp) convert(st *State, x *ssa.Convert) []*State {
	v := in.eval(st, x.X)
	from, to := under(x.X.Type()), under(x.Type())
	one := []*State{st}
	_, _, fb, _ := intRange(from)
	_, _, tb, _ := intRange(to)
	switch {
	case fb > 0 && tb > 0:
		st.set(x, VInt{in.convInt(st, v.(VInt).L, from, to)})
		return one
	case fb > 0 && isFloat(to):
		l := st.norm(v.(VInt).L)
		if k, ok := st.konst(l); ok {
			st.set(x, VFloat{Known: true, V: float64(k)})
			return one
		}
		lo, hi := st.C.interval(l)
		if lo != negInf && hi != posInf && hi-lo <= 15 {
			var res []*State
			for k := lo; k <= hi; k++ {
				s := st.clone()
				s.assumeEq(l, konst(k))
				if !s.C.bot {
					s.set(x, VFloat{Known: true, V: float64(k)})
					res = append(res, s)
				}
			}
			return res
		}
		st.set(x, VFloat{ID: "float(" + l.key() + ")"})
		return one
	case isFloat(from) && tb > 0:
		f := v.(VFloat)
		if f.Known && math.Abs(f.V) < 1e15 {
			st.set(x, VInt{in.wrap(st, konst(int64(f.V)), x.Type())})
			return one
		}
		lo, hi, _, _ := intRange(to)
		if f.ID != "" {
			st.set(x, VInt{symL(tab.named(fmt.Sprintf("int(%s)%s", f.ID, x.Type()), lo, hi, nil))})
		} else {
			st.set(x, VInt{in.freshInt("f2i", lo, hi)})
		}
		return one
	case isFloat(from) && isFloat(to):
		st.set(x, v)
		return one
	case isString(from) && isString(to):
		st.set(x, v)
		return one
	case isString(to):
		switch s := v.(type) {
		case VSlice:
			if b, ok := from.(*types.Slice); ok && isByte(b.Elem()) {
				st.set(x, VStr{in.window(st, s)})
				return one
			}
		case VInt:
			if k, ok := st.konst(s.L); ok {
				st.set(x, strConst(string(rune(k))))
				return one
			}
			n := in.freshInt("runelen", 1, 4)
			st.set(x, VStr{[]Seg{{Kind: SBase, ID: in.freshID("rune"), Off: k0, N: n}}})
			return one
		}
		st.set(x, in.freshVal(st, x.Type(), "str"))
		return one
	case isString(from):
		if b, ok := to.(*types.Slice); ok && isByte(b.Elem()) {
			s := v.(VStr)
			st.set(x, in.newSlice(st, b.Elem(), s.S, x))
			return one
		}
		st.set(x, in.freshVal(st, x.Type(), "runes"))
		return one
	}
	if _, ok := to.(*types.Pointer); ok {
		st.set(x, v)
		return one
	}
	in.giveUp(st, fmt.Sprintf("conversion from %s to %s", x.X.Type(), x.Type()))
	st.set(x, in.freshVal(st, x.Type(), "conv"))
	return one
}

func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (in *Interp) convInt(st *State, l Lin, from, to types.Type) Lin {
	flo, fhi, _, _ := intRange(from)
	lo, hi, bits, signed := intRange(to)
	if flo >= lo && fhi <= hi && !(fhi == posInf && signed && flo == 0) {
		return l
	}
	l = st.norm(l)
	if bits == 64 {
		a, b := st.C.interval(l)
		if signed {
			// From uint64.
			if b != posInf {
				return l
			}
			return in.modulo(st, l, 64, true)
		}
		if a >= 0 || st.isLe(k0, l) {
			return l
		}
		return in.modulo(st, l, 64, false)
	}
	return in.wrap(st, l, to)
}

func (in *Interp) typeAssert(st *State, x *ssa.TypeAssert) []*State {
	v, ok := in.eval(st, x.X).(VIface)
	if !ok {
		in.giveUp(st, "type assertion on unknown value")
		st.set(x, in.freshVal(st, x.Type(), "ta"))
		return []*State{st}
	}
	_, toIface := under(x.AssertedType).(*types.Interface)
	// Value in the case of success.
	value := func(s *State) Value {
		if toIface {
			r := v
			r.Nil = k0
			return r
		}
		if v.Val != nil && v.Dyn != nil && types.Identical(v.Dyn, x.AssertedType) {
			return v.Val
		}
		r := in.expand(s, VLazy{x.AssertedType, v.ID + ".(" + x.AssertedType.String() + ")"})
		if p, ok := r.(VPtr); ok {
			s.assumeEq(p.Nil, k0)
			p.Nil = k0
			r = p
		}
		return r
	}
	verdict := -1
	if st.isNil(v.Nil) {
		verdict = 0
	} else if v.Dyn != nil {
		if toIface {
			if types.Implements(v.Dyn, under(x.AssertedType).(*types.Interface)) {
				verdict = 1
			} else {
				verdict = 0
			}
		} else if types.Identical(v.Dyn, x.AssertedType) {
			verdict = 1
		} else {
			verdict = 0
		}
	}
	if !x.CommaOk {
		in.panicAt(st, "typeassert", x, verdict == 1 && st.notNil(v.Nil), "type assertion may fail")
		st.assumeEq(v.Nil, k0)
		if st.C.bot || verdict == 0 {
			return nil
		}
		st.set(x, value(st))
		return []*State{st}
	}
	var res []*State
	if verdict != 0 {
		s := st.clone()
		s.assumeEq(v.Nil, k0)
		if !s.C.bot {
			s.set(x, VTuple{[]Value{value(s), boolv(true)}})
			res = append(res, s)
		}
	}
	if verdict != 1 || !st.notNil(v.Nil) {
		s := st.clone()
		if verdict == 1 {
			s.assumeEq(v.Nil, k1)
		}
		if !s.C.bot {
			s.set(x, VTuple{[]Value{zero(x.AssertedType), boolv(false)}})
			res = append(res, s)
		}
	}
	return res
}

// lookup reads a map entry or a byte of a string.
func (in *Interp) lookup(st *State, x *ssa.Lookup) []*State {
	if s, ok := in.eval(st, x.X).(VStr); ok {
		idx := in.eval(st, x.Index).(VInt).L
		in.inBounds(st, x, idx, segsLen(s.S))
		if st.C.bot {
			return nil
		}
		st.set(x, in.segElem(st, s.S, types.Typ[types.Uint8], idx))
		return []*State{st}
	}
	m, ok := in.eval(st, x.X).(VMap)
	key := in.eval(st, x.Index)
	et := under(x.X.Type()).(*types.Map).Elem()
	emit := func(s *State, v Value, found Lin) *State {
		if x.CommaOk {
			s.set(x, VTuple{[]Value{v, VInt{found}}})
		} else {
			s.set(x, v)
		}
		return s
	}
	if !ok {
		in.giveUp(st, "lookup in unknown map")
		return []*State{emit(st, in.freshVal(st, et, "lk"), in.freshInt("ok", 0, 1))}
	}
	var res []*State
	for _, o := range in.mapGet(st, m, key, et) {
		res = append(res, emit(o.st, o.v, boolv(o.found).L))
	}
	return res
}

type found struct {
	st    *State
	v     Value
	found bool
}

// keyEq compares map keys: 1 equal, 0 different, -1 unknown.
func (in *Interp) keyEq(st *State, a, b Value) (int, Lin) {
	_, ls := in.equal(st, a, b, nil)
	if k, ok := st.konst(ls[0]); ok {
		return int(k), ls[0]
	}
	return -1, ls[0]
}

func (in *Interp) mapContents(st *State, m VMap) *MapC {
	c, ok := in.contents(st, m.Obj).(*MapC)
	if !ok {
		v := in.contents(st, m.Obj)
		if l, ok := v.(VLazy); ok {
			if mt, ok := under(l.T).(*types.Map); ok {
				return &MapC{Key: mt.Key(), Elem: mt.Elem(), Lazy: l.ID}
			}
		}
		in.giveUp(st, fmt.Sprintf("contents of map is %T", v))
		return nil
	}
	return c
}

func (in *Interp) mapGet(st *State, m VMap, key Value, et types.Type) []found {
	var res []found
	if !st.notNil(m.Nil) {
		s := st.clone()
		s.assumeEq(m.Nil, k1)
		if !s.C.bot {
			res = append(res, found{s, zero(et), false})
		}
		st = st.clone()
		st.assumeEq(m.Nil, k0)
		if st.C.bot {
			return res
		}
	}
	c := in.mapContents(st, m)
	if c == nil {
		return append(res, found{st, in.freshVal(st, et, "map"), true}, found{st.clone(), zero(et), false})
	}
	if in.objs[m.Obj].Summary {
		s := st.clone()
		res = append(res, found{s, zero(et), false})
		for _, w := range c.Over {
			if w.Val != nil {
				s := st.clone()
				res = append(res, found{s, in.instantiate(s, in.pattern(s, w.Val)), true})
			}
		}
		if c.Pat != nil {
			s := st.clone()
			res = append(res, found{s, in.expand(s, in.instantiate(s, c.Pat)), true})
		}
		if c.Lazy != "" {
			s := st.clone()
			res = append(res, found{s, in.freshVal(s, et, "map"), true})
		}
		return res
	}
	for i := len(c.Over) - 1; i >= 0; i-- {
		w := c.Over[i]
		eq, l := in.keyEq(st, w.Key, key)
		if eq == 0 {
			continue
		}
		s := st
		if eq < 0 {
			s = st.clone()
			in.assumeCond(s, l, true)
		}
		if !s.C.bot {
			if w.Val == nil {
				res = append(res, found{s, zero(et), false})
			} else {
				res = append(res, found{s, in.expand(s, w.Val), true})
			}
		}
		if eq == 1 {
			return res
		}
		st = st.clone()
		in.assumeCond(st, l, false)
		if st.C.bot {
			return res
		}
	}
	if c.Lazy != "" {
		id := c.Lazy + "[" + in.valKey(st, key) + "]"
		ok := symL(tab.named(id+"?ok", 0, 1, nil))
		s := st.clone()
		s.assumeEq(ok, k1)
		if !s.C.bot {
			res = append(res, found{s, in.expand(s, VLazy{et, id}), true})
		}
		st = st.clone()
		st.assumeEq(ok, k0)
	}
	if st.C.bot {
		return res
	}
	if c.Pat != nil {
		s := st.clone()
		res = append(res, found{s, in.expand(s, in.instantiate(s, c.Pat)), true})
	}
	return append(res, found{st, zero(et), false})
}

func (in *Interp) mapUpdate(st *State, m VMap, key, val Value) {
	c := in.mapContents(st, m)
	if c == nil {
		return
	}
	r := &MapC{Key: c.Key, Elem: c.Elem, Lazy: c.Lazy, Pat: c.Pat}
	if in.objs[m.Obj].Summary {
		r.Over = c.Over
		if val != nil {
			r.Pat = in.patJoin2(st, c.Pat, val)
		}
		st.setHeap(m.Obj, r)
		return
	}
	for _, w := range c.Over {
		if eq, _ := in.keyEq(st, w.Key, key); eq != 1 {
			r.Over = append(r.Over, w)
		}
	}
	r.Over = append(r.Over, MapWrite{key, val})
	if len(r.Over) > max(12, in.unrolls) {
		for _, w := range r.Over {
			if w.Val != nil {
				r.Pat = in.patJoin2(st, r.Pat, w.Val)
			}
		}
		r.Over = nil
	}
	st.setHeap(m.Obj, r)
}

// next advances iteration over a string or map.
func (in *Interp) next(st *State, x *ssa.Next) []*State {
	it, ok := in.eval(st, x.Iter).(VIter)
	if !ok {
		in.giveUp(st, "iteration over unknown value")
		return nil
	}
	tt := x.Type().(*types.Tuple)
	zk := func(i int) Value {
		t := tt.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return VInt{k0}
		}
		return zero(t)
	}
	var res []*State
	done := st.clone()
	done.set(x, VTuple{[]Value{boolv(false), zk(1), zk(2)}})
	if x.IsString {
		s := it.X.(VStr)
		n := segsLen(s.S)
		i := in.freshInt("iter", 0, maxLen)
		st.assumeLt(i, n)
		if !st.C.bot {
			st.set(x, VTuple{[]Value{boolv(true), VInt{i}, VInt{in.freshInt("rune", 0, 0x10ffff)}}})
			res = append(res, st)
		}
		return append(res, done)
	}
	m := it.X.(VMap)
	mt := under(x.Iter.(*ssa.Range).X.Type()).(*types.Map)
	if !st.isNil(m.Nil) {
		s := st.clone()
		s.assumeEq(m.Nil, k0)
		if !s.C.bot {
			if c := in.mapContents(s, m); c != nil {
				if in.mapOnce && c.Lazy == "" && c.Pat == nil && !in.objs[m.Obj].Summary {
					// Each entry once in order of insertion.
					for i := it.Pos; i < len(c.Over); i++ {
						if w := c.Over[i]; w.Val != nil {
							it.Pos = i + 1
							s.set(x.Iter, it)
							s.set(x, VTuple{[]Value{boolv(true), in.expand(s, w.Key), in.expand(s, w.Val)}})
							return []*State{s}
						}
					}
					return []*State{done}
				}
				// One state for each kind of entry.
				for _, w := range c.Over {
					if w.Val == nil {
						continue
					}
					s2 := s.clone()
					v := w.Val
					if in.objs[m.Obj].Summary {
						v = in.instantiate(s2, in.pattern(s2, v))
					}
					s2.set(x, VTuple{[]Value{boolv(true), in.expand(s2, w.Key), in.expand(s2, v)}})
					res = append(res, s2)
				}
				if c.Pat != nil {
					s2 := s.clone()
					s2.set(x, VTuple{[]Value{boolv(true), in.freshVal(s2, mt.Key(), "key"), in.expand(s2, in.instantiate(s2, c.Pat))}})
					res = append(res, s2)
				}
				if c.Lazy != "" {
					s2 := s.clone()
					key := in.freshVal(s2, mt.Key(), c.Lazy+".key")
					id := c.Lazy + "[" + in.valKey(s2, key) + "]"
					s2.set(x, VTuple{[]Value{boolv(true), key, in.expand(s2, VLazy{mt.Elem(), id})}})
					res = append(res, s2)
				}
			}
		}
	}
	return append(res, done)
}

func (in *Interp) selectOp(st *State, x *ssa.Select) []*State {
	var res []*State
	n := 0
	ready := false
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			n++
		}
	}
	mk := func(s *State, idx int, ok Lin, recv []Value) {
		t := VTuple{[]Value{intk(int64(idx)), VInt{ok}}}
		k := 0
		for i, c := range x.States {
			if c.Dir != types.RecvOnly {
				continue
			}
			et := under(c.Chan.Type()).(*types.Chan).Elem()
			if i == idx {
				t.V = append(t.V, recv[0])
			} else {
				t.V = append(t.V, zero(et))
			}
			k++
		}
		s.set(x, t)
		res = append(res, s)
	}
	for i, c := range x.States {
		s := st.clone()
		ch, _ := in.eval(s, c.Chan).(VChan)
		if s.isNil(ch.Nil) {
			continue // never ready
		}
		s.assumeEq(ch.Nil, k0)
		if s.C.bot {
			continue
		}
		if in.h.Ready != nil {
			switch in.h.Ready(s, x, ch, c.Dir == types.RecvOnly) {
			case 0:
				continue
			case 1:
				ready = true
			}
		}
		if c.Dir == types.RecvOnly {
			et := under(c.Chan.Type()).(*types.Chan).Elem()
			var v Value
			if in.h.Recv != nil {
				v = in.h.Recv(s, x, ch, et)
			}
			if v == nil {
				v = in.freshVal(s, et, "recv")
			}
			mk(s, i, in.freshInt("ok", 0, 1), []Value{v})
		} else {
			v := in.eval(s, c.Send)
			if in.h.Send != nil {
				in.h.Send(s, x, ch, v)
			}
			mk(s, i, k0, nil)
		}
	}
	if !x.Blocking && !ready {
		mk(st.clone(), -1, k0, nil)
	}
	return res
}
