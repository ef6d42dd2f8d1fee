package main

import (
	"math"
	"sort"
	"strconv"
)

// Sym is a symbolic integer constant.  Everything known about it is in the symbol table (range that
// follows from its type, definition) and in the constraint store of a state.
type Sym int32

// Term is a coefficient with a symbol.
type Term struct {
	S Sym
	C int64
}

// Lin is an affine expression K + sum C*S with terms sorted by symbol.  It is immutable.
type Lin struct {
	K int64
	T []Term
}

const (
	negInf = math.MinInt64
	posInf = math.MaxInt64
)

func konst(k int64) Lin { return Lin{K: k} }
func symL(s Sym) Lin    { return Lin{T: []Term{{s, 1}}} }

func (l Lin) isConst() bool { return len(l.T) == 0 }

func (l Lin) isK(k int64) bool { return len(l.T) == 0 && l.K == k }

// single returns the symbol of an expression that consists of just that symbol.
func (l Lin) single() (Sym, bool) {
	if l.K == 0 && len(l.T) == 1 && l.T[0].C == 1 {
		return l.T[0].S, true
	}
	return 0, false
}

func (l Lin) key() string {
	var a [96]byte
	b := strconv.AppendInt(a[:0], l.K, 10)
	for _, t := range l.T {
		b = strconv.AppendInt(append(b, '+'), t.C, 10)
		b = strconv.AppendInt(append(b, 's'), int64(t.S), 10)
	}
	return string(b)
}

// hkey identifies the homogeneous part.
func (l Lin) hkey() string { l.K = 0; return l.key() }

// sortLins brings expressions into a definite order.
func sortLins(ls []Lin) {
	type keyed struct {
		key string
		l   Lin
	}
	k := make([]keyed, len(ls))
	for i, l := range ls {
		k[i] = keyed{l.key(), l}
	}
	sort.Slice(k, func(i, j int) bool { return k[i].key < k[j].key })
	for i := range k {
		ls[i] = k[i].l
	}
}

func eqLin(a, b Lin) bool {
	if a.K != b.K || len(a.T) != len(b.T) {
		return false
	}
	for i := range a.T {
		if a.T[i] != b.T[i] {
			return false
		}
	}
	return true
}

// sameTerms reports whether expressions differ in their constants at most.
func sameTerms(a, b Lin) bool {
	if len(a.T) != len(b.T) {
		return false
	}
	for i := range a.T {
		if a.T[i] != b.T[i] {
			return false
		}
	}
	return true
}

type overflow struct{}

func addc(a, b int64) int64 {
	c := a + b
	if (c > a) != (b > 0) && b != 0 {
		panic(overflow{})
	}
	return c
}

func mulc(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	c := a * b
	if c/b != a || (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		panic(overflow{})
	}
	return c
}

// try runs an arithmetic computation and reports whether it did not overflow.
func try(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(overflow); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	f()
	return true
}

// lincomb computes a + c*b.
func lincomb(a Lin, c int64, b Lin) Lin {
	if c == 0 {
		return a
	}
	r := Lin{K: addc(a.K, mulc(c, b.K))}
	if len(b.T) == 0 {
		r.T = a.T
		return r
	}
	r.T = make([]Term, 0, len(a.T)+len(b.T))
	i, j := 0, 0
	for i < len(a.T) || j < len(b.T) {
		switch {
		case j == len(b.T) || i < len(a.T) && a.T[i].S < b.T[j].S:
			r.T = append(r.T, a.T[i])
			i++
		case i == len(a.T) || b.T[j].S < a.T[i].S:
			r.T = append(r.T, Term{b.T[j].S, mulc(c, b.T[j].C)})
			j++
		default:
			v := addc(a.T[i].C, mulc(c, b.T[j].C))
			if v != 0 {
				r.T = append(r.T, Term{a.T[i].S, v})
			}
			i++
			j++
		}
	}
	return r
}

func add(a, b Lin) Lin         { return lincomb(a, 1, b) }
func sub(a, b Lin) Lin         { return lincomb(a, -1, b) }
func neg(a Lin) Lin            { return lincomb(Lin{}, -1, a) }
func scale(a Lin, c int64) Lin { return lincomb(Lin{}, c, a) }
func addK(a Lin, k int64) Lin  { a.K = addc(a.K, k); return a }

func (l Lin) coef(s Sym) int64 {
	i := sort.Search(len(l.T), func(i int) bool { return l.T[i].S >= s })
	if i < len(l.T) && l.T[i].S == s {
		return l.T[i].C
	}
	return 0
}

func (l Lin) has(s Sym) bool { return l.coef(s) != 0 }

// subst replaces s by r in l.
func (l Lin) subst(s Sym, r Lin) Lin {
	c := l.coef(s)
	if c == 0 {
		return l
	}
	t := make([]Term, 0, len(l.T)-1)
	for _, x := range l.T {
		if x.S != s {
			t = append(t, x)
		}
	}
	return lincomb(Lin{l.K, t}, c, r)
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func (l Lin) gcdT() int64 {
	g := int64(0)
	for _, t := range l.T {
		g = gcd(g, t.C)
	}
	return g
}

func floordiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func ceildiv(a, b int64) int64 { return -floordiv(-a, b) }

// tighten divides constraint l <= 0 by the gcd of its coefficients, rounding the constant in the
// way that is valid for integers.
func tighten(l Lin) Lin {
	g := l.gcdT()
	if g <= 1 {
		return l
	}
	r := Lin{T: make([]Term, len(l.T))}
	for i, t := range l.T {
		r.T[i] = Term{t.S, t.C / g}
	}
	// sum <= -K  =>  sum/g <= floor(-K/g)
	r.K = -floordiv(-l.K, g)
	return r
}
