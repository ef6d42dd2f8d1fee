package main

import (
	"go/types"
	"sort"
	"strings"
)

// joinTags returns labels of both sequences.
func (in *Interp) joinTags(a, b []Seg) string {
	set := map[string]bool{}
	for _, segs := range [][]Seg{a, b} {
		for _, s := range segs {
			for _, t := range strings.Split(s.Tags, ",") {
				if t != "" {
					set[t] = true
				}
			}
			for _, v := range s.Args {
				if x, ok := v.(VStr); ok {
					for _, t := range strings.Split(in.joinTags(x.S, nil), ",") {
						if t != "" {
							set[t] = true
						}
					}
				}
			}
		}
	}
	var r []string
	for t := range set {
		r = append(r, t)
	}
	sort.Strings(r)
	return strings.Join(r, ",")
}

// filled returns elements of an array that a loop fills in order: each write that is for the place right before zeros that
// are left becomes a part of what precedes them.
func (in *Interp) filled(st *State, a *Arr) ([]Seg, bool) {
	if !fillable(a.Et) || len(a.S) == 0 || a.S[len(a.S)-1].Kind != SZero {
		return nil, false
	}
	pre, rest := append([]Seg(nil), a.S[:len(a.S)-1]...), a.S[len(a.S)-1].N
	at := segsLen(pre)
	for _, w := range a.Over {
		if !st.isEq(w.Idx, at) {
			return nil, false
		}
		pre = append(pre, Seg{Kind: SVals, N: k1, Vals: []Value{w.Val}})
		at, rest = addK(at, 1), addK(rest, -1)
	}
	if !st.isLe(k0, rest) {
		return nil, false
	}
	return append(pre, Seg{Kind: SZero, N: rest}), true
}

func fillable(et types.Type) bool {
	_, ok := under(et).(*types.Basic)
	return !ok
}

// zeroTail tells what precedes the zeros a sequence ends with.
func zeroTail(st *State, a []Seg) (pre []Seg, rest Lin, ok bool) {
	if n := len(a); n > 0 && a[n-1].Kind == SZero {
		if st.isEq(a[n-1].N, k0) {
			return a[:n-1], k0, n > 1
		}
		return a[:n-1], a[n-1].N, true
	}
	return a, k0, false
}

// joinSegs joins sequences of different shape when some of the structure can be kept: what was filled in, and zeros.
func (in *Interp) joinSegs(j *joiner, a, b []Seg, et types.Type) ([]Seg, bool) {
	if !fillable(et) {
		return nil, false
	}
	pa, ra, oka := zeroTail(j.a, a)
	pb, rb, okb := zeroTail(j.b, b)
	if !oka && !okb {
		return nil, false
	}
	rest := Seg{Kind: SZero, N: j.lin(ra, rb)}
	na, nb := segsLen(pa), segsLen(pb)
	n := j.lin(na, nb)
	ea, eb := j.a.isEq(na, k0), j.b.isEq(nb, k0)
	switch {
	case ea && eb:
		return []Seg{rest}, true
	case ea:
		return []Seg{{Kind: SSum, N: n, ID: in.freshID("sum"), Pat: j.oneSided(in.segsPattern(j.b, pb, et), false)}, rest}, true
	case eb:
		return []Seg{{Kind: SSum, N: n, ID: in.freshID("sum"), Pat: j.oneSided(in.segsPattern(j.a, pa, et), true)}, rest}, true
	}
	return []Seg{j.sum(in.segsPattern(j.a, pa, et), in.segsPattern(j.b, pb, et), n), rest}, true
}

func (in *Interp) coverSegs(c *coverer, a, b []Seg, et types.Type) (bool, bool) {
	if !fillable(et) || len(a) != 2 || a[0].Kind != SSum || a[1].Kind != SZero {
		return false, false
	}
	pre, rest, _ := zeroTail(c.s, b)
	if !c.lin(a[0].N, segsLen(pre)) || !c.lin(a[1].N, rest) {
		return false, true
	}
	if c.s.isEq(segsLen(pre), k0) {
		return true, true
	}
	return c.patVal(a[0].Pat, in.segsPattern(c.s, pre, et)), true
}
