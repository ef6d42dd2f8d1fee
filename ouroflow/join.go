package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// joiner joins states a and b into r.
type joiner struct {
	in    *Interp
	a, b  *State
	r     *State
	cells []cell
	cmemo map[string]Sym
	omap  map[[2]ObjID]ObjID
	oa    map[ObjID]ObjID
	ob    map[ObjID]ObjID
	work  [][3]ObjID
	kept  map[Sym]bool
	redo  bool
	widen bool
}

// cell is a place that holds different expressions in the joined states.
type cell struct {
	s    Sym
	a, b Lin
}

// lin joins expressions.
func (j *joiner) lin(a, b Lin) Lin {
	if eqLin(a, b) && !a.isConst() {
		// The same expression, although each state may know different things about it.
		for _, t := range a.T {
			if j.kept[t.S] {
				continue
			}
			j.kept[t.S] = true
			if x, y := j.a.norm(symL(t.S)), j.b.norm(symL(t.S)); !eqLin(x, y) {
				j.cells = append(j.cells, cell{t.S, x, y})
			}
		}
		return a
	}
	a, b = j.a.norm(a), j.b.norm(b)
	if eqLin(a, b) {
		for _, t := range a.T {
			j.kept[t.S] = true
		}
		return a
	}
	k := a.key() + "|" + b.key()
	if s, ok := j.cmemo[k]; ok {
		return symL(s)
	}
	al, ah := j.a.C.interval(a)
	bl, bh := j.b.C.interval(b)
	if bl < al {
		al = bl
	}
	if bh > ah {
		ah = bh
	}
	// Range of the type is not known here, the symbol is bounded by constraints only; keep the bits of
	// information that hold for sure.
	lo, hi := int64(negInf), int64(posInf)
	if al >= 0 {
		lo = 0
	}
	if al >= 0 && ah <= 1 {
		hi = 1
	} else if al >= 0 && ah <= 255 {
		hi = 255
	} else if al >= 0 && ah <= 65535 && !j.widen {
		hi = 65535
	} else if al >= 0 && ah <= 1<<32-1 {
		hi = 1<<32 - 1
	} else if al >= 0 && ah <= maxLen {
		hi = maxLen
	}
	s := tab.fresh("j", lo, hi)
	j.cmemo[k] = s
	j.cells = append(j.cells, cell{s, a, b})
	return symL(s)
}

func (j *joiner) obj(a, b ObjID) (ObjID, bool) {
	if a == b {
		k := [2]ObjID{a, b}
		if _, ok := j.omap[k]; !ok {
			if n, ok := j.oa[a]; ok {
				_ = n
				return 0, false
			}
			if _, ok := j.ob[b]; ok {
				return 0, false
			}
			j.omap[k] = a
			j.oa[a], j.ob[b] = a, a
			j.work = append(j.work, [3]ObjID{a, a, a})
		}
		return j.omap[k], true
	}
	k := [2]ObjID{a, b}
	if n, ok := j.omap[k]; ok {
		return n, true
	}
	if _, ok := j.oa[a]; ok {
		return 0, false
	}
	if _, ok := j.ob[b]; ok {
		return 0, false
	}
	ia, ib := j.in.objs[a], j.in.objs[b]
	n := j.in.newObj(ObjInfo{T: ia.T, Name: ia.Name, Summary: ia.Summary || ib.Summary, Site: ia.Site, Arg: j.in.isArg(a) || j.in.isArg(b)})
	j.omap[k] = n
	j.oa[a], j.ob[b] = n, n
	j.work = append(j.work, [3]ObjID{a, b, n})
	return n, true
}

func (j *joiner) path(a, b Path) (Path, bool) {
	if len(a) != len(b) {
		return nil, false
	}
	r := make(Path, len(a))
	for i := range a {
		if a[i].Arr != b[i].Arr || !a[i].Arr && a[i].F != b[i].F {
			return nil, false
		}
		r[i] = a[i]
		if a[i].Arr {
			r[i].Idx = j.lin(a[i].Idx, b[i].Idx)
		}
	}
	return r, true
}

func isLazyKind(v Value) bool {
	switch v.(type) {
	case VLazy, VPat, patSlice:
		return true
	}
	return false
}

// val joins values.
func (j *joiner) val(a, b Value) Value {
	if x, ok := a.(VLazy); ok {
		if y, ok := b.(VLazy); ok && x.ID == y.ID {
			return x
		}
	}
	if x, ok := a.(VPat); ok {
		if y, ok := b.(VPat); ok {
			al, ah, ok1 := patRange(x)
			bl, bh, ok2 := patRange(y)
			if ok1 && ok2 {
				return VPat{T: x.T, Lo: min(al, bl), Hi: max(ah, bh)}
			}
			return x
		}
	}
	if x, ok := a.(patSlice); ok {
		if y, ok := b.(patSlice); ok && x.S.Obj == y.S.Obj {
			if o, ok := j.obj(x.S.Obj, y.S.Obj); ok {
				x.S.Obj = o
				x.S.Nil = j.patNil(x.S.Nil, y.S.Nil)
				return x
			}
		}
	}
	if isLazyKind(a) {
		a = j.in.expand(j.a, a)
	}
	if isLazyKind(b) {
		b = j.in.expand(j.b, b)
	}
	switch x := a.(type) {
	case VInt:
		if y, ok := b.(VInt); ok {
			return VInt{j.lin(x.L, y.L)}
		}
	case VFloat:
		if y, ok := b.(VFloat); ok {
			if x == y {
				return x
			}
			return VFloat{ID: j.in.freshID("float")}
		}
	case VStr:
		if y, ok := b.(VStr); ok {
			return VStr{j.segs(x.S, y.S, types.Typ[types.Byte])}
		}
	case VPtr:
		if y, ok := b.(VPtr); ok {
			nl := j.lin(x.Nil, y.Nil)
			if j.a.isNil(x.Nil) && j.b.isNil(y.Nil) {
				return VPtr{Nil: nl}
			}
			if j.a.isNil(x.Nil) {
				return j.oneSided(VPtr{nl, y.Obj, y.Path}, false)
			}
			if j.b.isNil(y.Nil) {
				return j.oneSided(VPtr{nl, x.Obj, x.Path}, true)
			}
			if p, ok := j.path(x.Path, y.Path); ok {
				if o, ok := j.obj(x.Obj, y.Obj); ok {
					return VPtr{nl, o, p}
				}
			}
			return j.lost(VPtr{nl, x.Obj, x.Path}, VPtr{nl, y.Obj, y.Path})
		}
	case VSlice:
		if y, ok := b.(VSlice); ok {
			nl := j.lin(x.Nil, y.Nil)
			an, bn := j.a.isNil(x.Nil), j.b.isNil(y.Nil)
			switch {
			case an && bn:
				return VSlice{Nil: nl}
			case an:
				p, ok := j.objOf(y.Obj, y.Path, false)
				if ok {
					return VSlice{Nil: nl, Obj: p, Path: y.Path, Off: j.lin(y.Off, y.Off), Len: j.lin(k0, y.Len), Cap: j.lin(k0, y.Cap)}
				}
			case bn:
				p, ok := j.objOf(x.Obj, x.Path, true)
				if ok {
					return VSlice{Nil: nl, Obj: p, Path: x.Path, Off: j.lin(x.Off, x.Off), Len: j.lin(x.Len, k0), Cap: j.lin(x.Cap, k0)}
				}
			default:
				if p, ok := j.path(x.Path, y.Path); ok {
					if o, ok := j.obj(x.Obj, y.Obj); ok {
						return VSlice{Nil: nl, Obj: o, Path: p, Off: j.lin(x.Off, y.Off), Len: j.lin(x.Len, y.Len), Cap: j.lin(x.Cap, y.Cap)}
					}
				}
			}
			return j.lostSlice(nl, x, y)
		}
	case VMap:
		if y, ok := b.(VMap); ok {
			nl := j.lin(x.Nil, y.Nil)
			an, bn := j.a.isNil(x.Nil), j.b.isNil(y.Nil)
			switch {
			case an && bn:
				return VMap{Nil: nl}
			case an:
				if o, ok := j.objOf(y.Obj, nil, false); ok {
					return VMap{nl, o}
				}
			case bn:
				if o, ok := j.objOf(x.Obj, nil, true); ok {
					return VMap{nl, o}
				}
			default:
				if o, ok := j.obj(x.Obj, y.Obj); ok {
					return VMap{nl, o}
				}
			}
			return VMap{nl, j.in.lazyObjID(j.in.freshID("map")+"{}", j.in.objs[x.Obj].T)}
		}
	case VChan:
		if y, ok := b.(VChan); ok {
			id := x.ID
			if x.ID != y.ID {
				if j.a.isNil(x.Nil) {
					id = y.ID
				} else if !j.b.isNil(y.Nil) {
					id = j.in.freshID("chan")
				}
			}
			return VChan{j.lin(x.Nil, y.Nil), id}
		}
	case VFunc:
		if y, ok := b.(VFunc); ok {
			nl := j.lin(x.Nil, y.Nil)
			if x.Fn == y.Fn && len(x.Bind) == len(y.Bind) && x.ID == y.ID {
				return VFunc{nl, x.Fn, j.vals(x.Bind, y.Bind), x.ID}
			}
			if j.a.isNil(x.Nil) && y.Fn == nil {
				return VFunc{Nil: nl, ID: y.ID}
			}
			if j.b.isNil(y.Nil) && x.Fn == nil {
				return VFunc{Nil: nl, ID: x.ID}
			}
			if j.a.isNil(x.Nil) || j.b.isNil(y.Nil) {
				side := j.b.isNil(y.Nil)
				v := y
				if side {
					v = x
				}
				bind := make([]Value, len(v.Bind))
				for i := range bind {
					bind[i] = j.oneSided(v.Bind[i], side)
				}
				return VFunc{nl, v.Fn, bind, v.ID}
			}
			return VFunc{Nil: nl, ID: j.in.freshID("func")}
		}
	case VIface:
		if y, ok := b.(VIface); ok {
			nl := j.lin(x.Nil, y.Nil)
			an, bn := j.a.isNil(x.Nil), j.b.isNil(y.Nil)
			switch {
			case an && bn:
				return VIface{Nil: nl}
			case an:
				r := VIface{Nil: nl, Dyn: y.Dyn, ID: y.ID}
				if y.Val != nil {
					r.Val = j.oneSided(y.Val, false)
				}
				return r
			case bn:
				r := VIface{Nil: nl, Dyn: x.Dyn, ID: x.ID}
				if x.Val != nil {
					r.Val = j.oneSided(x.Val, true)
				}
				return r
			}
			if x.Dyn != nil && y.Dyn != nil && types.Identical(x.Dyn, y.Dyn) && x.Val != nil && y.Val != nil {
				id := x.ID
				if x.ID != y.ID {
					id = j.in.freshID("iface")
				}
				return VIface{nl, x.Dyn, j.val(x.Val, y.Val), id}
			}
			if x.ID == y.ID && x.Dyn == nil && y.Dyn == nil {
				return VIface{Nil: nl, ID: x.ID}
			}
			return VIface{Nil: nl, ID: j.in.freshID("iface")}
		}
	case VStruct:
		if y, ok := b.(VStruct); ok && len(x.F) == len(y.F) {
			return VStruct{x.T, j.vals(x.F, y.F)}
		}
	case VTuple:
		if y, ok := b.(VTuple); ok && len(x.V) == len(y.V) {
			return VTuple{j.vals(x.V, y.V)}
		}
	case VIter:
		if y, ok := b.(VIter); ok {
			return VIter{j.val(x.X, y.X), x.ID, min(x.Pos, y.Pos)}
		}
	case *Arr:
		if y, ok := b.(*Arr); ok {
			return j.arr(x, y)
		}
	case *MapC:
		if y, ok := b.(*MapC); ok {
			return j.mapc(x, y)
		}
	case nil:
		if b == nil {
			return nil
		}
	}
	j.in.giveUp(j.a, fmt.Sprintf("cannot join %T with %T", a, b))
	return a
}

func (j *joiner) patNil(a, b Lin) Lin {
	a, b = j.a.norm(a), j.b.norm(b)
	if a.isConst() && b.isConst() && a.K == b.K {
		return a
	}
	return j.in.freshInt("nil", 0, 1)
}

func (j *joiner) vals(a, b []Value) []Value {
	r := make([]Value, len(a))
	for i := range a {
		r[i] = j.val(a[i], b[i])
	}
	return r
}

// objOf keeps a reference that only one of the states has (fromA tells which).
func (j *joiner) objOf(o ObjID, p Path, fromA bool) (ObjID, bool) {
	if _, ok := j.omap[[2]ObjID{o, o}]; ok {
		return o, true
	}
	if fromA {
		if n, ok := j.oa[o]; ok {
			return n, true
		}
		// Other state may know the object as well.
		if _, ok := j.ob[o]; !ok {
			if _, known := j.b.Heap[o]; known || j.in.objs[o].Lazy != "" || j.in.objs[o].Global != nil {
				return j.obj(o, o)
			}
		}
		if j.in.objs[o].Lazy != "" {
			return 0, false
		}
		j.oa[o] = o
		j.work = append(j.work, [3]ObjID{o, 0, o})
		return o, true
	}
	if n, ok := j.ob[o]; ok {
		return n, true
	}
	if _, ok := j.oa[o]; !ok {
		if _, known := j.a.Heap[o]; known || j.in.objs[o].Lazy != "" || j.in.objs[o].Global != nil {
			return j.obj(o, o)
		}
	}
	if j.in.objs[o].Lazy != "" {
		return 0, false
	}
	j.ob[o] = o
	j.work = append(j.work, [3]ObjID{0, o, o})
	return o, true
}

// oneSided keeps a value that is meaningful in one of the states only.
func (j *joiner) oneSided(v Value, fromA bool) Value {
	st := j.b
	if fromA {
		st = j.a
	}
	// A number that is known there is not left to what is said of its symbols in the other state.
	self := func(l Lin) Lin {
		if n := st.norm(l); n.isConst() {
			return n
		}
		return l
	}
	bad := false
	r := mapVal(v, self, func(o ObjID) ObjID {
		if o == 0 {
			return 0
		}
		n, ok := j.objOf(o, nil, fromA)
		if !ok {
			bad = true
		}
		return n
	})
	if bad {
		if p, ok := v.(VPtr); ok {
			return j.in.unknownPtr(j.a, j.in.objType(p.Obj, p.Path), p.Nil)
		}
		j.in.giveUp(j.a, "object shared between joined states")
	}
	j.scope(r)
	return r
}

// scope makes symbols of a one-sided value survive.
func (j *joiner) scope(v Value) {
	mapVal(v, func(l Lin) Lin {
		for _, t := range l.T {
			j.kept[t.S] = true
		}
		return l
	}, func(o ObjID) ObjID { return o })
}

// lost joins pointers to objects that cannot be matched.
func (j *joiner) lost(x, y VPtr) Value {
	j.in.imprecise++
	return j.in.unknownPtr(j.a, j.in.objType(x.Obj, x.Path), x.Nil)
}

func (j *joiner) lostSlice(nl Lin, x, y VSlice) Value {
	j.in.imprecise++
	var et types.Type
	pick := x
	if j.a.isNil(x.Nil) {
		pick = y
	}
	t := j.in.objType(pick.Obj, pick.Path)
	if a, ok := under(t).(*types.Array); ok {
		et = a.Elem()
	} else {
		et = types.Typ[types.Byte]
	}
	id := j.in.freshID("slice")
	o := j.in.lazyObjID(id+"[]", types.NewArray(et, -1))
	j.in.objs[o].Arg = j.in.isArg(x.Obj) || j.in.isArg(y.Obj)
	ln, cp := j.lin(x.Len, y.Len), j.lin(x.Cap, y.Cap)
	return VSlice{Nil: nl, Obj: o, Off: k0, Len: ln, Cap: cp}
}

func (j *joiner) arr(x, y *Arr) Value {
	r := &Arr{Et: x.Et, Pre: j.lin(x.Pre, y.Pre)}
	if a, b := j.in.listed(j.a, x), j.in.listed(j.b, y); (len(x.S) != 1 || len(y.S) != 1 || x.S[0].Kind != y.S[0].Kind) && a != nil && len(a) == len(b) {
		vs := make([]Value, len(a))
		for i := range a {
			vs[i] = j.val(a[i], b[i])
		}
		r.S = []Seg{{Kind: SVals, N: konst(int64(len(vs))), Vals: vs}}
		return r
	}
	same := len(x.Over) == len(y.Over)
	if same {
		for i := range x.Over {
			if !eqLin(j.a.norm(x.Over[i].Idx), j.b.norm(y.Over[i].Idx)) {
				same = false
			}
		}
	}
	if same {
		r.S = j.segs(x.S, y.S, x.Et)
		for i := range x.Over {
			r.Over = append(r.Over, Write{j.lin(x.Over[i].Idx, y.Over[i].Idx), j.val(x.Over[i].Val, y.Over[i].Val)})
		}
		return r
	}
	if sa, ok := j.in.filled(j.a, x); ok {
		if sb, ok := j.in.filled(j.b, y); ok {
			r.S = j.segs(sa, sb, x.Et)
			return r
		}
	}
	// Numbers may be forgotten altogether.
	r.S = []Seg{j.sum(j.in.arrPattern(j.a, x), j.in.arrPattern(j.b, y), j.lin(x.size(), y.size()))}
	return r
}

// listed returns the elements of a small array of numbers whose writes are all at known places.
func (in *Interp) listed(st *State, a *Arr) []Value {
	bt, ok := under(a.Et).(*types.Basic)
	if !ok || bt.Info()&(types.IsInteger|types.IsBoolean) == 0 || bt.Kind() == types.Byte {
		return nil
	}
	n, ok := st.konst(a.size())
	if !ok || n < 1 || n > 16 {
		return nil
	}
	for _, w := range a.Over {
		if _, ok := st.konst(w.Idx); !ok {
			return nil
		}
	}
	for _, s := range a.S {
		if s.Kind != SZero && s.Kind != SVals {
			return nil
		}
	}
	r := make([]Value, n)
	for i := range r {
		r[i] = in.elem(st, a, konst(int64(i)))
		if _, ok := r[i].(VInt); !ok {
			return nil
		}
	}
	return r
}

// sum makes a segment of elements described by two patterns.
func (j *joiner) sum(pa, pb Value, n Lin) Seg {
	return Seg{Kind: SSum, N: n, ID: j.in.freshID("sum"), Pat: j.pat(pa, pb)}
}

// pat joins patterns of different states.
func (j *joiner) pat(a, b Value) Value {
	switch x := a.(type) {
	case VInt, VPat:
		al, ah, ok1 := patRange(a)
		bl, bh, ok2 := patRange(b)
		if ok1 && ok2 {
			if al == bl && ah == bh {
				return a
			}
			t := types.Type(types.Typ[types.Int])
			if p, ok := a.(VPat); ok {
				t = p.T
			} else if p, ok := b.(VPat); ok {
				t = p.T
			}
			return VPat{T: t, Lo: min(al, bl), Hi: max(ah, bh)}
		}
		if p, ok := a.(VPat); ok {
			if _, _, ok := patRange(a); !ok {
				if _, ok := b.(VPat); ok {
					return p
				}
				switch b.(type) {
				case VStruct, VPtr, VSlice, patSlice, VIface, VMap:
					return j.pat(j.in.pattern(j.a, j.in.expand(j.a, p)), b)
				}
				return p
			}
		}
	case VStruct:
		if y, ok := b.(VStruct); ok && len(x.F) == len(y.F) {
			f := make([]Value, len(x.F))
			for i := range f {
				f[i] = j.pat(x.F[i], y.F[i])
			}
			return VStruct{x.T, f}
		}
		if p, ok := b.(VPat); ok {
			return j.pat(a, j.in.pattern(j.b, j.in.expand(j.b, p)))
		}
	case VSlice, patSlice:
		xs, _ := asPatSlice(a)
		ys, ok := asPatSlice(b)
		if ok {
			an, bn := j.a.isNil(xs.Nil), j.b.isNil(ys.Nil)
			if an && bn {
				return VSlice{Nil: k1}
			}
			nl := j.patNil(xs.Nil, ys.Nil)
			switch {
			case an:
				if o, ok := j.objOf(ys.Obj, nil, false); ok {
					ys.Obj, ys.Nil = o, nl
					return patSlice{ys}
				}
			case bn:
				if o, ok := j.objOf(xs.Obj, nil, true); ok {
					xs.Obj, xs.Nil = o, nl
					return patSlice{xs}
				}
			default:
				if o, ok := j.obj(xs.Obj, ys.Obj); ok {
					if len(xs.Path) == 0 && len(ys.Path) == 0 {
						j.in.objs[o].Summary = true
						xs.Obj, xs.Nil = o, nl
						return patSlice{xs}
					}
				}
			}
			t := j.in.objType(xs.Obj, xs.Path)
			if a, ok := under(t).(*types.Array); ok {
				return VPat{T: types.NewSlice(a.Elem()), Lo: negInf, Hi: posInf}
			}
		}
		if p, ok := b.(VPat); ok {
			return p
		}
	case VPtr, VIface, VMap, VFunc, VChan:
		if p, ok := b.(VPat); ok {
			return j.pat(a, j.in.pattern(j.b, j.in.expand(j.b, p)))
		}
		v := j.val(a, b)
		// Symbols must not relate elements with each other.
		switch z := v.(type) {
		case VPtr:
			z.Nil = j.patNilR(z.Nil)
			return z
		case VIface:
			z.Nil = j.patNilR(z.Nil)
			return z
		case VMap:
			z.Nil = j.patNilR(z.Nil)
			return z
		case VFunc:
			z.Nil = j.patNilR(z.Nil)
			return z
		case VChan:
			z.Nil = j.patNilR(z.Nil)
			return z
		}
		return v
	case *Arr:
		if y, ok := b.(*Arr); ok {
			n := x.size()
			if !eqLin(j.a.norm(n), j.b.norm(y.size())) {
				n = j.in.freshInt("arr.len", 0, maxLen)
			}
			return &Arr{Et: x.Et, S: []Seg{j.sum(j.in.arrPattern(j.a, x), j.in.arrPattern(j.b, y), n)}}
		}
	}
	if p, ok := b.(VPat); ok {
		return p
	}
	return j.val(a, b)
}

func (j *joiner) patNilR(l Lin) Lin {
	if l.isConst() {
		return l
	}
	return j.in.freshInt("nil", 0, 1)
}

func (j *joiner) segs(a, b []Seg, et types.Type) []Seg {
	if r, ok := j.sameShape(a, b); ok {
		return r
	}
	if r, ok := j.in.joinSegs(j, a, b, et); ok {
		return r
	}
	na, nb := segsLen(a), segsLen(b)
	n := j.lin(na, nb)
	if bt, ok := under(et).(*types.Basic); ok && bt.Kind() == types.Byte && !j.in.keepSum {
		return []Seg{{Kind: SBase, ID: j.in.freshID("bytes"), Off: k0, N: n, Tags: j.in.joinTags(a, b)}}
	}
	ea, eb := j.a.isEq(na, k0), j.b.isEq(nb, k0)
	switch {
	case ea && !eb:
		p := j.in.segsPattern(j.b, b, et)
		return []Seg{{Kind: SSum, N: n, ID: j.in.freshID("sum"), Pat: j.oneSided(p, false)}}
	case eb && !ea:
		p := j.in.segsPattern(j.a, a, et)
		return []Seg{{Kind: SSum, N: n, ID: j.in.freshID("sum"), Pat: j.oneSided(p, true)}}
	}
	return []Seg{j.sum(j.in.segsPattern(j.a, a, et), j.in.segsPattern(j.b, b, et), n)}
}

// sameShape joins sequences that differ in expressions only.
func (j *joiner) sameShape(a, b []Seg) ([]Seg, bool) {
	if len(a) != len(b) {
		return nil, false
	}
	for i := range a {
		x, y := a[i], b[i]
		if x.Kind != y.Kind || x.Tags != y.Tags {
			return nil, false
		}
		switch x.Kind {
		case SBase:
			if x.ID != y.ID {
				return nil, false
			}
		case SConst:
			if x.C != y.C {
				return nil, false
			}
		case SVals:
			if len(x.Vals) != len(y.Vals) {
				return nil, false
			}
		case SSum:
			if x.ID != y.ID && !(len(a) == 1) {
				return nil, false
			}
		case SFn:
			if x.ID != y.ID || len(x.Args) != len(y.Args) {
				return nil, false
			}
		}
	}
	r := make([]Seg, len(a))
	for i := range a {
		x, y := a[i], b[i]
		s := x
		s.N = j.lin(x.N, y.N)
		switch x.Kind {
		case SBase:
			s.Off = j.lin(x.Off, y.Off)
		case SVals:
			s.Vals = j.vals(x.Vals, y.Vals)
		case SFn:
			s.Args = j.vals(x.Args, y.Args)
		case SSum:
			s.Pat = j.pat(x.Pat, y.Pat)
			if x.ID != y.ID {
				s.ID = j.in.freshID("sum")
			}
		}
		r[i] = s
	}
	return r, true
}

func (j *joiner) mapc(x, y *MapC) Value {
	r := &MapC{Key: x.Key, Elem: x.Elem, Lazy: x.Lazy}
	same := len(x.Over) == len(y.Over) && x.Lazy == y.Lazy
	if same {
		for i := range x.Over {
			if (x.Over[i].Val == nil) != (y.Over[i].Val == nil) || j.in.valKey(j.a, x.Over[i].Key) != j.in.valKey(j.b, y.Over[i].Key) {
				same = false
			}
		}
	}
	if same {
		for i := range x.Over {
			w := MapWrite{Key: j.val(x.Over[i].Key, y.Over[i].Key)}
			if x.Over[i].Val != nil {
				w.Val = j.val(x.Over[i].Val, y.Over[i].Val)
			}
			r.Over = append(r.Over, w)
		}
		switch {
		case x.Pat != nil && y.Pat != nil:
			r.Pat = j.pat(x.Pat, y.Pat)
		case x.Pat != nil:
			r.Pat = j.oneSided(x.Pat, true)
		case y.Pat != nil:
			r.Pat = j.oneSided(y.Pat, false)
		}
		return r
	}
	if x.Lazy != y.Lazy && y.Lazy != "" {
		r.Lazy = j.in.freshID("map")
	} else if x.Lazy == "" {
		r.Lazy = y.Lazy
	}
	var pa, pb Value
	for _, w := range x.Over {
		if w.Val != nil {
			pa = j.in.patJoin2(j.a, pa, w.Val)
		}
	}
	if x.Pat != nil {
		pa = j.in.patJoin2(j.a, pa, x.Pat)
	}
	for _, w := range y.Over {
		if w.Val != nil {
			pb = j.in.patJoin2(j.b, pb, w.Val)
		}
	}
	if y.Pat != nil {
		pb = j.in.patJoin2(j.b, pb, y.Pat)
	}
	switch {
	case pa != nil && pb != nil:
		r.Pat = j.pat(pa, pb)
	case pa != nil:
		r.Pat = j.oneSided(pa, true)
	case pb != nil:
		r.Pat = j.oneSided(pb, false)
	}
	// Keys that were removed in both states stay removed.
	for _, w := range x.Over {
		if w.Val != nil {
			continue
		}
		for _, v := range y.Over {
			if v.Val == nil && j.in.valKey(j.a, w.Key) == j.in.valKey(j.b, v.Key) {
				r.Over = append(r.Over, MapWrite{Key: j.val(w.Key, v.Key)})
			}
		}
	}
	return r
}

// join joins two states of the same program point.  With widen, constraints of a that do not hold in b
// are dropped and no new are looked for.
func (in *Interp) join(a, b *State, widen bool) *State {
	if a.C.bot {
		return b
	}
	if b.C.bot {
		return a
	}
	a, b = a.clone(), b.clone()
	in.settle(a)
	in.settle(b)
	j := &joiner{in: in, a: a, b: b, widen: widen, r: newState(), cmemo: map[string]Sym{}, omap: map[[2]ObjID]ObjID{},
		oa: map[ObjID]ObjID{}, ob: map[ObjID]ObjID{}, kept: map[Sym]bool{}}
	r := j.r
	r.Mode = a.Mode
	r.ghSh = true
	r.Ghost = map[string]Value{}
	if len(a.Frames) != len(b.Frames) {
		panic("joined states have different call stacks")
	}
	for i := range a.Frames {
		fa, fb := a.Frames[i], b.Frames[i]
		f := &Frame{Fn: fa.Fn, Env: make(map[ssa.Value]Value, len(fa.Env))}
		for _, k := range sortedEnv(fa.Env) {
			vb, ok := fb.Env[k]
			if !ok {
				continue
			}
			f.Env[k] = j.val(fa.Env[k], vb)
		}
		n := min(len(fa.Defers), len(fb.Defers))
		if len(fa.Defers) != len(fb.Defers) {
			in.giveUp(a, "deferred calls differ between joined paths")
		}
		for k := 0; k < n; k++ {
			da, db := fa.Defers[k], fb.Defers[k]
			f.Defers = append(f.Defers, deferred{da.call, j.val(da.fn, db.fn), j.vals(da.args, db.args)})
		}
		r.Frames = append(r.Frames, f)
	}
	var gk []string
	for k := range a.Ghost {
		gk = append(gk, k)
	}
	sort.Strings(gk)
	for _, k := range gk {
		if vb, ok := b.Ghost[k]; ok {
			r.Ghost[k] = j.val(a.Ghost[k], vb)
		}
	}
	// Globals and objects that existed before are reachable anyway.
	roots := map[ObjID]bool{}
	for o := range a.Heap {
		if in.objs[o].Global != nil || in.objs[o].Lazy != "" || in.objs[o].Escaped {
			roots[o] = true
		}
	}
	for o := range b.Heap {
		if in.objs[o].Global != nil || in.objs[o].Lazy != "" || in.objs[o].Escaped {
			roots[o] = true
		}
	}
	var ro []ObjID
	for o := range roots {
		ro = append(ro, o)
	}
	sort.Slice(ro, func(i, k int) bool { return ro[i] < ro[k] })
	for _, o := range ro {
		j.obj(o, o)
	}
	for len(j.work) > 0 {
		w := j.work[0]
		j.work = j.work[1:]
		switch {
		case w[1] == 0:
			r.Heap[w[2]] = j.oneSided(in.contents(a, w[0]), true)
		case w[0] == 0:
			r.Heap[w[2]] = j.oneSided(in.contents(b, w[1]), false)
		default:
			_, ha := a.Heap[w[0]]
			_, hb := b.Heap[w[1]]
			if !ha && !hb && w[0] == w[1] {
				continue
			}
			va, vb := in.contents(a, w[0]), in.contents(b, w[1])
			if in.objs[w[2]].Summary {
				r.Heap[w[2]] = j.pat(in.pattern(a, va), in.pattern(b, vb))
			} else {
				r.Heap[w[2]] = j.val(va, vb)
			}
		}
	}
	j.constraints(widen)
	if debugJoins {
		fmt.Printf("JOIN widen=%v\n A %s\n B %s\n R %s\n", widen, a.C, b.C, r.C)
		for _, c := range j.cells {
			fmt.Printf("   %s: %s | %s\n", symName(c.s), c.a, c.b)
		}
	}
	return r
}

var debugJoins = os.Getenv("OUROFLOW_JOINS") != ""

func sortedEnv(e map[ssa.Value]Value) []ssa.Value {
	r := make([]ssa.Value, 0, len(e))
	for k := range e {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].Pos() != r[j].Pos() {
			return r[i].Pos() < r[j].Pos()
		}
		return r[i].Name() < r[j].Name()
	})
	return r
}

// stable reports whether a symbol has the same meaning in all states: a part of the input, or a function of
// such parts and of symbols that base accepts.
func (in *Interp) stable(s Sym, base func(Sym) bool) bool {
	if base != nil && base(s) {
		return true
	}
	all := func(l Lin) bool {
		for _, t := range l.T {
			if !in.stable(t.S, base) {
				return false
			}
		}
		return true
	}
	switch x := tab.info[s].Def.(type) {
	case elemDef:
		return all(x.Idx)
	case bitDef:
		return in.stable(x.X, base)
	case condDef:
		return all(x.L)
	case andDef:
		return all(x.A) && all(x.B)
	case modDef:
		return all(x.L)
	case divDef:
		return all(x.L)
	case modKDef:
		return all(x.L)
	case powDef:
		return all(x.N)
	}
	_, ok := tab.memo[tab.info[s].Name]
	return ok
}

// project eliminates symbols that are not in keep.
func project(c *Store, keep func(Sym) bool) *Store {
	r := newStore()
	r.elems = c.elems
	// Equalities: s = lin.  Solve for symbols to eliminate first.
	var eqs []Lin
	for s, l := range c.sub {
		if l.isConst() && !keep(s) {
			continue
		}
		eqs = append(eqs, sub(symL(s), l))
	}
	sortLins(eqs)
	var ineqs []Lin
	ineqs = append(ineqs, c.ineq...)
	neqs := append([]Lin(nil), c.neq...)
	dead := map[Sym]bool{}
	note := func(l Lin) {
		for _, t := range l.T {
			if !keep(t.S) {
				dead[t.S] = true
			}
		}
	}
	for _, l := range eqs {
		note(l)
	}
	for _, l := range ineqs {
		note(l)
	}
	bnd := func(s Sym) {
		if lo := c.low(s); lo != negInf {
			ineqs = append(ineqs, lincomb(konst(lo), -1, symL(s)))
		}
		if hi := c.high(s); hi != posInf {
			ineqs = append(ineqs, addK(symL(s), -hi))
		}
	}
	var ds []Sym
	for s := range dead {
		ds = append(ds, s)
	}
	sort.Slice(ds, func(i, j int) bool { return ds[i] > ds[j] })
	for _, s := range ds {
		if _, ok := c.sub[s]; !ok {
			bnd(s)
		}
	}
	gone := map[Sym]bool{}
	// Equality elimination.
	for again := true; again; {
		again = false
		for _, s := range ds {
			if gone[s] {
				continue
			}
			for i, e := range eqs {
				k := e.coef(s)
				if k != 1 && k != -1 {
					continue
				}
				rhs := scale(lincomb(e, -k, symL(s)), -k)
				eqs = append(eqs[:i:i], eqs[i+1:]...)
				for m := range eqs {
					eqs[m] = eqs[m].subst(s, rhs)
				}
				for m := range ineqs {
					ineqs[m] = ineqs[m].subst(s, rhs)
				}
				for m := range neqs {
					neqs[m] = neqs[m].subst(s, rhs)
				}
				gone[s] = true
				again = true
				break
			}
		}
	}
	// Equalities with dead symbols that could not be solved for become inequalities.
	var eq2 []Lin
	for _, e := range eqs {
		d := false
		for _, t := range e.T {
			if !keep(t.S) {
				d = true
			}
		}
		if d {
			ineqs = append(ineqs, e, neg(e))
		} else {
			eq2 = append(eq2, e)
		}
	}
	// Fourier-Motzkin.
	for _, s := range ds {
		if gone[s] {
			continue
		}
		var up, lo, rest []Lin
		for _, l := range ineqs {
			switch k := l.coef(s); {
			case k > 0:
				up = append(up, l)
			case k < 0:
				lo = append(lo, l)
			default:
				rest = append(rest, l)
			}
		}
		ineqs = rest
		if len(up)*len(lo) <= 40 {
			for _, u := range up {
				for _, l := range lo {
					try(func() {
						a, b := u.coef(s), -l.coef(s)
						g := gcd(a, b)
						n := tighten(add(scale(u, b/g), scale(l, a/g)))
						if n.isConst() {
							return
						}
						ineqs = append(ineqs, n)
					})
				}
			}
			ineqs = dedupe(ineqs)
		}
	}
	for s := range c.lo {
		if keep(s) {
			r.lo[s] = c.lo[s]
		}
	}
	for s := range c.hi {
		if keep(s) {
			r.hi[s] = c.hi[s]
		}
	}
	for _, e := range eq2 {
		r.addEq(e)
	}
	for _, l := range ineqs {
		r.addLe(l)
	}
	for _, l := range neqs {
		ok := true
		for _, t := range l.T {
			if !keep(t.S) {
				ok = false
			}
		}
		if ok {
			r.addNe(l)
		}
	}
	return r
}

func dedupe(ls []Lin) []Lin {
	best := map[string]int{}
	var r []Lin
	for _, l := range ls {
		h := l.hkey()
		if i, ok := best[h]; ok {
			if l.K > r[i].K {
				r[i] = l
			}
			continue
		}
		best[h] = len(r)
		r = append(r, l)
	}
	return r
}

// constraints computes what is known about symbols of the joined state.
func (j *joiner) constraints(widen bool) {
	in := j.in
	pa, pb := j.a.C.clone(), j.b.C.clone()
	pa.own()
	pb.own()
	isCell := map[Sym]bool{}
	for _, c := range j.cells {
		isCell[c.s] = true
	}
	try(func() {
		for _, c := range j.cells {
			// Bounds from the type of cell must not be lost when it is solved for.
			pa.addCell(c.s, c.a)
			pb.addCell(c.s, c.b)
		}
	})
	base := func(s Sym) bool { return isCell[s] || j.kept[s] }
	outer := len(j.a.Frames) == 0
	keep := func(s Sym) bool {
		if outer && !base(s) && in.fromStep(s) {
			return false
		}
		return in.pinned[s] > 0 || in.stable(s, base)
	}
	full := pb
	pa = project(pa, keep)
	pb = project(pb, keep)
	c := newStore()
	j.r.C = c
	if pa.bot {
		j.r.C = pb
		return
	}
	if pb.bot {
		j.r.C = pa
		return
	}
	for _, e := range pa.elems {
		if keep(e) {
			c.noteElem(e)
		}
	}
	for _, e := range pb.elems {
		if keep(e) {
			c.noteElem(e)
		}
	}
	for _, e := range hull(pa, pb) {
		c.addEq(e)
	}
	// Inequalities.
	ca := pa.list()
	for _, l := range ca {
		// What can only be seen without the other quantities would not be found to be stable.
		if pb.entailsLe(l) && (!in.hard || full.entailsLe(l)) {
			c.addLe(l)
		}
	}
	for _, l := range pa.neq {
		if pb.entailsNe(l) {
			c.addNe(l)
		}
	}
	if !widen {
		for _, l := range pb.list() {
			if pa.entailsLe(l) {
				c.addLe(l)
			}
		}
		for _, l := range pb.neq {
			if pa.entailsNe(l) {
				c.addNe(l)
			}
		}
		// Bounds of single symbols.
		for _, x := range j.cells {
			al, ah := pa.interval(pa.norm(symL(x.s)))
			bl, bh := pb.interval(pb.norm(symL(x.s)))
			if al != negInf && bl != negInf {
				c.addLe(lincomb(konst(min(al, bl)), -1, symL(x.s)))
			}
			if ah != posInf && bh != posInf {
				c.addLe(addK(symL(x.s), -max(ah, bh)))
			}
		}
	}
	if !in.hard {
		j.templates(pa, pb, widen)
	}
	j.keepTemplates()
	// Values of small symbols that neither state allows.
	for _, x := range j.cells {
		if x.a.isConst() && x.b.isConst() && !widen {
			lo, hi := min(x.a.K, x.b.K), max(x.a.K, x.b.K)
			for v := lo + 1; v < hi && v < lo+8; v++ {
				c.addNe(addK(symL(x.s), -v))
			}
		}
	}
}

// limits lists bounds that widening stops at: constants that are compared with, and the largest index.
func (j *joiner) limits() []int64 {
	if !j.widen || len(j.r.Frames) == 0 {
		return nil
	}
	seen := map[int64]bool{}
	top := j.r.Frames[len(j.r.Frames)-1]
	for _, v := range top.Env {
		if i, ok := v.(VInt); ok {
			if k, ok := j.r.C.constOf(i.L); ok && k > 1 && k < maxLen {
				seen[k] = true
			}
		}
	}
	for _, k := range compared(top.Fn) {
		seen[k] = true
	}
	var r []int64
	for k := range seen {
		r = append(r, k)
	}
	sort.Slice(r, func(i, k int) bool { return r[i] < r[k] })
	if len(r) > 3 {
		r = r[:3]
	}
	var t []int64
	for _, k := range r {
		t = append(t, k-1, k)
	}
	return append(t, maxLen-1)
}

// position is a pair of numbers that may tell octet and bit of a buffer.
type position struct{ octet, bit, size Lin }

// positions lists the pairs of numbers next to a buffer of octets.
func (j *joiner) positions(v VStruct, u *types.Struct) []position {
	var size []Lin
	var ints []Lin
	for i, x := range v.F {
		switch x := x.(type) {
		case VSlice:
			if t, ok := under(u.Field(i).Type()).(*types.Slice); ok && isByte(t.Elem()) {
				size = append(size, x.Len)
			}
		case VInt:
			if _, _, bits, _ := intRange(u.Field(i).Type()); bits >= 8 && !x.L.isConst() {
				ints = append(ints, x.L)
			}
		}
	}
	if len(size) != 1 || len(ints) < 2 || len(ints) > 4 {
		return nil
	}
	var r []position
	for _, x := range ints {
		for _, y := range ints {
			if !eqLin(x, y) && !eqLin(x, size[0]) && !eqLin(y, size[0]) && !j.r.C.norm(x).isConst() {
				r = append(r, position{x, y, size[0]})
			}
		}
	}
	return r
}

// compared lists the small constants that a function compares numbers with.
func compared(fn *ssa.Function) []int64 {
	if fn == nil {
		return nil
	}
	if r, ok := comparedIn.Load(fn); ok {
		return r.([]int64)
	}
	seen := map[int64]bool{}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			op, ok := i.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch op.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			default:
				continue
			}
			for _, v := range []ssa.Value{op.X, op.Y} {
				c, ok := v.(*ssa.Const)
				if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
					continue
				}
				if k, ok := constant.Int64Val(c.Value); ok && k > 1 && k <= 64 {
					seen[k] = true
				}
			}
		}
	}
	var r []int64
	for k := range seen {
		r = append(r, k)
	}
	sort.Slice(r, func(i, k int) bool { return r[i] < r[k] })
	comparedIn.Store(fn, r)
	return r
}

var comparedIn sync.Map

// templates bounds differences of joined quantities and of other quantities in the scope: facts such as
// offset <= length that hold in both states while no constraint of either says so.
func (j *joiner) templates(pa, pb *Store, widen bool) {
	in := map[Sym]bool{}
	var xs, ys []Sym
	isCell := map[Sym]bool{}
	for _, c := range j.cells {
		isCell[c.s] = true
	}
	var zs []Lin      // lengths that are differences of quantities
	var texts []Lin   // lengths of local text
	var indexes []Sym // local numbers
	var positions []position
	note := func(l Lin) {
		s, ok := l.single()
		if !ok {
			if len(l.T) != 1 {
				return
			}
			s = l.T[0].S
		}
		if in[s] {
			return
		}
		i := tab.info[s]
		if i.Hi != posInf && i.Lo != negInf && i.Hi-i.Lo <= 255 && !isCell[s] {
			return
		}
		in[s] = true
		if isCell[s] {
			xs = append(xs, s)
		}
		ys = append(ys, s)
	}
	local := false
	var walk func(v Value, t types.Type, depth int)
	walk = func(v Value, t types.Type, depth int) {
		switch v := v.(type) {
		case VInt:
			if _, _, bits, _ := intRange(t); bits > 1 {
				note(v.L)
				if s, ok := v.L.single(); ok && local && isCell[s] && depth == 0 && len(indexes) < 4 {
					indexes = append(indexes, s)
				}
			}
		case VStr:
			l := segsLen(v.S)
			if local && len(l.T) > 0 && len(l.T) <= 3 && depth == 0 && len(texts) < 3 {
				known := false
				for _, z := range texts {
					known = known || eqLin(z, l)
				}
				if !known {
					texts = append(texts, l)
				}
			}
			if local && len(v.S) == 1 && len(l.T) == 1 && isCell[l.T[0].S] {
				note(l)
			}
		case VSlice:
			note(v.Len)
			if len(v.Len.T) == 2 && local && len(zs) < 4 {
				known := false
				for _, z := range zs {
					known = known || eqLin(z, v.Len)
				}
				if !known {
					zs = append(zs, v.Len)
				}
			}
		case VStruct:
			if depth < 3 {
				u, ok := under(v.T).(*types.Struct)
				if !ok {
					return
				}
				for i, x := range v.F {
					walk(x, u.Field(i).Type(), depth+1)
				}
				positions = append(positions, j.positions(v, u)...)
			}
		}
	}
	for i := len(j.r.Frames) - 1; i >= 0; i-- {
		env := j.r.Frames[i].Env
		local = i == len(j.r.Frames)-1
		for _, k := range sortedEnv(env) {
			walk(env[k], k.Type(), 0)
		}
	}
	local = false
	var os []ObjID
	for o := range j.r.Heap {
		os = append(os, o)
	}
	sort.Slice(os, func(i, k int) bool { return os[i] < os[k] })
	for _, o := range os {
		walk(j.r.Heap[o], j.in.objs[o].T, 1)
	}
	// Values at the start of an iteration, which tell whether a loop makes progress.
	starts := map[Sym][]Sym{}
	for _, c := range j.cells {
		for _, l := range []Lin{c.a, c.b} {
			for _, t := range l.T {
				if t.C == 1 && len(l.T) <= 3 && j.in.pinned[t.S] > 0 {
					starts[c.s] = append(starts[c.s], t.S)
				}
			}
		}
	}
	if len(xs) > 10 {
		xs = xs[:10]
	}
	if len(ys) > 16 {
		ys = ys[:16]
	}
	c := j.r.C
	limits := j.limits()
	both := func(l Lin) {
		ka, ok := pa.sup(l)
		if !ok {
			return
		}
		if widen {
			if pb.entailsLe(addK(l, -ka)) {
				c.addLe(addK(l, -ka))
			} else if len(l.T) == 1 && l.T[0].C == 1 {
				for _, k := range limits {
					if k > ka && pb.entailsLe(addK(l, -k)) {
						c.addLe(addK(l, -k))
						break
					}
				}
			}
			return
		}
		kb, ok := pb.sup(l)
		if !ok {
			return
		}
		c.addLe(addK(l, -max(ka, kb)))
	}
	// Positions of a bit in a buffer.
	for _, p := range positions {
		all := limits
		limits = append([]int64{7, 8}, all...)
		sort.Slice(limits, func(i, k int) bool { return limits[i] < limits[k] })
		both(p.bit)
		limits = all
		both(neg(p.bit))
		both(sub(add(scale(p.octet, 8), p.bit), scale(p.size, 8)))
	}
	// Offset and index relative to it.
	for i, x := range indexes {
		for _, y := range indexes[:i] {
			for _, z := range texts {
				if x != y && !z.has(x) && !z.has(y) {
					both(sub(add(symL(x), symL(y)), z))
				}
			}
		}
	}
	for _, x := range xs {
		both(symL(x))
		both(neg(symL(x)))
		for _, y := range ys {
			if x == y || isCell[y] && y < x {
				continue
			}
			both(sub(symL(x), symL(y)))
			both(sub(symL(y), symL(x)))
		}
		for _, s := range starts[x] {
			if !in[s] {
				both(sub(symL(x), symL(s)))
				both(sub(symL(s), symL(x)))
			}
		}
		for _, z := range zs {
			if !z.has(x) {
				both(sub(symL(x), z))
				both(sub(z, symL(x)))
			}
		}
	}
}

// sup finds a small upper bound of an expression.
func (c *Store) sup(l Lin) (int64, bool) {
	const far = 32
	_, hi := c.interval(c.norm(l))
	if hi == posInf || hi > far {
		if !c.entailsLe(addK(l, -far)) {
			return 0, false
		}
		hi = far
	}
	if hi <= -far {
		return hi, true
	}
	lo := int64(-far)
	for lo < hi {
		m := floordiv(lo+hi, 2)
		if c.entailsLe(addK(l, -m)) {
			hi = m
		} else {
			lo = m + 1
		}
	}
	return hi, true
}

func (c *Store) addCell(s Sym, l Lin) {
	c.own()
	c.elems = c.elems[:len(c.elems):len(c.elems)]
	l = c.norm(l)
	if eqLin(c.norm(symL(s)), l) {
		return
	}
	// s = l; s does not occur anywhere yet.
	if sy, ok := l.single(); ok && !tabStable(sy) {
		// Prefer the cell symbol over a temporary one.
		c.addEq1(sub(symL(sy), symL(s)))
		return
	}
	c.sub[s] = l
}

func tabStable(s Sym) bool {
	_, ok := tab.memo[tab.info[s].Name]
	return ok
}

// list returns constraints as inequalities.
func (c *Store) list() []Lin {
	var r []Lin
	for s, l := range c.sub {
		e := sub(symL(s), l)
		r = append(r, e, neg(e))
	}
	for s, v := range c.lo {
		r = append(r, lincomb(konst(v), -1, symL(s)))
	}
	for s, v := range c.hi {
		r = append(r, addK(symL(s), -v))
	}
	r = append(r, c.ineq...)
	sortLins(r)
	return r
}

// hull computes equalities that hold in both stores: the affine hull of the union.
func hull(a, b *Store) []Lin {
	// Quantities are all symbols that some equality of either store mentions.
	set := map[Sym]bool{}
	for _, c := range []*Store{a, b} {
		for s, l := range c.sub {
			set[s] = true
			for _, t := range l.T {
				set[t.S] = true
			}
		}
	}
	var q []Sym
	for s := range set {
		q = append(q, s)
	}
	if len(q) == 0 || len(q) > 400 {
		return nil
	}
	sort.Slice(q, func(i, j int) bool { return q[i] < q[j] })
	// Split into independent groups to keep matrices small.
	parent := map[Sym]Sym{}
	var find func(s Sym) Sym
	find = func(s Sym) Sym {
		for parent[s] != s {
			parent[s] = parent[parent[s]]
			s = parent[s]
		}
		return s
	}
	for _, s := range q {
		parent[s] = s
	}
	union := func(l Lin) {
		for _, t := range l.T[1:] {
			parent[find(t.S)] = find(l.T[0].S)
		}
	}
	var konstCells []Sym
	for _, c := range []*Store{a, b} {
		for s, l := range c.sub {
			e := sub(symL(s), l)
			union(e)
			if l.isConst() {
				konstCells = append(konstCells, s)
			}
		}
	}
	// Constants of one state may be related to anything: put all symbols that are constant in either
	// into one group together with their partners.
	if len(konstCells) > 1 {
		for _, s := range konstCells[1:] {
			parent[find(s)] = find(konstCells[0])
		}
	}
	// Equalities with different constants in both states are related to each other as well.
	groups := map[Sym][]Sym{}
	for _, s := range q {
		g := find(s)
		groups[g] = append(groups[g], s)
	}
	var order []Sym
	for g := range groups {
		order = append(order, g)
	}
	sort.Slice(order, func(i, j int) bool { return order[i] < order[j] })
	all := false
	if len(q) <= 60 {
		all = true
	}
	var r []Lin
	if all {
		return hullGroup(a, b, q)
	}
	for _, g := range order {
		r = append(r, hullGroup(a, b, groups[g])...)
	}
	return r
}

func hullGroup(a, b *Store, q []Sym) []Lin {
	if len(q) > 150 {
		return nil
	}
	// Equalities of each store as rows over q and constant; intersection of row spaces.
	// Vector e over q with constant k is valid in a iff it is in row space of A.  Work with generators:
	// columns for each free symbol of a, of b, and the difference of offsets.
	ia := map[Sym]int{}
	ib := map[Sym]int{}
	for _, s := range q {
		for _, t := range a.norm(symL(s)).T {
			if _, ok := ia[t.S]; !ok {
				ia[t.S] = len(ia)
			}
		}
		for _, t := range b.norm(symL(s)).T {
			if _, ok := ib[t.S]; !ok {
				ib[t.S] = len(ib)
			}
		}
	}
	n := len(q)
	cols := len(ia) + len(ib) + 1
	// Find all e with e*M = 0 where M is n x cols: left null space by elimination of [M | I].
	m := make([][]*big.Rat, n)
	for i, s := range q {
		m[i] = make([]*big.Rat, cols+n)
		for k := range m[i] {
			m[i][k] = new(big.Rat)
		}
		la, lb := a.norm(symL(s)), b.norm(symL(s))
		for _, t := range la.T {
			m[i][ia[t.S]].SetInt64(t.C)
		}
		for _, t := range lb.T {
			m[i][len(ia)+ib[t.S]].SetInt64(t.C)
		}
		m[i][cols-1].Sub(new(big.Rat).SetInt64(la.K), new(big.Rat).SetInt64(lb.K))
		m[i][cols+i].SetInt64(1)
	}
	row := 0
	t := new(big.Rat)
	for c := 0; c < cols && row < n; c++ {
		p := -1
		for i := row; i < n; i++ {
			if m[i][c].Sign() != 0 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		m[row], m[p] = m[p], m[row]
		for i := row + 1; i < n; i++ {
			if m[i][c].Sign() == 0 {
				continue
			}
			f := new(big.Rat).Quo(m[i][c], m[row][c])
			for k := c; k < cols+n; k++ {
				if m[row][k].Sign() != 0 {
					m[i][k].Sub(m[i][k], t.Mul(f, m[row][k]))
				}
			}
		}
		row++
	}
	var r []Lin
	for i := row; i < n; i++ {
		// Make integer.
		l := new(big.Int).SetInt64(1)
		for k := 0; k < n; k++ {
			d := m[i][cols+k].Denom()
			g := new(big.Int).GCD(nil, nil, l, d)
			l.Mul(l, new(big.Int).Quo(d, g))
		}
		e := Lin{}
		ok := try(func() {
			for k := 0; k < n; k++ {
				v := new(big.Rat).Mul(m[i][cols+k], new(big.Rat).SetInt(l))
				if v.Sign() == 0 {
					continue
				}
				if !v.Num().IsInt64() {
					panic(overflow{})
				}
				e = lincomb(e, v.Num().Int64(), symL(q[k]))
			}
			e = addK(e, -a.norm(e).K)
		})
		if ok && !e.isConst() {
			r = append(r, e)
		}
	}
	return r
}
