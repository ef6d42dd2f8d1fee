package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// MapC is contents of a map object.
type MapC struct {
	Key, Elem types.Type
	Lazy      string // identity of initial contents, empty if the map was created empty
	Pat       Value  // pattern of values that were added and are not tracked any more
	Over      []MapWrite
}

// MapWrite is an update or deletion (nil value) of a key.
type MapWrite struct {
	Key, Val Value
}

// isArg tells whether an object may be or share memory of an argument of one step.
func (in *Interp) isArg(o ObjID) bool { return in.objs[o].Arg || in.objs[in.root(o)].Arg }

func (in *Interp) newObj(info ObjInfo) ObjID {
	in.objs = append(in.objs, info)
	return ObjID(len(in.objs) - 1)
}

// lazyObj returns the object with a given identity that existed before the analyzed code ran.
func (in *Interp) lazyObjID(key string, t types.Type) ObjID {
	if o, ok := in.lazyObjs[key]; ok {
		return o
	}
	o := in.newObj(ObjInfo{T: t, Lazy: key, Name: key, Arg: strings.Contains(key, transient)})
	in.lazyObjs[key] = o
	return o
}

func (in *Interp) freshID(what string) string {
	in.counter++
	return what + "!" + strconv.Itoa(in.counter)
}

func (in *Interp) freshInt(what string, lo, hi int64) Lin {
	return symL(tab.fresh(what, lo, hi))
}

// freshVal returns an arbitrary value of a type.
func (in *Interp) freshVal(st *State, t types.Type, what string) Value {
	return in.expand(st, VLazy{t, in.freshID(what)})
}

// expand turns lazy value into a value of proper shape.
func (in *Interp) expand(st *State, v Value) Value {
	switch x := v.(type) {
	case VLazy:
		return in.expandLazy(st, x)
	case VPat:
		lo, hi, bits, _ := intRange(x.T)
		if bits > 0 {
			if x.Lo > lo {
				lo = x.Lo
			}
			if x.Hi < hi {
				hi = x.Hi
			}
			return VInt{in.freshInt("pat", lo, hi)}
		}
		return in.freshVal(st, x.T, "pat")
	case patSlice:
		return in.instantiate(st, x)
	}
	return v
}

func (in *Interp) nilSym(st *State, id string) Lin {
	return symL(tab.named(id+"?nil", 0, 1, nil))
}

// stdError tells whether a value is an error variable of the standard library: those are never nil.
func (in *Interp) stdError(x VLazy) bool {
	if !types.Identical(x.T, types.Universe.Lookup("error").Type()) {
		return false
	}
	for g := range in.globObj {
		if g.String() == x.ID && g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), modulePath) {
			return true
		}
	}
	return false
}

func (in *Interp) expandLazy(st *State, x VLazy) Value {
	if in.lazyHook != nil {
		if v := in.lazyHook(st, x); v != nil {
			return v
		}
	}
	if isBuf(x.T) {
		x.T = types.Typ[types.String]
	}
	switch u := under(x.T).(type) {
	case *types.Basic:
		if lo, hi, bits, _ := intRange(x.T); bits > 0 {
			return VInt{symL(tab.named(x.ID, lo, hi, nil))}
		}
		switch {
		case u.Info()&types.IsString != 0:
			n := symL(tab.named(x.ID+".len", 0, maxLen, nil))
			return VStr{[]Seg{{Kind: SBase, ID: x.ID, Off: k0, N: n}}}
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return VFloat{ID: x.ID}
		}
		return VPtr{Nil: in.nilSym(st, x.ID), Obj: in.lazyObjID(x.ID+"*", types.Typ[types.Int])}
	case *types.Pointer:
		return VPtr{Nil: in.nilSym(st, x.ID), Obj: in.lazyObjID(x.ID+"*", u.Elem())}
	case *types.Slice:
		n := symL(tab.named(x.ID+".len", 0, maxLen, nil))
		c := symL(tab.named(x.ID+".cap", 0, maxLen, nil))
		nl := in.nilSym(st, x.ID)
		st.assumeLe(n, c)
		try(func() { st.C.addLe(addK(lincomb(c, maxLen, nl), -maxLen)) }) // nil implies that it is empty
		o := in.lazyObjID(x.ID+"[]", types.NewArray(u.Elem(), -1))
		return VSlice{Nil: nl, Obj: o, Off: k0, Len: n, Cap: c}
	case *types.Map:
		return VMap{Nil: in.nilSym(st, x.ID), Obj: in.lazyObjID(x.ID+"{}", x.T)}
	case *types.Chan:
		return VChan{Nil: in.nilSym(st, x.ID), ID: x.ID}
	case *types.Signature:
		return VFunc{Nil: in.nilSym(st, x.ID), ID: x.ID}
	case *types.Interface:
		if in.stdError(x) {
			return VIface{Nil: k0, ID: x.ID}
		}
		return VIface{Nil: in.nilSym(st, x.ID), ID: x.ID}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = VLazy{u.Field(i).Type(), x.ID + "." + u.Field(i).Name()}
		}
		return VStruct{x.T, f}
	case *types.Array:
		return &Arr{Et: u.Elem(), S: []Seg{{Kind: SBase, ID: x.ID, Off: k0, N: konst(u.Len())}}}
	case *types.Tuple:
		f := make([]Value, u.Len())
		for i := range f {
			f[i] = in.expand(st, VLazy{u.At(i).Type(), x.ID + "#" + strconv.Itoa(i)})
		}
		return VTuple{f}
	}
	return x
}

// contents returns contents of an object.
func (in *Interp) contents(st *State, o ObjID) Value {
	if v, ok := st.Heap[o]; ok {
		return v
	}
	if v, ok := in.base[o]; ok {
		return v
	}
	info := in.objs[o]
	if info.Global != nil {
		if v, ok := in.globals[info.Global]; ok {
			return v
		}
	}
	if a, ok := info.T.(*types.Array); ok && a.Len() < 0 {
		id := strings.TrimSuffix(info.Lazy, "[]")
		c := symL(tab.named(id+".cap", 0, maxLen, nil))
		return &Arr{Et: a.Elem(), S: []Seg{{Kind: SBase, ID: id, Off: k0, N: c}}}
	}
	if m, ok := under(info.T).(*types.Map); ok && strings.HasSuffix(info.Lazy, "{}") {
		return &MapC{Key: m.Key(), Elem: m.Elem(), Lazy: info.Lazy}
	}
	return VLazy{info.T, info.Lazy}
}

// load reads a part of an object.
func (in *Interp) load(st *State, o ObjID, p Path) Value {
	v := in.contents(st, o)
	sum := in.objs[o].Summary
	for i, s := range p {
		if _, ok := v.(VPat); ok && !sum {
			// Fix the value so that later reads agree with this one.
			v = in.expand(st, v)
			in.store(st, o, p[:i], v)
		}
		v = in.expand(st, v)
		if s.Arr {
			a, ok := v.(*Arr)
			if !ok {
				in.giveUp(st, fmt.Sprintf("element of %T", v))
				return nil
			}
			v = in.elem(st, a, s.Idx)
		} else {
			w, ok := v.(VStruct)
			if !ok || s.F >= len(w.F) {
				in.giveUp(st, fmt.Sprintf("field of %T", v))
				return nil
			}
			v = w.F[s.F]
		}
	}
	if sum {
		return in.expand(st, in.instantiate(st, v))
	}
	switch v.(type) {
	case VPat, patSlice:
		v = in.expand(st, v)
		in.store(st, o, p, v)
		return v
	}
	return in.expand(st, v)
}

// store writes a part of an object.
func (in *Interp) store(st *State, o ObjID, p Path, v Value) {
	info := in.objs[o]
	old := in.contents(st, o)
	nv := in.update(st, old, p, v)
	if info.Summary {
		nv = in.patJoin(st, old, nv)
	}
	st.setHeap(o, nv)
}

func (in *Interp) update(st *State, old Value, p Path, v Value) Value {
	if len(p) == 0 {
		return v
	}
	old = in.expand(st, old)
	s := p[0]
	if s.Arr {
		a, ok := old.(*Arr)
		if !ok {
			in.giveUp(st, fmt.Sprintf("update of element of %T", old))
			return old
		}
		if len(p) > 1 {
			v = in.update(st, in.elem(st, a, s.Idx), p[1:], v)
		}
		return in.setElem(st, a, s.Idx, v)
	}
	w, ok := old.(VStruct)
	if !ok || s.F >= len(w.F) {
		in.giveUp(st, fmt.Sprintf("update of field of %T", old))
		return old
	}
	f := append([]Value(nil), w.F...)
	f[s.F] = in.update(st, f[s.F], p[1:], v)
	return VStruct{w.T, f}
}

// elem reads an element of an array.
func (in *Interp) elem(st *State, a *Arr, idx Lin) Value {
	idx = st.norm(idx)
	for i := len(a.Over) - 1; i >= 0; i-- {
		w := a.Over[i]
		if st.isEq(w.Idx, idx) {
			return in.expand(st, w.Val)
		}
		if !st.isNe(w.Idx, idx) {
			return in.instantiate(st, in.arrPattern(st, a))
		}
	}
	return in.segElem(st, a.S, a.Et, idx)
}

// segElem reads an element of a sequence of segments.
func (in *Interp) segElem(st *State, segs []Seg, et types.Type, idx Lin) Value {
	off := k0
	for i, s := range segs {
		rel := sub(idx, off)
		last := i == len(segs)-1
		if last || st.isLt(rel, s.N) {
			return in.oneElem(st, s, et, st.norm(rel))
		}
		if !st.isLe(s.N, rel) {
			break
		}
		off = add(off, s.N)
	}
	if bt, ok := under(et).(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
		return VInt{in.elemSym(st, "rope("+in.segsKey(st, segs)+")", idx, et)}
	}
	return in.instantiate(st, in.segsPattern(st, segs, et))
}

func (in *Interp) elemSym(st *State, base string, idx Lin, et types.Type) Lin {
	lo, hi, _, _ := intRange(et)
	idx = st.norm(idx)
	s := tab.named(base+"["+idx.key()+"]", lo, hi, elemDef{base, idx})
	st.C.noteElem(s)
	return symL(s)
}

func (in *Interp) oneElem(st *State, s Seg, et types.Type, rel Lin) Value {
	switch s.Kind {
	case SBase:
		if _, _, bits, _ := intRange(et); bits > 0 {
			return VInt{in.elemSym(st, s.ID, add(s.Off, rel), et)}
		}
		return in.expand(st, VLazy{et, s.ID + "[" + st.norm(add(s.Off, rel)).key() + "]"})
	case SZero:
		return zero(et)
	case SConst:
		if k, ok := st.konst(rel); ok && k >= 0 && k < int64(len(s.C)) {
			return intk(int64(s.C[k]))
		}
		return VInt{in.elemSym(st, strconv.Quote(s.C), rel, et)}
	case SVals:
		if k, ok := st.konst(rel); ok && k >= 0 && k < int64(len(s.Vals)) {
			return in.expand(st, s.Vals[k])
		}
	case SFn:
		if _, _, bits, _ := intRange(et); bits > 0 {
			return VInt{in.elemSym(st, in.segsKey(st, []Seg{s}), rel, et)}
		}
	}
	return in.instantiate(st, in.segsPattern(st, []Seg{s}, et))
}

// setElem writes an element of an array.
func (in *Interp) setElem(st *State, a *Arr, idx Lin, v Value) *Arr {
	r := &Arr{Et: a.Et, S: a.S, Pre: a.Pre}
	idx = st.norm(idx)
	if st.isEq(idx, a.Pre) {
		r.Pre = addK(idx, 1)
	}
	// Replace a single value of a listed sequence.
	if k, ok := st.konst(idx); ok && len(a.Over) == 0 {
		off := int64(0)
		for i, s := range a.S {
			n, ok := st.konst(s.N)
			if !ok {
				break
			}
			if k < off+n {
				if (s.Kind == SVals || s.Kind == SConst || s.Kind == SZero) && n <= 256 {
					vals := in.segVals(st, s, a.Et, n)
					vals[k-off] = v
					segs := append([]Seg(nil), a.S...)
					segs[i] = Seg{Kind: SVals, N: s.N, Vals: vals}
					r.S = segs
					return r
				}
				break
			}
			off += n
		}
	}
	for _, w := range a.Over {
		if !st.isEq(w.Idx, idx) {
			r.Over = append(r.Over, w)
		}
	}
	r.Over = append(r.Over, Write{idx, v})
	if len(r.Over) > max(24, in.unrolls) {
		r.S = []Seg{{Kind: SSum, N: a.size(), ID: in.freshID("sum"), Pat: in.arrPattern(st, r)}}
		r.Over = nil
	}
	return r
}

func (in *Interp) segVals(st *State, s Seg, et types.Type, n int64) []Value {
	vals := make([]Value, n)
	for i := range vals {
		vals[i] = in.oneElem(st, s, et, konst(int64(i)))
	}
	return vals
}

// arrPattern describes all elements of an array.
func (in *Interp) arrPattern(st *State, a *Arr) Value {
	p := in.segsPattern(st, a.S, a.Et)
	for _, w := range a.Over {
		p = in.patJoin(st, p, w.Val)
	}
	return p
}

func (in *Interp) segsPattern(st *State, segs []Seg, et types.Type) Value {
	var p Value
	join := func(v Value) {
		if p == nil {
			p = in.pattern(st, v)
		} else {
			p = in.patJoin(st, p, v)
		}
	}
	for _, s := range segs {
		if st.isEq(s.N, k0) {
			continue
		}
		switch s.Kind {
		case SZero:
			join(zero(et))
		case SVals:
			for _, v := range s.Vals {
				join(v)
			}
		case SSum:
			for _, v := range alternatives(s.Pat) {
				join(v)
			}
		case SConst:
			for i := 0; i < len(s.C); i++ {
				join(intk(int64(s.C[i])))
			}
		case SBase:
			if in.lazyHook != nil {
				join(in.expand(st, VLazy{et, in.freshID(s.ID + "[*]")}))
			} else {
				join(VPat{T: et, Lo: negInf, Hi: posInf})
			}
		default:
			join(VPat{T: et, Lo: negInf, Hi: posInf})
		}
	}
	if p == nil {
		return VPat{T: et, Lo: negInf, Hi: posInf}
	}
	return p
}

// alternatives are the patterns that a pattern consists of.
func alternatives(p Value) []Value {
	if t, ok := p.(VTuple); ok {
		return t.V
	}
	return []Value{p}
}

// overwritten describes elements of the array of a slice that others may have been written to; objects that elements
// lead to are kept apart until they are looked at.
func (in *Interp) overwritten(st *State, to VSlice, a *Arr, segs []Seg) Value {
	et := a.Et
	if _, ok := under(et).(*types.Basic); !ok && len(to.Path) == 0 && !in.objs[to.Obj].Summary {
		var vals []Value
		all := append(append([]Seg(nil), a.S...), segs...)
		for _, w := range a.Over {
			vals = append(vals, w.Val)
		}
		known := true
		for _, s := range all {
			switch {
			case st.isEq(s.N, k0):
			case s.Kind == SVals:
				vals = append(vals, s.Vals...)
			case s.Kind == SSum:
				vals = append(vals, alternatives(s.Pat)...)
			case s.Kind == SZero:
				vals = append(vals, zero(et))
			default:
				known = false
			}
		}
		if known && len(vals) > 0 && len(vals) <= 24 {
			in.alts = true
			return VTuple{vals}
		}
	}
	return in.patJoin(st, in.arrPattern(st, a), in.segsPattern(st, segs, et))
}

// settle joins alternatives.
func (in *Interp) settle(st *State) {
	if !in.alts {
		return
	}
	for again := true; again; {
		again = false
		var objs []ObjID
		for o := range st.Heap {
			objs = append(objs, o)
		}
		sort.Slice(objs, func(i, j int) bool { return objs[i] < objs[j] })
		for _, o := range objs {
			a, ok := st.Heap[o].(*Arr)
			if !ok {
				continue
			}
			for i, s := range a.S {
				if _, ok := s.Pat.(VTuple); ok && s.Kind == SSum {
					p := in.segsPattern(st, []Seg{s}, a.Et)
					// Merging of objects may have changed the array.
					a = st.Heap[o].(*Arr)
					r := &Arr{Et: a.Et, S: append([]Seg(nil), a.S...), Over: a.Over, Pre: a.Pre}
					r.S[i].Pat, r.S[i].ID = p, in.freshID("sum")
					st.setHeap(o, r)
					a, again = r, true
				}
			}
		}
	}
}

// pattern forgets everything about a value except of what its type and range tell.
func (in *Interp) pattern(st *State, v Value) Value {
	switch x := v.(type) {
	case VInt:
		l := st.norm(x.L)
		if l.isConst() {
			return VInt{l}
		}
		lo, hi := st.C.interval(l)
		return VPat{T: types.Typ[types.Int], Lo: lo, Hi: hi}
	case VPat, VFunc, *MapC:
		return x
	case VLazy:
		switch under(x.T).(type) {
		case *types.Pointer, *types.Slice, *types.Interface, *types.Struct, *types.Map, *types.Signature:
			if in.lazyHook != nil {
				return in.pattern(st, in.expand(st, x))
			}
		}
		return VPat{T: x.T, Lo: negInf, Hi: posInf}
	case VStr:
		return VPat{T: types.Typ[types.String], Lo: negInf, Hi: posInf}
	case VStruct:
		f := make([]Value, len(x.F))
		for i := range f {
			f[i] = in.pattern(st, x.F[i])
		}
		return VStruct{x.T, f}
	case VPtr:
		x.Nil = in.patLin(st, x.Nil)
		return x
	case VSlice:
		x.Nil = in.patLin(st, x.Nil)
		// Window is not known.
		if !st.norm(x.Off).isConst() || !st.norm(x.Len).isConst() || !st.norm(x.Cap).isConst() {
			return patSlice{x}
		}
		return x
	case patSlice:
		return x
	case VIface:
		x.Nil = in.patLin(st, x.Nil)
		if x.Val != nil {
			x.Val = in.pattern(st, x.Val)
		}
		return x
	case VMap:
		x.Nil = in.patLin(st, x.Nil)
		return x
	case *Arr:
		if len(x.Over) == 0 {
			ok := true
			for _, s := range x.S {
				if !st.norm(s.N).isConst() || s.Kind == SVals || s.Kind == SFn {
					ok = false
				}
			}
			if ok {
				return x
			}
		}
		return &Arr{Et: x.Et, S: []Seg{{Kind: SSum, N: x.size(), ID: in.freshID("sum"), Pat: in.arrPattern(st, x)}}}
	}
	return v
}

// patSlice is a pattern of slices that are arbitrary windows into the array of the given one.
type patSlice struct{ S VSlice }

func (in *Interp) patLin(st *State, l Lin) Lin {
	l = st.norm(l)
	if l.isConst() {
		return l
	}
	return in.freshInt("nil", 0, 1)
}

// patJoin joins two values of the same state into a pattern.
func (in *Interp) patJoin(st *State, a, b Value) Value {
	if in.sameVal(st, a, b) {
		return in.pattern(st, a)
	}
	a, b = in.pattern(st, a), in.pattern(st, b)
	switch x := a.(type) {
	case VInt, VPat:
		al, ah, ok1 := patRange(a)
		bl, bh, ok2 := patRange(b)
		if ok1 && ok2 {
			if bl < al {
				al = bl
			}
			if bh > ah {
				ah = bh
			}
			t := types.Type(types.Typ[types.Int])
			if p, ok := a.(VPat); ok {
				t = p.T
			} else if p, ok := b.(VPat); ok {
				t = p.T
			}
			return VPat{T: t, Lo: al, Hi: ah}
		}
		if p, ok := a.(VPat); ok {
			return p
		}
		if p, ok := b.(VPat); ok {
			return p
		}
	case VStruct:
		if y, ok := b.(VStruct); ok && len(x.F) == len(y.F) {
			f := make([]Value, len(x.F))
			for i := range f {
				f[i] = in.patJoin(st, x.F[i], y.F[i])
			}
			return VStruct{x.T, f}
		}
		if p, ok := b.(VPat); ok {
			return in.patJoin(st, a, in.expand(st, p))
		}
	case VPtr:
		if y, ok := b.(VPtr); ok {
			nl := in.patNil(st, x.Nil, y.Nil)
			if st.isNil(x.Nil) {
				y.Nil = nl
				return y
			}
			if st.isNil(y.Nil) || x.Obj == y.Obj && x.Path.key() == y.Path.key() {
				x.Nil = nl
				return x
			}
			if len(x.Path) == 0 && len(y.Path) == 0 {
				x.Obj = in.mergeObjs(st, x.Obj, y.Obj)
				x.Nil = nl
				return x
			}
			return in.unknownPtr(st, in.objType(x.Obj, x.Path), nl)
		}
	case VSlice, patSlice:
		xs, _ := asPatSlice(a)
		ys, ok := asPatSlice(b)
		if ok {
			nl := in.patNil(st, xs.Nil, ys.Nil)
			if st.isNil(xs.Nil) {
				ys.Nil = nl
				return patSlice{ys}
			}
			if st.isNil(ys.Nil) {
				xs.Nil = nl
				return patSlice{xs}
			}
			if xs.Obj != ys.Obj {
				if len(xs.Path) == 0 && len(ys.Path) == 0 {
					xs.Obj = in.mergeObjs(st, xs.Obj, ys.Obj)
				} else {
					return VPat{T: types.NewSlice(types.Typ[types.Byte]), Lo: negInf, Hi: posInf}
				}
			}
			xs.Nil = nl
			return patSlice{xs}
		}
	case VIface:
		if y, ok := b.(VIface); ok {
			nl := in.patNil(st, x.Nil, y.Nil)
			if st.isNil(x.Nil) {
				y.Nil = nl
				return y
			}
			if st.isNil(y.Nil) {
				x.Nil = nl
				return x
			}
			if x.Dyn != nil && y.Dyn != nil && types.Identical(x.Dyn, y.Dyn) {
				return VIface{Nil: nl, Dyn: x.Dyn, Val: in.patJoin(st, x.Val, y.Val), ID: in.freshID("iface")}
			}
			return VIface{Nil: nl, ID: in.freshID("iface")}
		}
	case VMap:
		if y, ok := b.(VMap); ok {
			nl := in.patNil(st, x.Nil, y.Nil)
			if st.isNil(x.Nil) {
				y.Nil = nl
				return y
			}
			if !st.isNil(y.Nil) && x.Obj != y.Obj {
				x.Obj = in.mergeObjs(st, x.Obj, y.Obj)
			}
			x.Nil = nl
			return x
		}
	case VFunc:
		if y, ok := b.(VFunc); ok {
			return VFunc{Nil: in.patNil(st, x.Nil, y.Nil), ID: in.freshID("func")}
		}
	case *Arr:
		if y, ok := b.(*Arr); ok {
			p := in.patJoin(st, in.arrPattern(st, x), in.arrPattern(st, y))
			n := x.size()
			if !st.isEq(n, y.size()) {
				n = in.freshInt("arr.len", 0, maxLen)
			}
			return &Arr{Et: x.Et, S: []Seg{{Kind: SSum, N: n, ID: in.freshID("sum"), Pat: p}}}
		}
	case *MapC:
		if y, ok := b.(*MapC); ok {
			return in.joinMapC(st, x, y)
		}
	case VChan:
		if y, ok := b.(VChan); ok {
			return VChan{Nil: in.patNil(st, x.Nil, y.Nil), ID: in.freshID("chan")}
		}
	case VFloat:
		return VFloat{ID: in.freshID("float")}
	}
	if p, ok := b.(VPat); ok {
		return p
	}
	in.giveUp(st, fmt.Sprintf("join of %T and %T", a, b))
	return a
}

func (in *Interp) joinMapC(st *State, x, y *MapC) *MapC {
	r := &MapC{Key: x.Key, Elem: x.Elem, Lazy: x.Lazy}
	if r.Lazy == "" {
		r.Lazy = y.Lazy
	} else if y.Lazy != "" && y.Lazy != x.Lazy {
		r.Lazy = in.freshID("map")
	}
	p := Value(nil)
	for _, m := range []*MapC{x, y} {
		if m.Pat != nil {
			p = in.patJoin2(st, p, m.Pat)
		}
		for _, w := range m.Over {
			if w.Val != nil {
				p = in.patJoin2(st, p, w.Val)
			}
		}
	}
	r.Pat = p
	return r
}

func (in *Interp) patJoin2(st *State, a, b Value) Value {
	if a == nil {
		return in.pattern(st, b)
	}
	if b == nil {
		return in.pattern(st, a)
	}
	return in.patJoin(st, a, b)
}

func asPatSlice(v Value) (VSlice, bool) {
	switch x := v.(type) {
	case VSlice:
		return x, true
	case patSlice:
		return x.S, true
	}
	return VSlice{}, false
}

func (in *Interp) patNil(st *State, a, b Lin) Lin {
	a, b = st.norm(a), st.norm(b)
	if a.isConst() && b.isConst() && a.K == b.K {
		return a
	}
	return in.freshInt("nil", 0, 1)
}

func patRange(v Value) (int64, int64, bool) {
	switch x := v.(type) {
	case VInt:
		if x.L.isConst() {
			return x.L.K, x.L.K, true
		}
	case VPat:
		lo, hi, bits, _ := intRange(x.T)
		if bits == 0 {
			return 0, 0, false
		}
		if x.Lo > lo {
			lo = x.Lo
		}
		if x.Hi < hi {
			hi = x.Hi
		}
		return lo, hi, true
	}
	return 0, 0, false
}

func (in *Interp) objType(o ObjID, p Path) types.Type {
	t := in.objs[o].T
	for _, s := range p {
		switch u := under(t).(type) {
		case *types.Struct:
			t = u.Field(s.F).Type()
		case *types.Array:
			t = u.Elem()
		}
	}
	return t
}

func (in *Interp) unknownPtr(st *State, t types.Type, nl Lin) VPtr {
	id := in.freshID("ptr")
	return VPtr{Nil: nl, Obj: in.lazyObjID(id+"*", t)}
}

// mergeObjs makes one summary object of two objects.
func (in *Interp) mergeObjs(st *State, a, b ObjID) ObjID {
	if a == b {
		return a
	}
	ia := in.objs[a]
	va, vb := in.contents(st, a), in.contents(st, b)
	in.merging++
	defer func() { in.merging-- }()
	if in.merging > 20 {
		in.giveUp(st, "recursive data structure")
		return a
	}
	o := in.newObj(ObjInfo{T: ia.T, Name: ia.Name, Summary: true, Site: ia.Site, Arg: in.isArg(a) || in.isArg(b)})
	st.setHeap(o, in.patJoin(st, va, vb))
	// References to the merged objects now refer to the summary.
	in.redirect(st, map[ObjID]ObjID{a: o, b: o})
	return o
}

// sameVal reports whether values are provably equal.
func (in *Interp) sameVal(st *State, a, b Value) bool {
	switch x := a.(type) {
	case VInt:
		y, ok := b.(VInt)
		return ok && eqLin(st.norm(x.L), st.norm(y.L))
	case VPat:
		y, ok := b.(VPat)
		return ok && x.Lo == y.Lo && x.Hi == y.Hi && types.Identical(x.T, y.T)
	case VLazy:
		y, ok := b.(VLazy)
		return ok && x.ID == y.ID
	case VStr:
		y, ok := b.(VStr)
		return ok && in.segsKey(st, x.S) == in.segsKey(st, y.S)
	case VPtr:
		y, ok := b.(VPtr)
		return ok && eqLin(st.norm(x.Nil), st.norm(y.Nil)) && (x.Obj == y.Obj && x.Path.key() == y.Path.key())
	case VSlice:
		y, ok := b.(VSlice)
		return ok && x.Obj == y.Obj && x.Path.key() == y.Path.key() && eqLin(st.norm(x.Nil), st.norm(y.Nil)) &&
			eqLin(st.norm(x.Off), st.norm(y.Off)) && eqLin(st.norm(x.Len), st.norm(y.Len)) && eqLin(st.norm(x.Cap), st.norm(y.Cap))
	case VStruct:
		y, ok := b.(VStruct)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !in.sameVal(st, x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case VMap:
		y, ok := b.(VMap)
		return ok && x.Obj == y.Obj && eqLin(st.norm(x.Nil), st.norm(y.Nil))
	case VChan:
		y, ok := b.(VChan)
		return ok && x.ID == y.ID && eqLin(st.norm(x.Nil), st.norm(y.Nil))
	case VIface:
		y, ok := b.(VIface)
		if !ok || !eqLin(st.norm(x.Nil), st.norm(y.Nil)) || x.ID != y.ID {
			return false
		}
		if (x.Dyn == nil) != (y.Dyn == nil) || x.Dyn != nil && !types.Identical(x.Dyn, y.Dyn) {
			return false
		}
		return x.Val == nil && y.Val == nil || x.Val != nil && y.Val != nil && in.sameVal(st, x.Val, y.Val)
	case VFunc:
		y, ok := b.(VFunc)
		if !ok || x.Fn != y.Fn || x.ID != y.ID || len(x.Bind) != len(y.Bind) || !eqLin(st.norm(x.Nil), st.norm(y.Nil)) {
			return false
		}
		for i := range x.Bind {
			if !in.sameVal(st, x.Bind[i], y.Bind[i]) {
				return false
			}
		}
		return true
	case VFloat:
		y, ok := b.(VFloat)
		return ok && x.Known == y.Known && x.V == y.V && x.ID == y.ID
	case VTuple:
		y, ok := b.(VTuple)
		if !ok || len(x.V) != len(y.V) {
			return false
		}
		for i := range x.V {
			if !in.sameVal(st, x.V[i], y.V[i]) {
				return false
			}
		}
		return true
	case *Arr:
		y, ok := b.(*Arr)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if len(x.Over) != len(y.Over) || in.segsKey(st, x.S) != in.segsKey(st, y.S) || !eqLin(st.norm(x.Pre), st.norm(y.Pre)) {
			return false
		}
		for i := range x.Over {
			if !eqLin(st.norm(x.Over[i].Idx), st.norm(y.Over[i].Idx)) || !in.sameVal(st, x.Over[i].Val, y.Over[i].Val) {
				return false
			}
		}
		return true
	case *MapC:
		y, ok := b.(*MapC)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.Lazy != y.Lazy || len(x.Over) != len(y.Over) || (x.Pat == nil) != (y.Pat == nil) {
			return false
		}
		if x.Pat != nil && !in.sameVal(st, x.Pat, y.Pat) {
			return false
		}
		for i := range x.Over {
			if !in.sameVal(st, x.Over[i].Key, y.Over[i].Key) || (x.Over[i].Val == nil) != (y.Over[i].Val == nil) {
				return false
			}
			if x.Over[i].Val != nil && !in.sameVal(st, x.Over[i].Val, y.Over[i].Val) {
				return false
			}
		}
		return true
	case patSlice:
		y, ok := b.(patSlice)
		return ok && x.S.Obj == y.S.Obj && x.S.Path.key() == y.S.Path.key() && eqLin(st.norm(x.S.Nil), st.norm(y.S.Nil))
	case VIter:
		y, ok := b.(VIter)
		return ok && x.ID == y.ID
	case nil:
		return b == nil
	}
	return false
}

// valKey returns a string that identifies a value in a state.
func (in *Interp) valKey(st *State, v Value) string {
	switch x := v.(type) {
	case VInt:
		return st.norm(x.L).key()
	case VStr:
		return in.segsKey(st, x.S)
	case VLazy:
		return "~" + x.ID
	case VPtr:
		if st.isNil(x.Nil) {
			return "nil"
		}
		return fmt.Sprintf("&%d%s", x.Obj, x.Path.key())
	case VSlice:
		if st.isNil(x.Nil) {
			return "nil"
		}
		return fmt.Sprintf("s%d%s[%s,%s]", x.Obj, x.Path.key(), st.norm(x.Off).key(), st.norm(x.Len).key())
	case VFloat:
		if x.Known {
			return fmt.Sprint(x.V)
		}
		return "f" + x.ID
	case VIface:
		if st.isNil(x.Nil) {
			return "nil"
		}
		if x.Val != nil {
			return "i" + in.valKey(st, x.Val)
		}
		return "i" + x.ID
	case VStruct:
		r := "{"
		for _, f := range x.F {
			r += in.valKey(st, f) + ","
		}
		return r + "}"
	}
	return in.freshID("v")
}

func (in *Interp) segsKey(st *State, segs []Seg) string {
	var b strings.Builder
	for _, s := range segs {
		n := st.norm(s.N)
		if n.isK(0) {
			continue
		}
		switch s.Kind {
		case SBase:
			b.WriteString(s.ID + "@" + st.norm(s.Off).key())
		case SZero:
			b.WriteString("0")
		case SConst:
			b.WriteString(strconv.Quote(s.C))
		case SVals:
			b.WriteString("<")
			for _, v := range s.Vals {
				b.WriteString(in.valKey(st, v) + ",")
			}
			b.WriteString(">")
		case SSum:
			b.WriteString("sum" + s.ID)
		case SFn:
			b.WriteString(s.ID + "(")
			for _, v := range s.Args {
				b.WriteString(in.valKey(st, v) + ",")
			}
			b.WriteString(")")
		}
		b.WriteString(":" + n.key() + s.Tags + ";")
	}
	return b.String()
}

// ---- sequences

func strConst(s string) VStr {
	if s == "" {
		return VStr{}
	}
	return VStr{[]Seg{{Kind: SConst, C: s, N: konst(int64(len(s)))}}}
}

// constStr returns the value of constant string.
func (in *Interp) constStr(st *State, v Value) (string, bool) {
	x, ok := v.(VStr)
	if !ok {
		return "", false
	}
	return in.constSegs(st, x.S)
}

func (in *Interp) constSegs(st *State, segs []Seg) (string, bool) {
	var b strings.Builder
	for _, s := range segs {
		switch s.Kind {
		case SConst:
			b.WriteString(s.C)
		case SVals:
			for _, v := range s.Vals {
				i, ok := v.(VInt)
				if !ok {
					return "", false
				}
				k, ok := st.konst(i.L)
				if !ok || k < 0 || k > 255 {
					return "", false
				}
				b.WriteByte(byte(k))
			}
		case SZero:
			n, ok := st.konst(s.N)
			if !ok || n > 1024 {
				return "", false
			}
			b.Write(make([]byte, n))
		default:
			if k, ok := st.konst(s.N); ok && k == 0 {
				continue
			}
			return "", false
		}
	}
	return b.String(), true
}

// concat joins sequences merging adjacent pieces.
func (in *Interp) concat(st *State, a, b []Seg) []Seg {
	r := append([]Seg(nil), a...)
	for _, s := range b {
		if n, ok := st.konst(s.N); ok && n == 0 {
			continue
		}
		if len(r) > 0 {
			l := r[len(r)-1]
			if l.Kind == s.Kind && l.Tags == s.Tags {
				switch l.Kind {
				case SConst:
					r[len(r)-1] = Seg{Kind: SConst, C: l.C + s.C, N: add(l.N, s.N), Tags: l.Tags}
					continue
				case SZero:
					r[len(r)-1].N = add(l.N, s.N)
					continue
				case SVals:
					if len(l.Vals)+len(s.Vals) <= 512 {
						r[len(r)-1] = Seg{Kind: SVals, N: add(l.N, s.N), Vals: append(l.Vals[:len(l.Vals):len(l.Vals)], s.Vals...), Tags: l.Tags}
						continue
					}
				case SBase:
					if l.ID == s.ID && st.isEq(add(l.Off, l.N), s.Off) {
						r[len(r)-1].N = add(l.N, s.N)
						continue
					}
				}
			}
		}
		r = append(r, s)
	}
	return r
}

// slice returns n elements of the sequence starting with off.
func (in *Interp) slice(st *State, segs []Seg, off, n Lin, et types.Type) []Seg {
	if st.isEq(n, k0) {
		return nil
	}
	r, ok := in.drop(st, segs, off)
	if ok {
		r, ok = in.take(st, r, n)
	}
	if !ok {
		switch under(et).(type) {
		case *types.Pointer, *types.Struct, *types.Map, *types.Interface, *types.Slice, *types.Chan:
			return []Seg{{Kind: SSum, ID: in.freshID("sum"), N: n, Pat: in.segsPattern(st, segs, et)}}
		}
		return []Seg{{Kind: SBase, ID: "rope(" + in.segsKey(st, segs) + ")", Off: off, N: n}}
	}
	return r
}

func (in *Interp) drop(st *State, segs []Seg, off Lin) ([]Seg, bool) {
	for {
		if st.isEq(off, k0) {
			return segs, true
		}
		if len(segs) == 0 {
			return nil, true
		}
		s := segs[0]
		if st.isLe(s.N, off) {
			off = sub(off, s.N)
			segs = segs[1:]
			continue
		}
		if len(segs) == 1 || st.isLe(off, s.N) {
			t := s
			t.N = sub(s.N, off)
			k, kok := st.konst(off)
			switch s.Kind {
			case SBase:
				t.Off = add(s.Off, off)
			case SZero, SSum:
			case SConst:
				if !kok || k < 0 || k > int64(len(s.C)) {
					return nil, false
				}
				t.C = s.C[k:]
			case SVals:
				if !kok || k < 0 || k > int64(len(s.Vals)) {
					return nil, false
				}
				t.Vals = s.Vals[k:]
			case SFn:
				t = in.opaque(st, s)
				t.Off, t.N = off, sub(s.N, off)
			default:
				return nil, false
			}
			return append([]Seg{t}, segs[1:]...), true
		}
		return nil, false
	}
}

func (in *Interp) take(st *State, segs []Seg, n Lin) ([]Seg, bool) {
	if st.isEq(segsLen(segs), n) {
		return segs, true
	}
	var r []Seg
	for i, s := range segs {
		if st.isEq(n, k0) {
			return r, true
		}
		if i < len(segs)-1 && st.isLe(s.N, n) {
			r = append(r, s)
			n = sub(n, s.N)
			continue
		}
		if i == len(segs)-1 || st.isLe(n, s.N) {
			t := s
			t.N = n
			k, kok := st.konst(n)
			switch s.Kind {
			case SBase, SZero, SSum:
			case SConst:
				if !kok || k < 0 || k > int64(len(s.C)) {
					return nil, false
				}
				t.C = s.C[:k]
			case SVals:
				if !kok || k < 0 || k > int64(len(s.Vals)) {
					return nil, false
				}
				t.Vals = s.Vals[:k]
			default:
				if st.isEq(n, s.N) {
					break
				}
				if s.Kind != SFn {
					return nil, false
				}
				t = in.opaque(st, s)
				t.N = n
			}
			return append(r, t), true
		}
		return nil, false
	}
	return r, true
}

// opaque makes contents with an identity of a result of a function, so that it has parts.
func (in *Interp) opaque(st *State, s Seg) Seg {
	id := in.segsKey(st, []Seg{s})
	if s.ID == "hex" {
		id = wordPrefix + id
	}
	return Seg{Kind: SBase, ID: id, Off: k0, N: s.N, Tags: s.Tags}
}

// window returns contents of a slice.
func (in *Interp) window(st *State, s VSlice) []Seg {
	if st.isNil(s.Nil) || st.isEq(s.Len, k0) {
		return nil
	}
	v := in.load(st, s.Obj, s.Path)
	a, ok := v.(*Arr)
	if !ok {
		in.giveUp(st, fmt.Sprintf("contents of slice is %T", v))
		return nil
	}
	segs := a.S
	if len(a.Over) > 0 {
		segs = in.flatten(st, a, s)
	}
	return in.slice(st, segs, s.Off, s.Len, a.Et)
}

// flatten applies single element writes to segments.
func (in *Interp) flatten(st *State, a *Arr, s VSlice) []Seg {
	segs := a.S
	for _, w := range a.Over {
		if st.isLt(w.Idx, s.Off) || st.isLe(add(s.Off, s.Len), w.Idx) {
			continue // does not affect the window
		}
		total := segsLen(segs)
		pre, ok := in.take(st, segs, w.Idx)
		post, ok2 := in.drop(st, segs, addK(w.Idx, 1))
		if !ok || !ok2 || !st.isLe(addK(w.Idx, 1), total) {
			return []Seg{{Kind: SSum, N: total, ID: in.freshID("sum"), Pat: in.arrPattern(st, a)}}
		}
		segs = in.concat(st, in.concat(st, pre, []Seg{{Kind: SVals, N: k1, Vals: []Value{w.Val}}}), post)
	}
	return segs
}

// newArray creates an object with an array.
func (in *Interp) newArray(st *State, et types.Type, segs []Seg, site ssa.Instruction) ObjID {
	o := in.newObj(ObjInfo{T: types.NewArray(et, -1), Site: site, Name: "array"})
	st.setHeap(o, &Arr{Et: et, S: segs})
	return o
}

// newSlice creates a slice of a new array.
func (in *Interp) newSlice(st *State, et types.Type, segs []Seg, site ssa.Instruction) VSlice {
	n := segsLen(segs)
	return VSlice{Nil: k0, Obj: in.newArray(st, et, segs, site), Off: k0, Len: n, Cap: n}
}

// reach calls f for each object reachable from v.
func (in *Interp) reachVal(st *State, v Value, seen map[ObjID]bool) {
	switch x := v.(type) {
	case VPtr:
		if !st.isNil(x.Nil) {
			in.reachObj(st, x.Obj, seen)
		}
		for _, s := range x.Path {
			_ = s
		}
	case VSlice:
		if !st.isNil(x.Nil) {
			in.reachObj(st, x.Obj, seen)
		}
	case patSlice:
		in.reachVal(st, x.S, seen)
	case VMap:
		if !st.isNil(x.Nil) {
			in.reachObj(st, x.Obj, seen)
		}
	case VStruct:
		for _, f := range x.F {
			in.reachVal(st, f, seen)
		}
	case VTuple:
		for _, f := range x.V {
			in.reachVal(st, f, seen)
		}
	case VFunc:
		for _, f := range x.Bind {
			in.reachVal(st, f, seen)
		}
	case VIface:
		if x.Val != nil {
			in.reachVal(st, x.Val, seen)
		}
	case VIter:
		in.reachVal(st, x.X, seen)
	case VStr:
		in.reachSegs(st, x.S, seen)
	case *Arr:
		in.reachSegs(st, x.S, seen)
		for _, w := range x.Over {
			in.reachVal(st, w.Val, seen)
		}
	case *MapC:
		if x.Pat != nil {
			in.reachVal(st, x.Pat, seen)
		}
		for _, w := range x.Over {
			in.reachVal(st, w.Key, seen)
			if w.Val != nil {
				in.reachVal(st, w.Val, seen)
			}
		}
	}
}

func (in *Interp) reachSegs(st *State, segs []Seg, seen map[ObjID]bool) {
	for _, s := range segs {
		for _, v := range s.Vals {
			in.reachVal(st, v, seen)
		}
		for _, v := range s.Args {
			in.reachVal(st, v, seen)
		}
		if s.Pat != nil {
			in.reachVal(st, s.Pat, seen)
		}
	}
}

func (in *Interp) reachObj(st *State, o ObjID, seen map[ObjID]bool) {
	if seen[o] {
		return
	}
	seen[o] = true
	if v, ok := st.Heap[o]; ok {
		in.reachVal(st, v, seen)
	}
}

// mapVal rebuilds a value applying f to all expressions and g to all references.
func mapVal(v Value, f func(Lin) Lin, g func(ObjID) ObjID) Value {
	switch x := v.(type) {
	case VInt:
		return VInt{f(x.L)}
	case VPtr:
		return VPtr{f(x.Nil), g(x.Obj), mapPath(x.Path, f)}
	case VSlice:
		return VSlice{Nil: f(x.Nil), Obj: g(x.Obj), Path: mapPath(x.Path, f), Off: f(x.Off), Len: f(x.Len), Cap: f(x.Cap)}
	case patSlice:
		return patSlice{mapVal(x.S, f, g).(VSlice)}
	case VMap:
		return VMap{f(x.Nil), g(x.Obj)}
	case VChan:
		return VChan{f(x.Nil), x.ID}
	case VFunc:
		return VFunc{f(x.Nil), x.Fn, mapVals(x.Bind, f, g), x.ID}
	case VIface:
		r := VIface{f(x.Nil), x.Dyn, nil, x.ID}
		if x.Val != nil {
			r.Val = mapVal(x.Val, f, g)
		}
		return r
	case VStruct:
		return VStruct{x.T, mapVals(x.F, f, g)}
	case VTuple:
		return VTuple{mapVals(x.V, f, g)}
	case VStr:
		return VStr{mapSegs(x.S, f, g)}
	case VIter:
		return VIter{mapVal(x.X, f, g), x.ID, x.Pos}
	case *Arr:
		r := &Arr{Et: x.Et, S: mapSegs(x.S, f, g), Pre: f(x.Pre)}
		for _, w := range x.Over {
			r.Over = append(r.Over, Write{f(w.Idx), mapVal(w.Val, f, g)})
		}
		return r
	case *MapC:
		r := &MapC{Key: x.Key, Elem: x.Elem, Lazy: x.Lazy}
		if x.Pat != nil {
			r.Pat = mapVal(x.Pat, f, g)
		}
		for _, w := range x.Over {
			m := MapWrite{Key: mapVal(w.Key, f, g)}
			if w.Val != nil {
				m.Val = mapVal(w.Val, f, g)
			}
			r.Over = append(r.Over, m)
		}
		return r
	}
	return v
}

func mapPath(p Path, f func(Lin) Lin) Path {
	r := make(Path, len(p))
	for i, s := range p {
		if s.Arr {
			s.Idx = f(s.Idx)
		}
		r[i] = s
	}
	return r
}

func mapVals(v []Value, f func(Lin) Lin, g func(ObjID) ObjID) []Value {
	r := make([]Value, len(v))
	for i := range v {
		r[i] = mapVal(v[i], f, g)
	}
	return r
}

func mapSegs(segs []Seg, f func(Lin) Lin, g func(ObjID) ObjID) []Seg {
	r := make([]Seg, len(segs))
	for i, s := range segs {
		s.N = f(s.N)
		s.Off = f(s.Off)
		if s.Vals != nil {
			s.Vals = mapVals(s.Vals, f, g)
		}
		if s.Args != nil {
			s.Args = mapVals(s.Args, f, g)
		}
		if s.Pat != nil {
			s.Pat = mapVal(s.Pat, f, g)
		}
		r[i] = s
	}
	return r
}

// redirect replaces references to objects everywhere in a state.
func (in *Interp) redirect(st *State, m map[ObjID]ObjID) {
	id := func(l Lin) Lin { return l }
	g := func(o ObjID) ObjID {
		if n, ok := m[o]; ok {
			return n
		}
		return o
	}
	st.ownHeap()
	for o := range m {
		delete(st.Heap, o)
	}
	for o, v := range st.Heap {
		st.Heap[o] = mapVal(v, id, g)
	}
	for i, f := range st.Frames {
		e := make(map[ssa.Value]Value, len(f.Env))
		for k, v := range f.Env {
			e[k] = mapVal(v, id, g)
		}
		st.Frames[i] = &Frame{Fn: f.Fn, Env: e, Defers: f.Defers}
		for j, d := range f.Defers {
			if j == 0 {
				st.Frames[i].Defers = append([]deferred(nil), f.Defers...)
			}
			st.Frames[i].Defers[j] = deferred{d.call, mapVal(d.fn, id, g), mapVals(d.args, id, g)}
		}
	}
	st.ownGhost()
	for k, v := range st.Ghost {
		st.Ghost[k] = mapVal(v, id, g)
	}
}

// instantiate makes a particular value of a pattern.
func (in *Interp) instantiate(st *State, v Value) Value {
	switch x := v.(type) {
	case VPat:
		return in.expand(st, x)
	case patSlice:
		s := x.S
		s.Nil = in.refresh(st, s.Nil)
		s.Off = in.freshInt("off", 0, maxLen)
		s.Len = in.freshInt("len", 0, maxLen)
		s.Cap = in.freshInt("cap", 0, maxLen)
		st.assumeLe(s.Len, s.Cap)
		try(func() { st.C.addLe(addK(lincomb(s.Cap, maxLen, s.Nil), -maxLen)) })
		if !st.isNil(s.Nil) {
			if a, ok := in.load(st, s.Obj, s.Path).(*Arr); ok && st.notNil(s.Nil) {
				st.assumeLe(add(s.Off, s.Cap), a.size())
			}
		}
		return s
	case VStruct:
		f := make([]Value, len(x.F))
		for i := range f {
			f[i] = in.instantiate(st, x.F[i])
		}
		return VStruct{x.T, f}
	case VPtr:
		x.Nil = in.refresh(st, x.Nil)
		return x
	case VIface:
		x.Nil = in.refresh(st, x.Nil)
		if !x.Nil.isConst() || x.Dyn == nil {
			x.ID = in.freshID("iface")
		}
		if x.Val != nil {
			x.Val = in.instantiate(st, x.Val)
		}
		return x
	case VMap:
		x.Nil = in.refresh(st, x.Nil)
		return x
	case VFunc:
		x.Nil = in.refresh(st, x.Nil)
		return x
	}
	return v
}

func (in *Interp) refresh(st *State, l Lin) Lin {
	l = st.norm(l)
	if l.isConst() {
		return l
	}
	return in.freshInt("nil", 0, 1)
}
