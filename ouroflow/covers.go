package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// coverer decides whether state h describes everything that state s describes.  It looks for a
// substitution of symbols of h by expressions of s.
type coverer struct {
	in   *Interp
	h, s *State
	th   map[Sym]Lin
	pend [][2]Lin
	om   map[ObjID]ObjID
	inv  map[ObjID]ObjID
	seen map[[2]ObjID]bool
	work [][2]ObjID
	ids  map[string]string
	keep map[Sym]bool // symbols that identities mention
	stay map[Sym]bool // symbols that are not substituted
	fail bool
	pm   int // positive while patterns are compared
	why  string
}

var debugCover bool

func (in *Interp) covers(h, s *State) bool {
	if s.C.bot {
		return true
	}
	if h.C.bot {
		return false
	}
	in.quiet++
	defer func() { in.quiet-- }()
	c := &coverer{in: in, h: h.clone(), s: s.clone(), th: map[Sym]Lin{}, om: map[ObjID]ObjID{}, inv: map[ObjID]ObjID{},
		seen: map[[2]ObjID]bool{}, ids: map[string]string{}, keep: map[Sym]bool{}, stay: map[Sym]bool{}}
	r := c.run()
	if !r && debugCover {
		fmt.Println("COVER:", c.why)
	}
	return r
}

func (c *coverer) no(why string) bool {
	if c.why == "" {
		c.why = why
	}
	return false
}

func (c *coverer) run() bool {
	h, s, in := c.h, c.s, c.in
	in.settle(h)
	in.settle(s)
	if len(h.Frames) != len(s.Frames) {
		return false
	}
	for i := range h.Frames {
		fh, fs := h.Frames[i], s.Frames[i]
		for _, k := range sortedEnv(fh.Env) {
			vs, ok := fs.Env[k]
			if !ok {
				return false
			}
			if !c.val(fh.Env[k], vs) {
				return false
			}
		}
		if len(fh.Defers) != len(fs.Defers) {
			return false
		}
		for k := range fh.Defers {
			a, b := fh.Defers[k], fs.Defers[k]
			if a.call != b.call || !c.val(a.fn, b.fn) || !c.vals(a.args, b.args) {
				return false
			}
		}
	}
	var gk []string
	for k := range h.Ghost {
		gk = append(gk, k)
	}
	sort.Strings(gk)
	for _, k := range gk {
		v, ok := s.Ghost[k]
		if !ok || !c.val(h.Ghost[k], v) {
			return false
		}
	}
	for k := range s.Ghost {
		if _, ok := h.Ghost[k]; !ok {
			_ = k // nothing is known about it in h
		}
	}
	roots := map[ObjID]bool{}
	for _, st := range []*State{h, s} {
		for o := range st.Heap {
			if i := in.objs[o]; i.Global != nil || i.Lazy != "" || i.Escaped {
				roots[o] = true
			}
		}
	}
	var ro []ObjID
	for o := range roots {
		ro = append(ro, o)
	}
	sort.Slice(ro, func(i, k int) bool { return ro[i] < ro[k] })
	for _, o := range ro {
		if !c.obj(o, o) {
			return false
		}
	}
	for len(c.work) > 0 {
		w := c.work[0]
		c.work = c.work[1:]
		_, a := h.Heap[w[0]]
		_, b := s.Heap[w[1]]
		if !a && !b && w[0] == w[1] {
			continue
		}
		if !a && in.objs[w[0]].Lazy == "" && in.objs[w[0]].Global == nil ||
			!b && in.objs[w[1]].Lazy == "" && in.objs[w[1]].Global == nil {
			return false
		}
		vh, vs := in.contents(h, w[0]), in.contents(s, w[1])
		if in.objs[w[0]].Summary {
			c.pm++
			ok := c.val(vh, in.pattern(s, vs))
			c.pm--
			if !ok {
				return false
			}
		} else if !c.val(vh, vs) {
			return false
		}
	}
	return c.solve()
}

func (c *coverer) mappable(s Sym) bool {
	return tab.info[s].Def == nil && !tabStable(s)
}

func (c *coverer) lin(hl, sl Lin) bool {
	hn := c.h.norm(hl)
	if hn.isConst() {
		return c.s.isEq(sl, hn) || c.no("constant")
	}
	if c.pm > 0 {
		lo, hi := c.h.C.interval(hn)
		return (lo == negInf || c.s.isLe(konst(lo), sl)) && (hi == posInf || c.s.isLe(sl, konst(hi))) || c.no("pattern range")
	}
	if s, ok := hn.single(); ok && c.mappable(s) {
		if _, ok := c.th[s]; !ok {
			c.th[s] = c.s.norm(sl)
			c.stay = map[Sym]bool{}
			return true
		}
	}
	c.pend = append(c.pend, [2]Lin{hn, sl})
	return true
}

func (c *coverer) solve() bool {
	for changed := true; changed; {
		changed = false
		for _, p := range c.pend {
			var free Sym
			n := 0
			var coef int64
			for _, t := range p[0].T {
				if _, ok := c.th[t.S]; !ok && c.mappable(t.S) {
					n++
					free, coef = t.S, t.C
				}
			}
			if n != 1 || coef != 1 && coef != -1 {
				continue
			}
			rest := lincomb(p[0], -coef, symL(free))
			r, ok := c.apply(rest)
			if !ok {
				return c.no("apply")
			}
			c.th[free] = c.s.norm(scale(sub(p[1], r), coef))
			c.stay = map[Sym]bool{}
			changed = true
		}
	}
	// Eliminated symbols are whatever their equations tell.
	var subs []Sym
	for s := range c.h.C.sub {
		if _, ok := c.th[s]; !ok && c.mappable(s) {
			subs = append(subs, s)
		}
	}
	for _, s := range subs {
		if r, ok := c.apply(c.h.C.sub[s]); ok {
			c.th[s] = c.s.norm(r)
			c.stay = map[Sym]bool{}
		}
	}
	for _, p := range c.pend {
		r, ok := c.apply(p[0])
		if !ok || !c.s.isEq(r, p[1]) {
			return c.no("equation " + p[0].String() + " = " + p[1].String())
		}
	}
	for s := range c.keep {
		if x, ok := c.sym(s, 0); !ok || !c.s.isEq(x, symL(s)) {
			return c.no("identity with " + symL(s).String())
		}
	}
	for s, l := range c.th {
		i := tab.info[s]
		if i.Lo != negInf && !c.s.isLe(konst(i.Lo), l) || i.Hi != posInf && !c.s.isLe(l, konst(i.Hi)) {
			return c.no("type range")
		}
	}
	check := func(l Lin, ne bool) bool {
		for _, t := range l.T {
			for id := range c.ids {
				if strings.Contains(tab.info[t.S].Name, id) {
					return c.no("renamed " + id)
				}
			}
		}
		r, ok := c.apply(l)
		if !ok {
			return c.no("apply " + l.String())
		}
		if ne {
			ok = false
			try(func() { ok = c.s.C.entailsNe(r) })
		} else {
			ok = false
			try(func() { ok = c.s.C.entailsLe(r) })
		}
		if !ok {
			c.no("constraint " + l.String() + " as " + c.s.norm(r).String())
		}
		return ok
	}
	for _, l := range c.h.C.list() {
		if !check(l, false) {
			return false
		}
	}
	for _, l := range c.h.C.neq {
		if !check(l, true) {
			return false
		}
	}
	return true
}

// apply substitutes symbols of h.
func (c *coverer) apply(l Lin) (Lin, bool) {
	r := konst(l.K)
	good := true
	if !try(func() {
		for _, t := range l.T {
			x, ok := c.sym(t.S, 0)
			if !ok {
				good = false
				return
			}
			r = lincomb(r, t.C, x)
		}
	}) {
		return r, false
	}
	return r, good
}

func (c *coverer) sym(s Sym, depth int) (Lin, bool) {
	if l, ok := c.th[s]; ok {
		return l, true
	}
	if depth > 6 {
		return k0, false
	}
	same := func(l Lin) bool {
		for _, t := range l.T {
			x, ok := c.sym(t.S, depth+1)
			if !ok || !c.s.isEq(x, symL(t.S)) {
				return false
			}
		}
		return true
	}
	switch d := tab.info[s].Def.(type) {
	case nil:
		if tabStable(s) {
			return symL(s), c.kept(tab.info[s].Name)
		}
		return symL(s), true
	case elemDef:
		if same(d.Idx) && !strings.HasPrefix(d.Base, "rope(") {
			return symL(s), true
		}
		if strings.HasPrefix(d.Base, "rope(") {
			return symL(s), c.identity()
		}
		i, ok := c.apply(d.Idx)
		if !ok {
			return k0, false
		}
		i = c.s.norm(i)
		n := tab.named(d.Base+"["+i.key()+"]", tab.info[s].Lo, tab.info[s].Hi, elemDef{d.Base, i})
		c.s.C.noteElem(n)
		return symL(n), true
	case bitDef:
		return symL(s), same(symL(d.X))
	case condDef:
		return symL(s), same(d.L)
	case modDef:
		return symL(s), same(d.L)
	case andDef:
		return symL(s), same(d.A) && same(d.B)
	case divDef:
		return symL(s), same(d.L)
	case modKDef:
		return symL(s), same(d.L)
	case powDef:
		return symL(s), same(d.N)
	case strDef:
		return symL(s), c.kept(d.Key)
	}
	return symL(s), c.identity()
}

var (
	symNames = regexp.MustCompile(`[0-9]s([0-9]+)`)
	symsIn   = map[string][]Sym{}
)

// mentioned lists symbols that an identity mentions.
func mentioned(id string) []Sym {
	if !strings.Contains(id, "s") {
		return nil
	}
	r, ok := symsIn[id]
	if !ok {
		for _, m := range symNames.FindAllStringSubmatch(id, -1) {
			if n, err := strconv.Atoi(m[1]); err == nil && n < len(tab.info) {
				r = append(r, Sym(n))
			}
		}
		symsIn[id] = r
	}
	return r
}

// kept tells whether nothing that an identity mentions is substituted.
func (c *coverer) kept(id string) bool {
	for _, n := range mentioned(id) {
		r, ok := c.stay[n]
		if !ok {
			c.stay[n] = true
			x, ok := c.sym(n, 0)
			r = ok && c.s.isEq(x, symL(n))
			c.stay[n] = r
		}
		if !r {
			return false
		}
	}
	return true
}

// same notes that an identity stands for itself.
func (c *coverer) same(id string) bool {
	for _, n := range mentioned(id) {
		c.keep[n] = true
	}
	return true
}

// identity tells whether no symbol is substituted by anything else.
func (c *coverer) identity() bool {
	for s, l := range c.th {
		if !c.s.isEq(l, symL(s)) {
			return false
		}
	}
	return true
}

func (c *coverer) obj(ho, so ObjID) bool {
	k := [2]ObjID{ho, so}
	if c.seen[k] {
		return true
	}
	ih, is := c.in.objs[ho], c.in.objs[so]
	// An object that an arbitrary element of a summary refers to is known by this reference only.
	elem := ih.Lazy == "" && ih.Global == nil && is.Global == nil && strings.HasPrefix(is.Lazy, "pat!")
	if ho != so && !elem && (ih.Lazy != "" || ih.Global != nil || is.Lazy != "" || is.Global != nil) {
		return c.no("lazy object " + ih.Name + " " + is.Name)
	}
	if x, ok := c.om[ho]; ok && x != so && !ih.Summary {
		return c.no("object mapped twice")
	}
	if x, ok := c.inv[so]; ok && x != ho {
		return c.no("aliased")
	}
	if is.Summary && !ih.Summary {
		return c.no("summary")
	}
	c.om[ho], c.inv[so] = so, ho
	c.seen[k] = true
	c.work = append(c.work, k)
	return true
}

func (c *coverer) path(a, b Path) bool {
	if len(a) != len(b) {
		return c.no("path")
	}
	for i := range a {
		if a[i].Arr != b[i].Arr || !a[i].Arr && a[i].F != b[i].F {
			return c.no("path")
		}
		if a[i].Arr && !c.lin(a[i].Idx, b[i].Idx) {
			return false
		}
	}
	return true
}

func (c *coverer) vals(a, b []Value) bool {
	if len(a) != len(b) {
		return c.no("number of values")
	}
	for i := range a {
		if !c.val(a[i], b[i]) {
			return false
		}
	}
	return true
}

// id compares identities; an identity made by a join stands for any.
func (c *coverer) id(h, s string) bool {
	if h == s {
		_, ok := c.ids[h]
		return !ok && c.same(h)
	}
	if !strings.Contains(h, "!") {
		return c.no("identity " + h + " " + s)
	}
	if x, ok := c.ids[h]; ok {
		return x == s || c.no("identity")
	}
	c.ids[h] = s
	return true
}

func (c *coverer) val(a, b Value) bool {
	switch x := a.(type) {
	case VLazy:
		if y, ok := b.(VLazy); ok && x.ID == y.ID && c.same(x.ID) {
			return true
		}
		if c.pm > 0 {
			if _, _, bits, _ := intRange(x.T); bits > 0 {
				return c.val(VPat{x.T, negInf, posInf}, b)
			}
		}
		a = c.in.expand(c.h, a)
		if _, still := a.(VLazy); still {
			return c.no("lazy")
		}
	case VPat:
		lo, hi, ok := patRange(x)
		if !ok {
			return true
		}
		switch y := b.(type) {
		case VInt:
			l, u := c.s.C.bounds(c.s.norm(y.L))
			return l >= lo && u <= hi || c.no("pattern")
		case VPat:
			l, u, ok := patRange(y)
			return ok && l >= lo && u <= hi || c.no("pattern")
		}
		b = c.in.expand(c.s, b)
		if y, ok := b.(VInt); ok {
			l, u := c.s.C.bounds(c.s.norm(y.L))
			return l >= lo && u <= hi || c.no("pattern")
		}
		return c.no("pattern kind")
	case patSlice:
		switch y := b.(type) {
		case patSlice:
			return c.patNil(x.S.Nil, y.S.Nil) && (c.s.isNil(y.S.Nil) || c.patPath(x.S.Path, y.S.Path) && c.obj(x.S.Obj, y.S.Obj))
		case VSlice:
			return c.patNil(x.S.Nil, y.Nil) && (c.s.isNil(y.Nil) || c.patPath(x.S.Path, y.Path) && c.obj(x.S.Obj, y.Obj))
		}
		a = c.in.expand(c.h, a)
	}
	if isLazyKind(b) {
		b = c.in.expand(c.s, b)
	}
	switch x := a.(type) {
	case nil:
		return b == nil || c.no("nil")
	case VInt:
		y, ok := b.(VInt)
		return ok && c.lin(x.L, y.L)
	case VFloat:
		y, ok := b.(VFloat)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.Known {
			return c.no("float")
		}
		return c.id(x.ID, c.in.valKey(c.s, y))
	case VStr:
		y, ok := b.(VStr)
		return ok && c.segs(x.S, y.S, types.Typ[types.Byte])
	case VPtr:
		y, ok := b.(VPtr)
		if !ok || !c.lin(x.Nil, y.Nil) {
			return c.no("pointer")
		}
		if c.s.isNil(y.Nil) {
			return true
		}
		return x.Obj != 0 && y.Obj != 0 && c.path(x.Path, y.Path) && c.obj(x.Obj, y.Obj)
	case VSlice:
		y, ok := b.(VSlice)
		if !ok || !c.lin(x.Nil, y.Nil) || !c.lin(x.Len, y.Len) || !c.lin(x.Cap, y.Cap) {
			return c.no("slice")
		}
		if c.s.isNil(y.Nil) {
			return true
		}
		if x.Obj == 0 || y.Obj == 0 || !c.lin(x.Off, y.Off) {
			return c.no("slice window")
		}
		// Array that nothing is known about.
		i := c.in.objs[x.Obj]
		if _, known := c.h.Heap[x.Obj]; !known && strings.HasPrefix(i.Lazy, "slice!") && x.Obj != y.Obj {
			return c.id(i.Lazy, "any"+c.in.valKey(c.s, y))
		}
		return c.path(x.Path, y.Path) && c.obj(x.Obj, y.Obj)
	case VMap:
		y, ok := b.(VMap)
		if !ok || !c.lin(x.Nil, y.Nil) {
			return c.no("map")
		}
		return c.s.isNil(y.Nil) || x.Obj != 0 && y.Obj != 0 && c.obj(x.Obj, y.Obj)
	case VChan:
		y, ok := b.(VChan)
		return ok && c.lin(x.Nil, y.Nil) && (c.s.isNil(y.Nil) || c.id(x.ID, y.ID))
	case VFunc:
		y, ok := b.(VFunc)
		if !ok || !c.lin(x.Nil, y.Nil) {
			return c.no("func")
		}
		if c.s.isNil(y.Nil) {
			return true
		}
		if x.Fn == nil {
			return c.id(x.ID, y.ID)
		}
		return x.Fn == y.Fn && c.vals(x.Bind, y.Bind)
	case VIface:
		y, ok := b.(VIface)
		if !ok || !c.lin(x.Nil, y.Nil) {
			return c.no("interface")
		}
		if c.s.isNil(y.Nil) {
			return true
		}
		if x.Dyn == nil {
			return c.id(x.ID, y.ID)
		}
		if y.Dyn == nil || !types.Identical(x.Dyn, y.Dyn) {
			return c.no("dynamic type")
		}
		if x.Val == nil {
			return true
		}
		if c.pm == 0 && !c.id(x.ID, y.ID) {
			return false
		}
		return y.Val != nil && c.val(x.Val, y.Val)
	case VStruct:
		y, ok := b.(VStruct)
		return ok && c.vals(x.F, y.F)
	case VTuple:
		y, ok := b.(VTuple)
		return ok && c.vals(x.V, y.V)
	case VIter:
		y, ok := b.(VIter)
		return ok && c.val(x.X, y.X)
	case *Arr:
		y, ok := b.(*Arr)
		return ok && c.arr(x, y)
	case *MapC:
		y, ok := b.(*MapC)
		return ok && c.mapc(x, y)
	}
	return c.no("kind")
}

// anything tells whether nothing is known about elements.
func anything(b []Seg) bool {
	for _, x := range b {
		p, ok := x.Pat.(VPat)
		if x.Kind != SSum || !ok || p.Lo != negInf || p.Hi != posInf {
			return false
		}
	}
	return true
}

func (c *coverer) patNil(h, s Lin) bool {
	h = c.h.norm(h)
	return !h.isConst() || c.s.isEq(h, s) || c.no("nil pattern")
}

func (c *coverer) patPath(a, b Path) bool {
	c.pm++
	defer func() { c.pm-- }()
	return c.path(a, b)
}

func (c *coverer) arr(x, y *Arr) bool {
	if !c.lin(x.Pre, y.Pre) {
		return false
	}
	if len(x.S) == 1 && x.S[0].Kind == SVals && len(x.Over) == 0 && (len(y.S) != 1 || y.S[0].Kind != SVals || len(y.Over) > 0) {
		if a := c.in.listed(c.s, y); len(a) == len(x.S[0].Vals) {
			for i := range a {
				if !c.val(x.S[0].Vals[i], a[i]) {
					return false
				}
			}
			return true
		}
	}
	if len(x.Over) == len(y.Over) {
		same := true
		for i := range x.Over {
			if ssaKey(x.Over[i].Idx) != ssaKey(y.Over[i].Idx) && !c.in.aligned(c.h, c.s, x.Over[i].Idx, y.Over[i].Idx) {
				same = false
			}
		}
		if same {
			for i := range x.Over {
				if !c.lin(x.Over[i].Idx, y.Over[i].Idx) || !c.val(x.Over[i].Val, y.Over[i].Val) {
					return false
				}
			}
			return c.segs(x.S, y.S, x.Et)
		}
	}
	if len(x.Over) > 0 {
		return c.no("writes")
	}
	if b, ok := c.in.filled(c.s, y); ok && len(x.S) == 2 {
		return c.segs(x.S, b, x.Et)
	}
	if len(x.S) == 1 && (x.S[0].Kind == SSum || x.S[0].Kind == SBase && strings.HasPrefix(x.S[0].ID, "bytes!")) {
		if !c.lin(x.S[0].N, y.size()) {
			return false
		}
		if x.S[0].Kind == SBase {
			return c.id(x.S[0].ID, c.in.freshID("any"))
		}
		return c.patVal(x.S[0].Pat, c.in.arrPattern(c.s, y))
	}
	return c.no("array")
}

func ssaKey(l Lin) string { return l.key() }

// aligned tells whether two indexes are candidates for the same write.
func (in *Interp) aligned(h, s *State, a, b Lin) bool {
	a = h.norm(a)
	return !a.isConst() || s.isEq(a, b)
}

func (c *coverer) patVal(h, s Value) bool {
	c.pm++
	defer func() { c.pm-- }()
	return c.val(h, s)
}

func (c *coverer) mapc(x, y *MapC) bool {
	if x.Lazy != y.Lazy && !(x.Lazy != "" && c.id(x.Lazy, y.Lazy+"~")) {
		return c.no("map contents")
	}
	if len(x.Over) == len(y.Over) {
		same := true
		for i := range x.Over {
			if c.in.valKey(c.h, x.Over[i].Key) != c.in.valKey(c.s, y.Over[i].Key) || (x.Over[i].Val == nil) != (y.Over[i].Val == nil) {
				same = false
			}
		}
		if same {
			for i := range x.Over {
				if x.Over[i].Val != nil && !c.val(x.Over[i].Val, y.Over[i].Val) {
					return false
				}
			}
			if y.Pat == nil {
				return true
			}
			return x.Pat != nil && c.patVal(x.Pat, y.Pat)
		}
	}
	for _, w := range x.Over {
		if w.Val != nil {
			return c.no("map keys")
		}
		gone := false
		for _, v := range y.Over {
			if v.Val == nil && c.in.valKey(c.h, w.Key) == c.in.valKey(c.s, v.Key) {
				gone = true
			}
		}
		if !gone {
			return c.no("map deletions")
		}
	}
	for _, w := range y.Over {
		if w.Val != nil && (x.Pat == nil || !c.patVal(x.Pat, c.in.pattern(c.s, w.Val))) {
			return c.no("map values")
		}
	}
	return y.Pat == nil || x.Pat != nil && c.patVal(x.Pat, y.Pat)
}

func (c *coverer) segs(a, b []Seg, et types.Type) bool {
	if len(a) == len(b) {
		same := true
		for i := range a {
			x, y := a[i], b[i]
			if x.Kind != y.Kind || x.Tags != y.Tags {
				same = false
				break
			}
			switch x.Kind {
			case SBase:
				same = same && x.ID == y.ID
			case SConst:
				same = same && x.C == y.C
			case SVals:
				same = same && len(x.Vals) == len(y.Vals)
			case SFn:
				same = same && x.ID == y.ID && len(x.Args) == len(y.Args)
			}
		}
		if same {
			for i := range a {
				x, y := a[i], b[i]
				if !c.lin(x.N, y.N) {
					return false
				}
				switch x.Kind {
				case SBase:
					if _, ok := c.ids[x.ID]; ok || !c.same(x.ID) || !c.lin(x.Off, y.Off) {
						return c.no("offset")
					}
				case SVals:
					if !c.vals(x.Vals, y.Vals) {
						return false
					}
				case SFn:
					if !c.vals(x.Args, y.Args) {
						return false
					}
				case SSum:
					if x.ID != y.ID {
						if !c.id(x.ID, y.ID) {
							return false
						}
					}
					if !c.patVal(x.Pat, y.Pat) {
						return false
					}
				}
			}
			return true
		}
	}
	if len(a) == 0 {
		return c.s.isEq(segsLen(b), k0) || c.no("segments")
	}
	if len(a) == 1 {
		x := a[0]
		switch {
		case x.Kind == SSum:
			if !c.lin(x.N, segsLen(b)) {
				return false
			}
			if c.s.isEq(segsLen(b), k0) {
				return true
			}
			return c.patVal(x.Pat, c.in.segsPattern(c.s, b, et))
		case x.Kind == SBase && strings.HasPrefix(x.ID, "pat!") && anything(b):
			return c.lin(x.N, segsLen(b)) && c.lin(x.Off, k0) && c.id(x.ID, c.in.freshID("any"))
		case x.Kind == SBase && (strings.HasPrefix(x.ID, "bytes!") || strings.HasPrefix(x.ID, "pat!") && isByte(et)):
			for _, t := range strings.Split(c.in.joinTags(b, nil), ",") {
				if t != "" && !strings.Contains(","+x.Tags+",", ","+t+",") {
					return c.no("tags")
				}
			}
			return c.lin(x.N, segsLen(b)) && c.lin(x.Off, k0) && c.id(x.ID, c.in.segsKey(c.s, b))
		}
	}
	if r, ok := c.in.coverSegs(c, a, b, et); ok {
		return r
	}
	if debugCover {
		return c.no("segments " + et.String() + c.h.segsString(a) + " of " + c.s.segsString(b))
	}
	return c.no("segments")
}

var _ = ssa.Value(nil)
