package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Parameter sets are decided by the product of the parser with an automaton that walks the syntax tables of
// H.264 7.3.2.  Methods of the bit reader are events of the product (C11 to C13 decide what they do).

// synOp is an operation of a syntax walk.
type synOp struct {
	op    string // elem, if, loop, jmp, do, end
	name  string
	kind  byte // u, e (ue), s (se), l (scaling list)
	bits  func(st *State) int
	split []int64                                      // values that later decisions depend on
	cond  func(st *State) int                          // 1, 0 or -1 when any behaviour is accepted
	do    func(in *Interp, st *State) []*State         // forks or checks
	list  func(in *Interp, st *State, s VSlice) string // checks destination of a scaling list
	to    int
	n     string // element that counts iterations of a loop, one more with plus1
	plus1 bool
}

type syntax struct {
	ops []synOp
}

func (s *syntax) add(o synOp) *synOp {
	s.ops = append(s.ops, o)
	return &s.ops[len(s.ops)-1]
}

func (s *syntax) u(name string, n int, split ...int64) {
	s.add(synOp{op: "elem", name: name, kind: 'u', bits: func(*State) int { return n }, split: split})
}
func (s *syntax) ue(name string, split ...int64) {
	s.add(synOp{op: "elem", name: name, kind: 'e', split: split})
}
func (s *syntax) se(name string) { s.add(synOp{op: "elem", name: name, kind: 's'}) }

func (s *syntax) when(cond func(st *State) int, then func()) {
	i := len(s.ops)
	s.add(synOp{op: "if", cond: cond})
	then()
	s.ops[i].to = len(s.ops)
}

// times repeats a part as often as an element tells; the counter is the ghost "i".
func (s *syntax) times(n string, plus1 bool, body func()) {
	s.add(synOp{op: "do", name: "start", do: func(in *Interp, st *State) []*State {
		st.setGhost("i", intk(0))
		st.setGhost("stored", intk(0))
		return []*State{st}
	}})
	h := len(s.ops)
	s.add(synOp{op: "loop", n: n, plus1: plus1})
	body()
	s.add(synOp{op: "do", name: "next", do: func(in *Interp, st *State) []*State {
		i, _ := st.Ghost["i"].(VInt)
		st.setGhost("i", VInt{addK(i.L, 1)})
		return []*State{st}
	}})
	s.add(synOp{op: "jmp", to: h})
	s.ops[h].to = len(s.ops)
}

func is(name string, vals ...int64) func(st *State) int {
	return func(st *State) int {
		m := st.Mode["v."+name]
		for _, v := range vals {
			if m == strconv.FormatInt(v, 10) {
				return 1
			}
		}
		return 0
	}
}

// highProfiles are the profiles whose sets have the chroma part (H.264 7.3.2.1.1).
var highProfiles = []int64{44, 83, 86, 100, 110, 118, 122, 128, 134, 135, 138, 139, 244}

func scalingLists(x *ctx, s *syntax, typ string, count func(st *State, i int) int) {
	for i := 0; i < 12; i++ {
		i := i
		off, size := int64(16*i), int64(16)
		if i >= 6 {
			off, size = int64(96+64*(i-6)), 64
		}
		s.when(func(st *State) int { return count(st, i) }, func() {
			p := fmt.Sprintf("scaling_list_present_flag[%d]", i)
			s.u(p, 1, 0, 1)
			s.when(is(p, 1), func() {
				s.add(synOp{op: "elem", kind: 'l', name: fmt.Sprintf("UseDefaultScalingMatrix[%d]", i), list: func(in *Interp, st *State, v VSlice) string {
					n, _ := in.objs[v.Obj].T.(*types.Named)
					if n == nil || n.Obj().Name() != typ || len(v.Path) != 1 || v.Path[0].Arr || v.Path[0].F != fieldIndex(n, "ScalingList") {
						return "does not go to the scaling lists of the set"
					}
					if !st.isEq(v.Off, konst(off)) || !st.isEq(v.Len, konst(size)) {
						return pf("goes to %s[%s:+%s], it should go to [%d:+%d]", "ScalingList", st.norm(v.Off), st.norm(v.Len), off, size)
					}
					return ""
				}})
			})
			// What is present does not matter any more.
			s.add(synOp{op: "do", do: func(in *Interp, st *State) []*State {
				listDefault(x, in, st, typ, i)
				st.setMode("v."+p, "")
				return []*State{st}
			}})
		})
	}
}

func spsSyntax(x *ctx) *syntax {
	s := &syntax{}
	s.u("ProfileIdc", 8, append([]int64{183}, highProfiles...)...)
	s.u("ConstraintSet", 8)
	s.u("LevelIdc", 8)
	s.ue("SpsID")
	s.when(is("ProfileIdc", highProfiles...), func() {
		s.ue("ChromaFormatIdc", 0, 1, 2, 3)
		s.when(is("ChromaFormatIdc", 3), func() { s.u("SeparateColorPlane", 1, 0, 1) })
		s.ue("BitDepthLuma")
		s.ue("BitDepthChroma")
		s.u("ZeroTransformBypass", 1)
		s.u("ScalingMatrixPresent", 1, 0, 1)
		s.when(is("ScalingMatrixPresent", 1), func() {
			scalingLists(x, s, "SPSInfo", func(st *State, i int) int {
				if i < 8 || is("ChromaFormatIdc", 3)(st) == 1 {
					return 1
				}
				return 0
			})
		})
	})
	s.ue("Log2MaxFrameNum")
	s.ue("PicOrderCntType", 0, 1)
	s.when(is("PicOrderCntType", 0), func() { s.ue("Log2MaxPicOrderCnt") })
	s.when(is("PicOrderCntType", 1), func() {
		s.u("DeltaPicOrderAlways0", 1)
		s.se("OffsetForNonRefPic")
		s.se("OffsetForTopToBottomField")
		s.ue("NumRefFramesInPicOrderCntCycle")
		s.times("NumRefFramesInPicOrderCntCycle", false, func() { s.se("offset_for_ref_frame") })
	})
	s.ue("MaxNumRefFrames")
	s.u("GapsInFrameNumValueAllowed", 1)
	s.ue("PicWidthInMbsMinus1")
	s.ue("PicHeightInMapUnitsMinus1")
	s.u("FrameMbsOnly", 1, 0, 1)
	s.when(is("FrameMbsOnly", 0), func() { s.u("MbAdaptiveFrameField", 1) })
	s.u("Direct8x8Inference", 1)
	s.u("FrameCropping", 1, 0, 1)
	s.when(is("FrameCropping", 1), func() {
		s.ue("FrameCropLeftOffset")
		s.ue("FrameCropRightOffset")
		s.ue("FrameCropTopOffset")
		s.ue("FrameCropBottomOffset")
	})
	s.u("VuiParametersPresent", 1)
	s.add(synOp{op: "end"})
	return s
}

func ppsSyntax(x *ctx, lookup *ssa.Function) *syntax {
	s := &syntax{}
	s.ue("PpsID")
	s.ue("SpsID")
	// The chroma format is the one of the SPS that is referred to.
	s.add(synOp{op: "do", name: "lookup", do: func(in *Interp, st *State) []*State {
		id, ok := st.Ghost["e.SpsID"]
		if !ok {
			return []*State{st}
		}
		in.quiet++
		defer func() { in.quiet-- }()
		var r []*State
		for _, o := range in.callM(st.clone(), lookup, st.Ghost["self"], id) {
			k, ok := o.Ret[1].(VInt)
			if !ok {
				continue
			}
			a, b := o.St.clone(), o.St
			a.assumeEq(k.L, k1)
			b.assumeEq(k.L, k0)
			if !b.C.bot {
				b.setMode("v.chroma", "unknown")
				r = append(r, b)
			}
			if a.C.bot {
				continue
			}
			c, ok := in.get(a, o.Ret[0], "ChromaFormatIdc").(VInt)
			if !ok {
				continue
			}
			r = append(r, partition(a, "chroma", c.L, []int64{3})...)
		}
		return r
	}})
	s.u("EntropyCodingMode", 1)
	s.u("BottomFieldPicOorderInFramePresent", 1)
	s.ue("NumSliceGroupsMinus1", 0, 1, 2, 3, 4, 5, 6, 7)
	group := func(max int, each func(i int)) {
		for i := 0; i < max; i++ {
			i := i
			var more []int64
			for k := int64(i); k <= 7; k++ {
				more = append(more, k)
			}
			s.when(is("NumSliceGroupsMinus1", more...), func() { each(i) })
		}
	}
	s.when(func(st *State) int {
		switch st.Mode["v.NumSliceGroupsMinus1"] {
		case "0":
			return 0
		case "1", "2", "3", "4", "5", "6", "7":
			return 1
		}
		return -1 // must not be accepted by the standard, left to C14
	}, func() {
		s.ue("SliceGroupMapType", 0, 1, 2, 3, 4, 5, 6)
		s.when(is("SliceGroupMapType", 0), func() {
			group(8, func(i int) { s.ue(fmt.Sprintf("RunLengthMinus1[%d]", i)) })
		})
		s.when(is("SliceGroupMapType", 2), func() {
			for i := 0; i < 7; i++ {
				var more []int64
				for k := int64(i + 1); k <= 7; k++ {
					more = append(more, k)
				}
				i := i
				s.when(is("NumSliceGroupsMinus1", more...), func() {
					s.ue(fmt.Sprintf("TopLeft[%d]", i))
					s.ue(fmt.Sprintf("BottomRight[%d]", i))
				})
			}
		})
		s.when(is("SliceGroupMapType", 3, 4, 5), func() {
			s.u("SliceGroupChangeDirection", 1)
			s.ue("SliceGroupChangeRateMinus1")
		})
		s.when(is("SliceGroupMapType", 6), func() {
			s.ue("PicSizeInMapUnitsMinus1")
			s.times("PicSizeInMapUnitsMinus1", true, func() {
				s.add(synOp{op: "do", name: "check", do: func(in *Interp, st *State) []*State {
					sliceGroup(x, in, st, true)
					return []*State{st}
				}})
				s.add(synOp{op: "elem", name: "slice_group_id", kind: 'u', bits: func(st *State) int {
					switch st.Mode["v.NumSliceGroupsMinus1"] {
					case "1":
						return 1
					case "2", "3":
						return 2
					}
					return 3
				}})
			})
			s.add(synOp{op: "do", name: "check", do: func(in *Interp, st *State) []*State {
				sliceGroup(x, in, st, false)
				return []*State{st}
			}})
		})
	})
	s.ue("NumRefIdxL0DefaultActiveMinus1")
	s.ue("NumRefIdxL1DefaultActiveMinus1")
	s.u("WeightedPred", 1)
	s.u("WeightedBipredIdc", 2)
	s.se("PicInitQpMinus26")
	s.se("PicInitQsMinus26")
	s.se("ChromaQpIndexOffset")
	s.u("DeblockingFilterControlPresent", 1)
	s.u("ConstrainedIntraPred", 1)
	s.u("RedundantPicCntPresent", 1)
	s.add(synOp{op: "more"})
	s.when(is("more", 1), func() {
		s.u("Transform8x8Mode", 1, 0, 1)
		s.u("ScalingMatrixPresent", 1, 0, 1)
		s.when(is("ScalingMatrixPresent", 1), func() {
			scalingLists(x, s, "PPSInfo", func(st *State, i int) int {
				switch {
				case i < 6:
					return 1
				case st.Mode["v.Transform8x8Mode"] == "0":
					return 0
				case i < 8:
					return 1
				case st.Mode["v.chroma"] == "unknown":
					return -1
				case st.Mode["v.chroma"] == "3":
					return 1
				}
				return 0
			})
		})
		s.se("SecondChromaQpIndexOffset")
	})
	s.add(synOp{op: "end"})
	return s
}

// listDefault checks the flag of a scaling list after it has been read.
func listDefault(x *ctx, in *Interp, st *State, typ string, i int) {
	name := fmt.Sprintf("UseDefaultScalingMatrix[%d]", i)
	want, ok := st.Ghost["e."+name].(VInt)
	if !ok {
		want = intk(0)
	}
	st.setGhost("e."+name, nil)
	if in.quiet > 0 {
		return
	}
	w := &walk{x: x, in: in, typ: typ}
	o, ok := w.object(st)
	if !ok {
		return
	}
	x.count("list flags", 1)
	l, ok := w.fieldVal(st, VPtr{Nil: k0, Obj: o}, name)
	x.must(ok && st.isEq(l, want.L), "field@"+name, "%s is %s, it should be %s", name, st.describe(VInt{l}), st.describe(want))
}

// sliceGroup checks that as many slice group ids have been stored as have been read.
func sliceGroup(x *ctx, in *Interp, st *State, more bool) {
	i, ok := st.Ghost["i"].(VInt)
	n, ok2 := st.Ghost["stored"].(VInt)
	if in.quiet == 0 {
		x.must(ok && ok2 && st.isEq(i.L, n.L), "SliceGroupID", "slice_group_id that has been read is not stored")
	}
	if !more {
		st.setGhost("stored", nil)
	}
}

func (w *walk) appended(st *State, dst VSlice, src []Seg) {
	if len(src) == 1 && len(src[0].Vals) == 1 {
		w.storeAt(st, dst.Len, src[0].Vals[0])
	}
}

// storeID checks the place of a slice group id.
func (w *walk) storeID(st *State, o ObjID, idx Lin, v Value) {
	if w.typ != "PPSInfo" || st.Ghost["stored"] == nil || w.pc(st) < 0 {
		return
	}
	if b, ok := under(w.in.objs[o].T).(*types.Array); !ok || !types.Identical(b.Elem(), types.Typ[types.Byte]) {
		return
	}
	w.storeAt(st, idx, v)
}

func (w *walk) storeAt(st *State, idx Lin, v Value) {
	if w.typ != "PPSInfo" || st.Ghost["stored"] == nil || w.pc(st) < 0 {
		return
	}
	i, ok := st.Ghost["i"].(VInt)
	e, ok2 := st.Ghost["e.slice_group_id"].(VInt)
	got, ok3 := v.(VInt)
	n, ok4 := st.Ghost["stored"].(VInt)
	if !ok || !ok2 || !ok3 || !ok4 {
		return
	}
	w.x.count("slice group ids", 1)
	good := st.isEq(idx, i.L) && st.isEq(got.L, e.L) && st.isEq(n.L, i.L)
	if w.in.quiet == 0 {
		w.x.must(good, "SliceGroupID", "slice_group_id %s is stored at %s as %s", st.norm(i.L), st.norm(idx), st.norm(got.L))
	}
	st.setGhost("stored", VInt{addK(n.L, 1)})
}

// partition forks a state by the values of l that decisions depend on.
func partition(st *State, name string, l Lin, vals []int64) []*State {
	var r []*State
	put := func(mode string, f func(s *State)) {
		s := st.clone()
		f(s)
		if s.C.bot || !s.C.feasibleAll() {
			return
		}
		s.setMode("v."+name, mode)
		r = append(r, s)
	}
	vs := append([]int64(nil), vals...)
	for i := range vs {
		for k := i + 1; k < len(vs); k++ {
			if vs[k] < vs[i] {
				vs[i], vs[k] = vs[k], vs[i]
			}
		}
	}
	if len(vs) == 0 {
		return []*State{st}
	}
	put(fmt.Sprintf("<%d", vs[0]), func(s *State) { s.assumeLt(l, konst(vs[0])) })
	for i, v := range vs {
		put(strconv.FormatInt(v, 10), func(s *State) { s.assumeEq(l, konst(v)) })
		put(fmt.Sprintf(">%d", v), func(s *State) {
			s.assumeLt(konst(v), l)
			if i+1 < len(vs) {
				s.assumeLt(l, konst(vs[i+1]))
			}
		})
	}
	return r
}

// walk is the product of a parser with a syntax.
type walk struct {
	x      *ctx
	in     *Interp
	s      *syntax
	typ    string
	what   string
	silent bool             // order is the subject of another check
	limits map[string]int64 // assumed upper limits of elements
	assume func(st *State, name string)
}

func (w *walk) pc(st *State) int {
	n, err := strconv.Atoi(st.Mode["pc"])
	if err != nil {
		return -1
	}
	return n
}

func (w *walk) setPC(st *State, n int) { st.setMode("pc", strconv.Itoa(n)) }

// settle advances states until an element or the end is next.
func (w *walk) settle(st *State) []*State {
	var r []*State
	work := []*State{st}
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		if st.C.bot {
			continue
		}
		pc := w.pc(st)
		if pc < 0 {
			r = append(r, st)
			continue
		}
		o := &w.s.ops[pc]
		switch o.op {
		case "elem", "end":
			r = append(r, st)
		case "jmp":
			w.setPC(st, o.to)
			work = append(work, st)
		case "do":
			for _, s := range o.do(w.in, st) {
				w.setPC(s, pc+1)
				work = append(work, s)
			}
		case "more":
			// Nobody asked: both are possible.
			for _, v := range []string{"0", "1"} {
				s := st.clone()
				if st.Mode["v.more"] != "" {
					s = st
				} else {
					s.setMode("v.more", v)
				}
				w.setPC(s, pc+1)
				work = append(work, s)
				if s == st {
					break
				}
			}
		case "if":
			switch o.cond(st) {
			case 1:
				w.setPC(st, pc+1)
			case 0:
				w.setPC(st, o.to)
			default:
				st.setMode("pc", "any")
			}
			work = append(work, st)
		case "loop":
			n, ok := st.Ghost["e."+o.n].(VInt)
			i, ok2 := st.Ghost["i"].(VInt)
			if !ok || !ok2 {
				st.setMode("pc", "lost")
				r = append(r, st)
				continue
			}
			lim := n.L
			if o.plus1 {
				lim = addK(lim, 1)
			}
			a, b := st.clone(), st
			a.assumeLt(i.L, lim)
			b.assumeLe(lim, i.L)
			if !a.C.bot && a.C.feasibleAll() {
				w.setPC(a, pc+1)
				work = append(work, a)
			}
			if !b.C.bot && b.C.feasibleAll() {
				w.setPC(b, o.to)
				work = append(work, b)
			}
		}
	}
	return r
}

func (w *walk) fail(key, f string, a ...any) {
	if w.in.quiet == 0 && !w.silent {
		w.x.must(false, key, f, a...)
	}
}

func (w *walk) describe(o *synOp) string {
	switch o.kind {
	case 'u':
		return o.name + " as u(n)"
	case 'e':
		return o.name + " as ue(v)"
	case 's':
		return o.name + " as se(v)"
	case 'l':
		return o.name + " as a scaling list"
	}
	return "the end"
}

var kindNames = map[byte]string{'u': "u(%d)", 'e': "ue(v)", 's': "se(v)", 'g': "an Exp-Golomb code", 'l': "a scaling list"}

// event is a read.  mk makes the results from the value read.
func (w *walk) event(c *callCtx, kind byte, n int, list VSlice, mk func(st *State, v Lin) []Value) []Outcome {
	in := w.in
	pos := in.pos(c.ins)
	var outs []Outcome
	// The read fails.
	e := c.st.clone()
	for k := range e.Mode {
		e.setMode(k, "")
	}
	e.setMode("pc", "err")
	outs = append(outs, Outcome{e, w.failed(mk(e, in.freshInt("junk", 0, 1)), c)})
	for _, st := range w.settle(c.st.clone()) {
		pc := w.pc(st)
		if pc < 0 {
			lo, hi := valueRange(kind, n)
			outs = append(outs, Outcome{st, mk(st, in.freshInt("any", lo, hi))})
			continue
		}
		name := fmt.Sprintf(kindNames[kind], n)
		if kind != 'u' {
			name = kindNames[kind]
		}
		bad := func(want string) {
			w.fail("order@"+want, "%s: %s is read as %s where %s has %s", pos, "an element", name, w.what, want)
			st.setMode("pc", "any")
			lo, hi := valueRange(kind, n)
			outs = append(outs, Outcome{st, mk(st, in.freshInt("any", lo, hi))})
		}
		o := &w.s.ops[pc]
		if o.op != "elem" {
			bad("its end")
			continue
		}
		if kind != 'u' || o.kind != 'u' {
			if kind != o.kind && !(kind == 'g' && (o.kind == 'e' || o.kind == 's')) {
				bad(w.describe(o))
				continue
			}
			if kind == 'l' {
				if msg := o.list(in, st, list); msg != "" {
					w.fail("list@"+o.name, "%s: scaling list for %s %s", pos, o.name, msg)
				}
			}
			lo, hi := valueRange(o.kind, 0)
			if m, ok := w.limits[o.name]; ok && m < hi {
				hi = m
			}
			v := in.freshInt("e."+o.name, lo, hi)
			for _, s := range w.done(st, pc, v) {
				outs = append(outs, Outcome{s, mk(s, v)})
			}
			if in.quiet == 0 {
				w.x.count("reads", 1)
			}
			continue
		}
		// Bits of one element or several.
		type part struct {
			st   *State
			left int
			v    Lin
		}
		work := []part{{st, n, k0}}
		for len(work) > 0 {
			p := work[0]
			work = work[1:]
			if p.left == 0 {
				outs = append(outs, Outcome{p.st, mk(p.st, p.v)})
				continue
			}
			for _, st := range w.settle(p.st) {
				pc := w.pc(st)
				if pc < 0 {
					outs = append(outs, Outcome{st, mk(st, in.freshInt("any", 0, 1<<n-1))})
					continue
				}
				o := &w.s.ops[pc]
				if o.op != "elem" || o.kind != 'u' {
					want := "its end"
					if o.op == "elem" {
						want = w.describe(o)
					}
					w.fail("order@"+want, "%s: an element is read as %s where %s has %s", pos, name, w.what, want)
					st.setMode("pc", "any")
					outs = append(outs, Outcome{st, mk(st, in.freshInt("any", 0, 1<<n-1))})
					continue
				}
				need := o.bits(st)
				have := k0
				if r, err := strconv.Atoi(st.Mode["rem"]); err == nil {
					need = r
					if h, ok := st.Ghost["partial"].(VInt); ok {
						have = h.L
					}
				}
				k := need
				if p.left < k {
					k = p.left
				}
				v := in.freshInt("e."+o.name, 0, 1<<k-1)
				if in.quiet == 0 {
					w.x.count("reads", 1)
				}
				all := lincomb(v, 1<<k, have)
				ret := lincomb(v, 1<<k, p.v)
				if k < need {
					st.setMode("rem", strconv.Itoa(need-k))
					st.setGhost("partial", VInt{all})
					work = append(work, part{st, p.left - k, ret})
					continue
				}
				st.setMode("rem", "")
				st.setGhost("partial", nil)
				for _, s := range w.done(st, pc, all) {
					work = append(work, part{s, p.left - k, ret})
				}
			}
		}
	}
	return outs
}

// done records an element that has been read.
func (w *walk) done(st *State, pc int, v Lin) []*State {
	o := &w.s.ops[pc]
	st.setGhost("e."+o.name, VInt{v})
	if c, ok := st.Ghost["consumed"].(VInt); ok {
		st.setGhost("consumed", VInt{addK(c.L, 1)})
	}
	w.setPC(st, pc+1)
	if w.assume != nil {
		w.assume(st, o.name)
	}
	if len(o.split) == 0 {
		return []*State{st}
	}
	return partition(st, o.name, v, o.split)
}

func valueRange(kind byte, n int) (int64, int64) {
	switch kind {
	case 'u':
		return 0, 1<<n - 1
	case 's':
		return -1 << 31, 1<<31 - 1
	case 'l':
		return 0, 1
	}
	return 0, 1<<32 - 2
}

// failed makes the results of a read that fails.
func (w *walk) failed(r []Value, c *callCtx) []Value {
	res := c.sig.Results()
	out := make([]Value, len(r))
	for i := range r {
		t := res.At(i).Type()
		if i == len(r)-1 {
			out[i] = VIface{Nil: k0, ID: w.in.freshID("readerr")}
		} else {
			out[i] = zero(t)
		}
	}
	return out
}

// hook makes methods of the bit reader events.
func (w *walk) hook(c *callCtx) ([]Outcome, bool) {
	if c.fn == nil || c.fn.Signature.Recv() == nil || !strings.HasPrefix(c.fn.RelString(nil), "(*"+modulePath+"/net/h264.BitReader).") {
		return nil, false
	}
	in := w.in
	noErr := VIface{Nil: k1}
	val := func(st *State, v Lin) []Value { return []Value{VInt{v}, noErr} }
	none := func(st *State, v Lin) []Value { return []Value{noErr} }
	bits := func(i int) (int, bool) {
		l, ok := c.args[i].(VInt)
		if !ok {
			return 0, false
		}
		k, ok := c.st.konst(l.L)
		return int(k), ok
	}
	switch c.fn.Name() {
	case "ReadBits", "ReadByteBits", "SkipBits":
		n, ok := bits(1)
		if !ok {
			w.fail("bits", "%s: number of bits %s cannot be determined", in.pos(c.ins), c.st.describe(c.args[1]))
			n = 1
		}
		if c.fn.Name() == "ReadByteBits" && n > 8 {
			n = 8
		}
		if c.fn.Name() == "SkipBits" {
			return w.event(c, 'u', n, VSlice{}, none), true
		}
		return w.event(c, 'u', n, VSlice{}, val), true
	case "ReadFlag":
		return w.event(c, 'u', 1, VSlice{}, val), true
	case "ReadUnsignedGolomb":
		return w.event(c, 'e', 0, VSlice{}, val), true
	case "ReadSignedGolomb":
		return w.event(c, 's', 0, VSlice{}, val), true
	case "SkipGolomb":
		return w.event(c, 'g', 0, VSlice{}, none), true
	case "ReadScalingList":
		s, _ := c.args[1].(VSlice)
		return w.event(c, 'l', 0, s, val), true
	case "Available":
		lim := w.total(c.st)
		a := in.freshInt("available", 0, maxLen)
		st := c.st
		st.assumeLe(a, lim)
		return []Outcome{{st, []Value{VInt{a}}}}, true
	case "MoreData":
		var r []Outcome
		pc := w.pc(c.st)
		if pc >= 0 {
			for ; ; pc++ {
				if o := w.s.ops[pc]; o.op != "do" {
					break
				}
			}
		}
		if pc >= 0 && w.s.ops[pc].op == "more" && c.st.Mode["v.more"] == "" {
			for _, v := range []int64{0, 1} {
				s := c.st.clone()
				s.setMode("v.more", strconv.FormatInt(v, 10))
				r = append(r, Outcome{s, []Value{intk(v)}})
			}
			return r, true
		}
		if m := c.st.Mode["v.more"]; m != "" && pc >= 0 && w.s.ops[pc].op == "more" {
			k, _ := strconv.ParseInt(m, 10, 64)
			return []Outcome{{c.st, []Value{intk(k)}}}, true
		}
		return []Outcome{{c.st, []Value{VInt{in.freshInt("more", 0, 1)}}}}, true
	}
	return nil, false
}

func (w *walk) total(st *State) Lin {
	if n, ok := st.Ghost["total"].(VInt); ok {
		return n.L
	}
	return konst(maxLen)
}

// object returns the set of the walk's type that has been made by the parser.
func (w *walk) object(st *State) (ObjID, bool) {
	var id ObjID
	n := 0
	for o := range st.Heap {
		if t, ok := w.in.objs[o].T.(*types.Named); ok && t.Obj().Name() == w.typ && w.in.objs[o].Lazy == "" {
			id = o
			n++
		}
	}
	return id, n == 1
}

// sets makes parameter sets with arbitrary earlier contents.
func (x *ctx) sets(in *Interp) []*State {
	ctor := x.fn("net/h264", "NewParameterSets")
	if ctor == nil {
		return nil
	}
	in.lazyHook = func(st *State, l VLazy) Value {
		if p, ok := under(l.T).(*types.Pointer); ok && strings.HasPrefix(l.ID, "earlier") {
			return VPtr{Nil: k0, Obj: in.lazyObjID(l.ID+"*", p.Elem())}
		}
		return nil
	}
	var r []*State
	for _, o := range in.callFn(in.enter(), ctor, in.lazyArgs(in.enter(), ctor), nil) {
		st := o.St
		for id, v := range st.Heap {
			if m, ok := v.(*MapC); ok {
				st.setHeap(id, &MapC{Key: m.Key, Elem: m.Elem, Lazy: fmt.Sprintf("earlier%d", id)})
			}
		}
		st.setGhost("self", o.Ret[0])
		r = append(r, st)
	}
	return r
}

// fieldVal reads a field like F or F[i].
func (w *walk) fieldVal(st *State, p Value, name string) (Lin, bool) {
	base, idx, isIdx := strings.Cut(name, "[")
	v := w.in.get(st, p, base)
	if isIdx {
		i, _ := strconv.Atoi(strings.TrimSuffix(idx, "]"))
		v = w.in.elemOf(st, v, int64(i))
	}
	l, ok := v.(VInt)
	return l.L, ok
}

func (in *Interp) elemOf(st *State, v Value, i int64) Value {
	switch a := in.expand(st, v).(type) {
	case *Arr:
		return in.elem(st, a, konst(i))
	case VSlice:
		return in.elemAt(st, a, konst(i))
	}
	return nil
}

// absent are fields that are zero when the element is not in the set.
var absent = []string{"SeparateColorPlane", "BitDepthLuma", "BitDepthChroma", "ZeroTransformBypass", "ScalingMatrixPresent", "MbAdaptiveFrameField",
	"FrameCropLeftOffset", "FrameCropRightOffset", "FrameCropTopOffset", "FrameCropBottomOffset", "Transform8x8Mode", "NumSliceGroupsMinus1"}

// finish checks a successful outcome.
func (w *walk) finish(o Outcome, get *ssa.Function, idElem string, each func(st *State, p Value)) {
	x, in := w.x, w.in
	for _, st := range w.settle(o.St) {
		pc := w.pc(st)
		if pc < 0 {
			switch st.Mode["pc"] {
			case "err":
				w.fail("error", "parsing of %s succeeds after a read failed", w.what)
			case "any":
				continue
			default:
				w.fail("lost", "the position in the syntax of %s cannot be determined", w.what)
			}
			continue
		}
		if op := &w.s.ops[pc]; op.op != "end" || st.Mode["rem"] != "" {
			w.fail("order@end", "parsing of %s ends before %s", w.what, w.describe(op))
			continue
		}
		x.count("successful outcomes", 1)
		id, ok := st.Ghost["e."+idElem]
		if !ok {
			w.fail("id", "the id of %s has not been read", w.what)
			continue
		}
		found := false
		in.quiet++
		res := in.callM(st.clone(), get, st.Ghost["self"], id)
		in.quiet--
		for _, g := range res {
			k, ok := g.Ret[1].(VInt)
			p, ok2 := g.Ret[0].(VPtr)
			if !x.must(ok && ok2 && g.St.isEq(k.L, k1) && g.St.notNil(p.Nil), "lookup", "%s that has been parsed is not found by its id", w.what) {
				continue
			}
			found = true
			each(g.St, p)
		}
		x.must(found, "lookup", "%s that has been parsed is not found by its id", w.what)
	}
}

// fields compares the fields of a set with the elements that have been read.
func (w *walk) fields(st *State, p Value, t types.Type) {
	x := w.x
	for g, v := range st.Ghost {
		name, ok := strings.CutPrefix(g, "e.")
		if !ok {
			continue
		}
		base, _, _ := strings.Cut(name, "[")
		if fieldIndex(t, base) < 0 {
			continue
		}
		e, ok := v.(VInt)
		if !ok {
			continue
		}
		l, ok := w.fieldVal(st, p, name)
		x.count("fields compared", 1)
		x.must(ok && st.isEq(l, e.L), "field@"+name, "%s: %s is %s, it should hold the element %s", w.what, name, st.describe(VInt{l}), st.describe(e))
	}
	for _, name := range absent {
		if _, ok := st.Ghost["e."+name]; ok || fieldIndex(t, name) < 0 {
			continue
		}
		l, ok := w.fieldVal(st, p, name)
		x.must(ok && st.isEq(l, k0), "absent@"+name, "%s: %s is %s though the element is absent, it should be inferred to be 0", w.what, name, st.describe(VInt{l}))
	}
	if st.Mode["v.SliceGroupMapType"] == "6" {
		n, ok := st.Ghost["e.PicSizeInMapUnitsMinus1"].(VInt)
		ids, ok2 := w.in.get(st, p, "SliceGroupID").(VSlice)
		x.must(ok && ok2 && st.isEq(ids.Len, addK(n.L, 1)), "SliceGroupID length", "SliceGroupID does not have an element for each map unit")
	}
	// Presence of scaling lists.
	if l, ok := w.fieldVal(st, p, "ScalingListPresent"); x.must(ok, "field@ScalingListPresent", "ScalingListPresent cannot be determined") {
		sum := k0
		for i := 0; i < 12; i++ {
			if f, ok := st.Ghost[fmt.Sprintf("e.scaling_list_present_flag[%d]", i)].(VInt); ok {
				sum = lincomb(sum, 1<<i, f.L)
			}
		}
		x.must(st.isEq(l, sum), "field@ScalingListPresent", "%s: ScalingListPresent is %s, it should be %s", w.what, st.norm(l), st.norm(sum))
	}
}

func init() {
	reads := map[string]int{"reads": 100, "successful outcomes": 8, "fields compared": 200}
	register(&check{id: "C15", rule: "product of ParseSPS with an automaton of the syntax table of H.264 7.3.2.1.1, bit reader methods are the events; loops to fixpoint; at each successful return the automaton is at its end and each field of the set found by GetSPS equals the element of that name; scaling lists likewise with 7.3.2.1.1.1",
		min: reads, run: func(x *ctx) { x.runSPS(nil) }})
	register(&check{id: "C16", rule: "as C15, for ParsePPS and the syntax table of H.264 7.3.2.2, for every slice group map type; the tail is read exactly when the bit reader reports more data",
		min: reads, run: runC16})
	register(&check{id: "C18", rule: "as C15 with elements limited to what H.264 allows; at each successful return Width and Height equal the expressions of H.264 7.4.2.1.1 over the elements read",
		min: map[string]int{"dimensions": 8}, run: runC18})
}

// parser sets up the product for a parse method.
func (x *ctx) parser(in *Interp, s *syntax, typ, what, method string) (*walk, *ssa.Function, []Outcome) {
	fn := x.method("net/h264", "ParameterSets", method)
	w := &walk{x: x, in: in, s: s, typ: typ, what: what}
	return w, fn, nil
}

func (x *ctx) runSPS(w0 func(w *walk)) {
	x.runSet(spsSyntax(x), "SPSInfo", "an SPS", "ParseSPS", "GetSPS", "SpsID", w0, nil)
	if w0 == nil {
		x.scalingList()
	}
}

// runSet decides one parser.
func (x *ctx) runSet(s *syntax, typ, what, parse, get, id string, conf func(w *walk), each func(w *walk, st *State, p Value)) {
	in := x.interp()
	in.noPanics = true
	in.unrolls = 40
	w, fn, _ := x.parser(in, s, typ, what, parse)
	getf := x.method("net/h264", "ParameterSets", get)
	t := x.typ("net/h264", typ)
	if fn == nil || getf == nil || t == nil {
		return
	}
	if conf != nil {
		conf(w)
	}
	x.guard(in, parse, func() {
		for _, st := range x.sets(in) {
			in.h.Call = w.hook
			in.h.Store = func(st *State, ins *ssa.Store, p VPtr, v Value) {
				if n := len(p.Path); n > 0 && p.Path[n-1].Arr {
					w.storeID(st, p.Obj, p.Path[n-1].Idx, v)
				}
			}
			in.h.Append = func(st *State, ins ssa.Instruction, dst VSlice, src []Seg, et types.Type) {
				w.appended(st, dst, src)
			}
			args := in.lazyArgs(st, fn)
			args[0] = st.Ghost["self"]
			st.setMode("pc", "0")
			if x.visit != nil {
				x.visit(w, st)
			}
			outs := in.callFn(st, fn, args, nil)
			x.count("outcomes", len(outs))
			good, bad := in.splitErr(outs)
			if x.visitOuts != nil {
				x.visitOuts(good, bad)
			}
			for _, o := range good {
				w.finish(o, getf, id, func(st *State, p Value) {
					if each != nil {
						each(w, st, p)
					} else {
						w.fields(st, p, t)
					}
				})
			}
		}
	})
	x.collect(in, func(o *Obligation) bool { return o.Rule == "analysable" })
}

// scalingList decides ReadScalingList against H.264 7.3.2.1.1.1.
func (x *ctx) scalingList() {
	fn := x.method("net/h264", "BitReader", "ReadScalingList")
	if fn == nil || !isSliceOf(fn.Params[1].Type()) {
		return
	}
	for _, size := range []int64{16, 64} {
		in := x.interp()
		in.noPanics = true
		in.unrolls = 70
		type scale struct{ last, next Lin }
		get := func(st *State) (j int64, s scale) {
			k, _ := strconv.Atoi(st.Mode["j"])
			l, _ := st.Ghost["lastScale"].(VInt)
			n, _ := st.Ghost["nextScale"].(VInt)
			return int64(k), scale{l.L, n.L}
		}
		x.guard(in, fn.String(), func() {
			st := in.enter()
			args := in.lazyArgs(st, fn)
			p := args[0].(VPtr)
			st.assumeEq(p.Nil, k0)
			list := args[1].(VSlice)
			st.assumeEq(list.Len, konst(size))
			st.setMode("j", "0")
			st.setGhost("list", list)
			st.setGhost("lastScale", intk(8))
			st.setGhost("nextScale", intk(8))
			in.h.Call = func(c *callCtx) ([]Outcome, bool) {
				if c.fn == nil || c.fn.Signature.Recv() == nil || !strings.HasPrefix(c.fn.RelString(nil), "(*"+modulePath+"/net/h264.BitReader).") || c.fn == fn {
					return nil, false
				}
				if c.fn.Name() != "ReadSignedGolomb" {
					x.must(false, "scaling list read", "a scaling list consists of se(v) elements, %s is called", c.fn.Name())
				}
				e := c.st.clone()
				e.setMode("j", "err")
				outs := []Outcome{{e, []Value{intk(0), VIface{Nil: k0, ID: in.freshID("readerr")}}}}
				j, s := get(c.st)
				if c.st.Mode["j"] == "err" || c.st.Mode["dead"] != "" || !x.must(j < size, "scaling list length", "more elements are read than a scaling list has") {
					x.must(c.st.Mode["j"] == "err" || c.st.Mode["dead"] == "", "scaling list end", "a delta is read after the scale has become 0")
					return outs, true
				}
				st := c.st
				if j > 0 {
					x.sameInt(st, in.elemAt(st, st.Ghost["list"].(VSlice), konst(j-1)), s.last, "scaling list element", pf("element %d of the scaling list", j-1))
				}
				x.count("deltas", 1)
				for _, zero := range []bool{true, false} {
					// last + delta + 256 = next + 256 * (wrap + 1)
					z := st.clone()
					wrap := in.freshInt("wrap", -1, 1)
					next := k0
					if !zero {
						next = in.freshInt("scale", 1, 255)
					}
					d := lincomb(sub(next, s.last), 256, wrap)
					z.assumeLe(konst(-128), d)
					z.assumeLe(d, konst(127))
					if z.C.bot || !z.C.feasibleAll() {
						continue
					}
					z.setMode("j", strconv.FormatInt(j+1, 10))
					z.setGhost("nextScale", VInt{next})
					if zero {
						z.setMode("dead", strconv.FormatInt(j, 10))
					} else {
						z.setGhost("lastScale", VInt{next})
					}
					outs = append(outs, Outcome{z, []Value{VInt{d}, VIface{Nil: k1}}})
				}
				return outs, true
			}
			good, _ := in.splitErr(in.callFn(st, fn, args, nil))
			x.must(len(good) > 0, "scaling list", "no scaling list is read")
			for _, o := range good {
				st := o.St
				j, s := get(st)
				if !x.must(st.Mode["j"] != "err", "scaling list error", "reading of a scaling list succeeds after a read failed") {
					continue
				}
				from := int64(0)
				if st.Mode["dead"] != "" {
					from = j - 1
				} else {
					from = j - 1
					x.must(j == size, "scaling list length", "only %d elements are read of a scaling list of %d", j, size)
				}
				for k := from; k < size; k++ {
					x.sameInt(st, in.elemAt(st, list, konst(k)), s.last, "scaling list element", pf("element %d of the scaling list", k))
				}
				def := k0
				if st.Mode["dead"] == "0" {
					def = k1
				}
				x.sameInt(st, o.Ret[0], def, "scaling list default", "the flag that selects the default scaling list")
				x.count("scaling lists", 1)
			}
		})
		x.collect(in, func(o *Obligation) bool { return o.Rule == "analysable" })
	}
}

func isSliceOf(t types.Type) bool {
	_, ok := under(t).(*types.Slice)
	return ok
}

func runC16(x *ctx) {
	get := x.method("net/h264", "ParameterSets", "GetSPS")
	if get == nil {
		return
	}
	x.runSet(ppsSyntax(x, get), "PPSInfo", "a PPS", "ParsePPS", "GetPPS", "PpsID", nil, nil)
	x.scalingList()
}

func runC18(x *ctx) {
	val := func(st *State, name string) Lin {
		if v, ok := st.Ghost["e."+name].(VInt); ok {
			return v.L
		}
		return k0
	}
	conf := func(w *walk) {
		// Limits that keep sizes below 2^26 and cropping within the picture, as H.264 requires.
		w.limits = map[string]int64{"PicWidthInMbsMinus1": 1 << 20, "PicHeightInMapUnitsMinus1": 1 << 20,
			"FrameCropLeftOffset": 1 << 24, "FrameCropRightOffset": 1 << 24, "FrameCropTopOffset": 1 << 24, "FrameCropBottomOffset": 1 << 24}
		w.assume = func(st *State, name string) {
			switch name {
			case "ChromaFormatIdc":
				st.assumeLe(val(st, name), konst(3))
			case "FrameCropRightOffset", "FrameCropBottomOffset":
				ww, hh, cx, cy := picture(st, val)
				st.assumeLt(cx, ww)
				if name == "FrameCropBottomOffset" {
					st.assumeLt(cy, hh)
				}
			}
		}
	}
	x.runSet(spsSyntax(x), "SPSInfo", "an SPS", "ParseSPS", "GetSPS", "SpsID", conf, func(w *walk, st *State, p Value) {
		ww, hh, cx, cy := picture(st, val)
		x.count("dimensions", 2)
		m := pf("profile %s, chroma format %s, separate planes %s, frame_mbs_only %s", st.Mode["v.ProfileIdc"], st.Mode["v.ChromaFormatIdc"], st.Mode["v.SeparateColorPlane"], st.Mode["v.FrameMbsOnly"])
		x.sameInt(st, w.in.get(st, p, "Width"), sub(ww, cx), "Width", "width ("+m+")")
		x.sameInt(st, w.in.get(st, p, "Height"), sub(hh, cy), "Height", "height ("+m+")")
	})
}

// picture returns the size of the picture and what cropping removes.
func picture(st *State, val func(*State, string) Lin) (w, h, cx, cy Lin) {
	fields := int64(2)
	if st.Mode["v.FrameMbsOnly"] == "1" {
		fields = 1
	}
	w = lincomb(konst(16), 16, val(st, "PicWidthInMbsMinus1"))
	h = lincomb(konst(16*fields), 16*fields, val(st, "PicHeightInMapUnitsMinus1"))
	chroma := st.Mode["v.ChromaFormatIdc"]
	if chroma == "" {
		chroma = "1" // inferred
		if st.Mode["v.ProfileIdc"] == "183" {
			chroma = "0"
		}
	}
	ux, uy := int64(1), fields
	if st.Mode["v.SeparateColorPlane"] != "1" {
		switch chroma {
		case "1":
			ux, uy = 2, 2*fields
		case "2":
			ux = 2
		}
	}
	cx = lincomb(k0, ux, add(val(st, "FrameCropLeftOffset"), val(st, "FrameCropRightOffset")))
	cy = lincomb(k0, uy, add(val(st, "FrameCropTopOffset"), val(st, "FrameCropBottomOffset")))
	return
}

type mapAt struct {
	*MapC
	obj ObjID
}

// mapsOf returns contents of the maps of an object.
func (in *Interp) mapsOf(st *State, self Value) map[string]mapAt {
	r := map[string]mapAt{}
	p, ok := self.(VPtr)
	if !ok {
		return r
	}
	s, ok := under(in.objs[p.Obj].T).(*types.Struct)
	if !ok {
		return r
	}
	for i := 0; i < s.NumFields(); i++ {
		if _, ok := under(s.Field(i).Type()).(*types.Map); !ok {
			continue
		}
		r[s.Field(i).Name()] = mapAt{}
		if m, ok := in.get(st, self, s.Field(i).Name()).(VMap); ok {
			r[s.Field(i).Name()] = mapAt{in.mapContents(st, m), m.Obj}
		}
	}
	return r
}

// runC17 decides what becomes of the stored sets.
func runC17(x *ctx) {
	get := x.method("net/h264", "ParameterSets", "GetSPS")
	if get == nil {
		return
	}
	visible := func(s *syntax, typ, what, parse, getter, id string) {
		var before map[string]mapAt
		var in *Interp
		x.visit = func(w *walk, st *State) {
			in = w.in
			w.silent = true
			before = in.mapsOf(st, st.Ghost["self"])
			store := in.h.Store
			in.h.Store = func(st *State, ins *ssa.Store, p VPtr, v Value) {
				store(st, ins, p, v)
				if p.Obj != 0 && in.quiet == 0 && strings.HasPrefix(in.objs[p.Obj].Lazy, "earlier") {
					x.must(false, "changed@"+x.pos(ins.Pos()), "%s: a set that has been parsed earlier is changed", x.pos(ins.Pos()))
				}
			}
			call := in.h.Call
			in.h.Call = func(c *callCtx) ([]Outcome, bool) {
				for _, a := range c.args {
					if s, ok := a.(VSlice); ok && s.Obj != 0 && strings.HasPrefix(in.objs[s.Obj].Lazy, "earlier") && in.quiet == 0 {
						x.must(false, "changed@"+in.pos(c.ins), "%s: a set that has been parsed earlier is changed", in.pos(c.ins))
					}
				}
				return call(c)
			}
		}
		same := func(st *State, err bool) {
			after := in.mapsOf(st, st.Ghost["self"])
			x.must(len(after) == len(before) && len(after) >= 2, "maps", "the stores of parameter sets are not known")
			writes := 0
			for k, b := range before {
				a := after[k]
				if !x.must(a.MapC != nil && b.MapC != nil && a.obj == b.obj && a.Lazy == b.Lazy && a.Pat == nil && len(b.Over) == 0, "replaced@"+k, "parsing of %s: the sets in %s are lost", what, k) {
					continue
				}
				writes += len(a.Over)
				for _, o := range a.Over {
					if err {
						x.must(false, "stored@"+k, "%s is stored in or removed from %s though parsing returns an error", what, k)
						continue
					}
					e, ok := st.Ghost["e."+id].(VInt)
					if st.Mode["pc"] == "any" && !ok {
						continue
					}
					key, ok2 := o.Key.(VInt)
					x.must(ok && ok2 && st.isEq(key.L, e.L), "key@"+k, "%s changes the entry %s of %s, its id is %s", what, st.describe(o.Key), k, st.describe(st.Ghost["e."+id]))
					v, ok := o.Val.(VPtr)
					x.must(ok && st.notNil(v.Nil) && in.objs[v.Obj].Lazy == "", "value@"+k, "%s: what is stored is not the set that has been parsed", what)
				}
			}
			if err {
				x.count("error outcomes", 1)
				x.must(writes == 0, "visible", "%s is stored though parsing returns an error", what)
			} else {
				x.must(writes == 1, "invisible", "%s: %d entries are changed by a successful parse", what, writes)
				x.count("good outcomes", 1)
			}
		}
		x.visitOuts = func(good, bad []Outcome) {
			for _, o := range good {
				same(o.St, false)
			}
			for _, o := range bad {
				same(o.St, true)
			}
		}
		x.runSet(s, typ, what, parse, getter, id, nil, func(*walk, *State, Value) {})
		x.visit, x.visitOuts = nil, nil
	}
	visible(spsSyntax(x), "SPSInfo", "an SPS", "ParseSPS", "GetSPS", "SpsID")
	visible(ppsSyntax(x, get), "PPSInfo", "a PPS", "ParsePPS", "GetPPS", "PpsID")
}

func init() {
	register(&check{id: "C17", rule: "abstract interpretation of ParseSPS and ParsePPS on a store with arbitrary earlier sets; at each outcome with an error the maps are those of the start, at each other one exactly one entry has changed, keyed by the id that was read and holding a set made by this parse; no instruction on any path writes to a set of the start",
		min: map[string]int{"error outcomes": 20, "good outcomes": 8}, run: runC17})
}

// runC14 decides that parsers neither crash nor use resources out of proportion to the input.
func runC14(x *ctx) {
	const small = 4096 // what is taken for a constant amount of work or memory
	for _, m := range []string{"ParseSPS", "ParsePPS", "ParseSprop"} {
		fn := x.method("net/h264", "ParameterSets", m)
		if fn == nil {
			return
		}
		in := x.interp()
		total := konst(maxLen)
		read := func(c *callCtx, some bool, mk func() []Value) ([]Outcome, bool) {
			bad := c.st.clone()
			res := c.sig.Results()
			var fail []Value
			for i := 0; i < res.Len()-1; i++ {
				fail = append(fail, in.freshVal(bad, res.At(i).Type(), "junk"))
			}
			fail = append(fail, VIface{Nil: k0, ID: in.freshID("readerr")})
			if n, ok := c.st.Ghost["consumed"].(VInt); ok && some {
				c.st.setGhost("consumed", VInt{addK(n.L, 1)})
			}
			x.count("reads", 1)
			return []Outcome{{bad, fail}, {c.st, append(mk(), VIface{Nil: k1})}}, true
		}
		in.h.Call = func(c *callCtx) ([]Outcome, bool) {
			if c.fn == nil {
				return nil, false
			}
			name := c.fn.RelString(nil)
			if m == "ParseSprop" && (c.fn.Name() == "ParseSPS" || c.fn.Name() == "ParsePPS") {
				return read(c, false, func() []Value { return nil })
			}
			if name == modulePath+"/net/h264.EBSPToRaw" {
				v := in.freshVal(c.st, c.sig.Results().At(0).Type(), "raw")
				return []Outcome{{c.st, []Value{v}}}, true
			}
			if !strings.HasPrefix(name, "(*"+modulePath+"/net/h264.BitReader).") {
				return nil, false
			}
			num := func(t int, lo, hi int64) func() []Value {
				return func() []Value { return []Value{VInt{in.freshInt("read", lo, hi)}} }
			}
			switch c.fn.Name() {
			case "ReadBits", "ReadByteBits", "SkipBits":
				n, ok := c.args[1].(VInt)
				some := ok && c.st.isLe(k1, n.L)
				switch c.fn.Name() {
				case "SkipBits":
					return read(c, some, func() []Value { return nil })
				case "ReadByteBits":
					return read(c, some, num(0, 0, 255))
				}
				hi := int64(1<<32 - 1)
				for k := int64(0); k < 32; k++ {
					if ok && c.st.isLe(n.L, konst(k)) {
						hi = 1<<k - 1
						break
					}
				}
				return read(c, some, num(0, 0, hi))
			case "ReadFlag":
				return read(c, true, num(0, 0, 1))
			case "ReadUnsignedGolomb":
				return read(c, true, num(0, 0, 1<<32-2)) // as C13 shows
			case "ReadSignedGolomb":
				return read(c, true, num(0, -1<<31, 1<<31-1))
			case "SkipGolomb":
				return read(c, true, func() []Value { return nil })
			case "Available":
				a := in.freshInt("available", 0, maxLen)
				c.st.assumeLe(a, total)
				return []Outcome{{c.st, []Value{VInt{a}}}}, true
			case "MoreData":
				return []Outcome{{c.st, []Value{VInt{in.freshInt("more", 0, 1)}}}}, true
			}
			return nil, false
		}
		in.h.Instr = func(st *State, ins ssa.Instruction) {
			mk, ok := ins.(*ssa.MakeSlice)
			if !ok || in.quiet > 0 || !isModule(mk.Parent()) {
				return
			}
			n, ok := in.eval(st, mk.Cap).(VInt)
			x.count("allocations", 1)
			x.must(ok && st.isLe(n.L, addK(total, small)), "allocation@"+mk.Parent().Name(), "%s: %s elements are allocated, which the length of the input does not bound", x.pos(mk.Pos()), st.norm(n.L))
		}
		in.h.Loops = func(f *fnInfo, l *loop, runs []loopRun) {
			if !isModule(f.fn) {
				return
			}
			x.count("loops", 1)
			x.must(in.inProportion(runs, addK(total, small)), pf("work@%s loop %d", f.fn.Name(), l.head.Index),
				"%s: iterations of the loop are not bounded by the length of the input", in.loopPos(f, l))
		}
		x.guard(in, m, func() {
			for _, st := range x.sets(in) {
				args := in.lazyArgs(st, fn)
				args[0] = st.Ghost["self"]
				if b, ok := args[1].(VSlice); ok {
					total = lincomb(k0, 8, b.Len)
				}
				st.setGhost("consumed", intk(0))
				outs := in.callFn(st, fn, args, nil)
				x.count("outcomes", len(outs))
				x.must(len(outs) > 0, "outcome:"+m, "%s never returns", m)
			}
		})
		x.collect(in, nil)
	}
}

func init() {
	register(&check{id: "C14", rule: "abstract interpretation of ParseSPS, ParsePPS and ParseSprop on a store with arbitrary earlier sets, reads of the bit reader yield any value or an error; every index, slice, dereference, allocation and map operation on every path is proved safe; each loop either reads at least one bit in each iteration or counts within a bound of 8*len(input)+4096, and each allocation has at most that many elements",
		min: map[string]int{"reads": 60, "loops": 4}, run: runC14})
}
