package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The sink is analysed with structured payloads: sizes, headers, offsets and contents are symbolic, their order is
// given.  Removal of emulation prevention bytes is an uninterpreted function of bytes and the start code splitter
// delivers a list of units; C43 and C48 decide what these do.

func init() {
	register(&check{id: "C04", rule: "as C01, for a NAL sink from its constructor through any sequence of pushes (invariant of the sink inferred by fixpoint); removal of emulation prevention bytes is analysed for any bytes and then stands for any result",
		run: runC04})
	register(&check{id: "C08", rule: "ownership of memory: in every state of the inferred invariant of the sink, nothing reachable from the sink after a push is (or shares an array with) the payload; no result of a conversion or of the splitter reaches memory of its argument",
		min: map[string]int{"pushes": 1, "conversions": 3}, run: runC08})
	register(&check{id: "C05", rule: "abstract interpretation of a push of each kind of aggregation packet with up to four units of symbolic size, offsets and contents, after each listed history; each field of each unit equals the expression or bytes of RFC 6184 5.7",
		min: map[string]int{"payloads": 60, "units": 150}, run: runC05})
	register(&check{id: "C06", rule: "abstract interpretation of each sequence of up to four pushes of start, middle, end and unfragmented fragments with symbolic contents, single units and broken fragments; after each push the units equal those of the automaton of RFC 6184 5.8",
		min: map[string]int{"sequences": 500}, run: runC06})
	register(&check{id: "C07", rule: "abstract interpretation of a push of a payload that the splitter divides into up to four units with symbolic headers and contents, and of each type of single unit, after each listed history; the list of units equals exactly these units in order",
		min: map[string]int{"payloads": 100}, run: runC07})
}

const nalPkg = "net/h264"

const anySingle = -1 // any type of a single unit but the last two

var (
	byteT = types.Typ[types.Byte]
)

// anyRaw replaces removal of emulation prevention bytes by any result.
func (x *ctx) anyRaw(in *Interp) func(c *callCtx) ([]Outcome, bool) {
	return func(c *callCtx) ([]Outcome, bool) {
		if c.fn == nil || c.fn.RelString(nil) != modulePath+"/"+nalPkg+".EBSPToRaw" || len(c.args) != 1 {
			return nil, false
		}
		n := in.freshInt("raw", 0, maxLen)
		return one(c.st, in.newSlice(c.st, byteT, []Seg{{Kind: SBase, ID: in.freshID("bytes"), Off: k0, N: n}}, c.ins)), true
	}
}

func runC04(x *ctx) {
	x.noPanicFn(x.fn(nalPkg, "EBSPToRaw"))
	in := x.interp()
	x.terminates(in)
	in.h.Call = x.anyRaw(in)
	x.guard(in, "NALSink", func() {
		x.useObject(in, x.fn(nalPkg, "NewNALSink"), []*ssa.Function{x.method(nalPkg, "NALSink", "Push")}, nil)
	})
	x.collect(in, nil)
}

// reaches tells whether a value leads to memory that a test is true for.
func (in *Interp) reaches(st *State, v Value, test func(o ObjID) bool) bool {
	seen := map[ObjID]bool{}
	in.reachVal(st, v, seen)
	for o := range seen {
		if test(o) {
			return true
		}
	}
	return false
}

func runC08(x *ctx) {
	for _, n := range []string{"EBSPToRaw", "RBSPToEncapsulated", "SplitAnnexB"} {
		fn := x.fn(nalPkg, n)
		if fn == nil {
			continue
		}
		in := x.interp()
		in.noPanics = true
		x.guard(in, n, func() {
			st := in.enter()
			arg, ok := in.arg(st, fn.Params[0].Type(), transient+n).(VSlice)
			if !x.must(ok, n, "%s does not take a slice", n) {
				return
			}
			x.count("conversions", 1)
			if n == "SplitAnnexB" {
				in.h.Call = x.anyRaw(in)
			}
			st.assumeEq(arg.Nil, k0)
			for _, o := range in.callFn(st, fn, []Value{arg}, nil) {
				x.must(!in.reaches(o.St, o.Ret[0], in.isArg), n, "the result of %s shares memory with its argument", n)
			}
		})
		x.collect(in, nil)
	}
	in := x.interp()
	in.noPanics = true
	in.h.Call = x.anyRaw(in)
	x.guard(in, "NALSink", func() {
		x.useObject(in, x.fn(nalPkg, "NewNALSink"), []*ssa.Function{x.method(nalPkg, "NALSink", "Push")}, func(st *State, m *ssa.Function, ret []Value) {
			if in.quiet > 0 {
				return
			}
			x.count("pushes", 1)
			x.must(!in.reaches(st, st.Ghost["self"], in.isArg), "Push", "the sink refers to memory of a payload after the push")
		})
	})
	x.collect(in, nil)
}

// nal is a run of the sink.
type nal struct {
	x    *ctx
	in   *Interp
	ctor *ssa.Function
	push *ssa.Function
	n    int
}

// nalState is a state of the sink together with what is expected to be pending.
type nalState struct {
	st      *State
	self    Value
	pending [][]Seg // contents of fragments, nil if there is no start
	don     Lin     // order number of the pending start
	hasDon  bool
	name    string
}

// nalUnit is an expected unit.
type nalUnit struct {
	header  Lin
	data    []Seg
	ts, don Lin
	hasDon  bool
}

func (x *ctx) sink() *nal {
	s := &nal{x: x, in: x.interp(), ctor: x.fn(nalPkg, "NewNALSink"), push: x.method(nalPkg, "NALSink", "Push")}
	if s.ctor == nil || s.push == nil {
		return nil
	}
	in := s.in
	in.noPanics = true
	in.unrolls = 40
	in.apart = 64
	in.h.Call = func(c *callCtx) ([]Outcome, bool) {
		if c.fn == nil || len(c.args) != 1 {
			return nil, false
		}
		src, ok := c.args[0].(VSlice)
		if !ok {
			return nil, false
		}
		switch c.fn.RelString(nil) {
		case modulePath + "/" + nalPkg + ".EBSPToRaw":
			return one(c.st, in.newSlice(c.st, byteT, s.raw(c.st, in.window(c.st, src)), c.ins)), true
		case modulePath + "/" + nalPkg + ".SplitAnnexB":
			want, ok := c.st.Ghost["payload"].(VSlice)
			if !ok || !c.st.isEq(src.Len, want.Len) || in.segsKey(c.st, in.window(c.st, src)) != in.segsKey(c.st, in.window(c.st, want)) {
				x.must(false, "split", "the splitter is given something else than the payload")
				return nil, false
			}
			if l, ok := c.st.Ghost["units"].(VSlice); ok {
				return one(c.st, l), true
			}
		}
		return nil, false
	}
	return s
}

// raw is the text without emulation prevention bytes.
func (s *nal) raw(st *State, segs []Seg) []Seg {
	n := segsLen(segs)
	if st.isEq(n, k0) {
		return nil
	}
	return s.in.fnStr(st, "raw", k0, n, VStr{segs}).S
}

func (s *nal) bytes(vals ...Lin) []Seg {
	var v []Value
	for _, l := range vals {
		v = append(v, VInt{l})
	}
	return []Seg{{Kind: SVals, N: konst(int64(len(v))), Vals: v}}
}

func (s *nal) byte(name string) Lin { return s.in.freshInt(name, 0, 255) }

// data is a text of n symbolic bytes.
func (s *nal) data(n Lin) []Seg {
	return []Seg{{Kind: SBase, ID: s.in.freshID("contents"), Off: k0, N: n}}
}

func join(parts ...[]Seg) []Seg {
	var r []Seg
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

// header is a NAL header of a type with symbolic other bits; the type is symbolic if it is anySingle.
func (s *nal) header(typ int64) Lin {
	if typ == anySingle {
		return add(lincomb(k0, 32, s.in.freshInt("nri", 0, 7)), s.in.freshInt("type", 0, 23))
	}
	return addK(lincomb(k0, 32, s.in.freshInt("nri", 0, 7)), typ)
}

// fresh creates a sink.
func (s *nal) fresh() []nalState {
	var r []nalState
	st := s.in.enter()
	for _, o := range s.in.callFn(st, s.ctor, s.in.lazyArgs(st, s.ctor), nil) {
		r = append(r, nalState{st: o.St, self: o.Ret[0], name: "new sink"})
	}
	s.x.must(len(r) > 0, "constructor", "NewNALSink does not return")
	return r
}

// give pushes a payload; split are the units that the splitter makes of it.
func (s *nal) give(p nalState, payload []Seg, ts Lin, split [][]Seg) []Outcome {
	in, st := s.in, p.st.clone()
	buf := in.newSlice(st, byteT, payload, nil)
	if len(split) > 0 {
		var v []Value
		for _, u := range split {
			v = append(v, in.newSlice(st, byteT, u, nil))
		}
		st.setGhost("units", in.newSlice(st, types.NewSlice(byteT), []Seg{{Kind: SVals, N: konst(int64(len(v))), Vals: v}}, nil))
	}
	st.setGhost("payload", buf)
	outs := in.callM(st, s.push, p.self, buf, VInt{ts})
	for _, o := range outs {
		o.St.setGhost("payload", nil)
		o.St.setGhost("units", nil)
	}
	return outs
}

// units compares the units of the sink.
func (s *nal) units(st *State, self Value, want []nalUnit, key, what string) bool {
	in, x := s.in, s.x
	list, ok := in.get(st, self, "Units").(VSlice)
	if !x.must(ok, key+":list", "the list of units is unknown (%s)", what) {
		return false
	}
	n := list.Len
	if st.isNil(list.Nil) {
		n = k0
	}
	if !x.must(st.isEq(n, konst(int64(len(want)))), key+":number", "the sink holds %s units instead of %d (%s)", st.norm(n), len(want), what) {
		return false
	}
	for i, w := range want {
		u := in.expand(st, in.elemAt(st, list, konst(int64(i))))
		x.count("units", 1)
		h, ok := in.get(st, u, "Header").(VInt)
		x.must(ok && st.isEq(h.L, w.header), key+":header", "the header of unit %d is %s instead of %s (%s)", i, st.describe(h), st.norm(w.header), what)
		d, ok := in.get(st, u, "Data").(VSlice)
		if x.must(ok, key+":data", "data of unit %d are unknown (%s)", i, what) {
			got := in.window(st, d)
			x.must(in.sameVal(st, VStr{got}, VStr{w.data}) || in.segsKey(st, got) == in.segsKey(st, w.data), key+":data", "data of unit %d are %s instead of %s (%s)", i, st.segsString(got), st.segsString(w.data), what)
		}
		if len(w.ts.T) > 0 {
			t, ok := in.get(st, u, "TS").(VInt)
			x.must(ok && st.isEq(t.L, in.modulo(st, w.ts, 32, false)), key+":time", "timestamp of unit %d is %s instead of %s (%s)", i, st.describe(t), st.norm(w.ts), what)
		}
		if w.hasDon {
			t, ok := in.get(st, u, "Don").(VInt)
			x.must(ok && st.isEq(t.L, in.modulo(st, w.don, 16, false)), key+":order", "decoding order number of unit %d is %s instead of %s (%s)", i, st.describe(t), st.norm(w.don), what)
		}
	}
	return true
}

// ok pushes a payload that must be accepted.
func (s *nal) accept(p nalState, payload []Seg, ts Lin, split [][]Seg, want []nalUnit, key, name string) []nalState {
	var r []nalState
	outs := s.give(p, payload, ts, split)
	what := p.name + ", " + name
	s.x.must(len(outs) > 0, key+":returns", "push does not return (%s)", what)
	for _, o := range outs {
		if !s.x.must(s.in.isErr(o) == 0, key+":accepted", "a payload is refused (%s)", what) {
			continue
		}
		if s.units(o.St, p.self, want, key, what) {
			r = append(r, nalState{st: o.St, self: p.self, pending: p.pending, don: p.don, hasDon: p.hasDon, name: what})
		}
	}
	return r
}

func (s *nal) ts() Lin { return s.in.freshInt("ts", 0, 1<<32-1) }

// single is a payload with a single unit of a type.
func (s *nal) single(p nalState, typ int64, key string) []nalState {
	h, ts := s.header(typ), s.ts()
	st := p.st
	n := s.in.freshInt("size", 0, 1<<20)
	d := s.data(n)
	// The splitter leaves it in one piece.
	raw := s.data(s.in.freshInt("raw", 0, 1<<20))
	p.st = st
	return s.accept(p, join(s.bytes(h), d), ts, [][]Seg{join(s.bytes(h), raw)}, []nalUnit{{header: h, data: raw, ts: ts}}, key, pf("unit of type %d", typ))
}

// annexB is a payload that consists of units with start codes.
func (s *nal) annexB(p nalState, typs []int64, key string) []nalState {
	ts := s.ts()
	var split [][]Seg
	var want []nalUnit
	for _, t := range typs {
		h := s.header(t)
		d := s.data(s.in.freshInt("raw", 0, 1<<20))
		split = append(split, join(s.bytes(h), d))
		want = append(want, nalUnit{header: h, data: d, ts: ts})
	}
	payload := join(s.bytes(k0, k0, k0, k1), s.data(s.in.freshInt("size", 1, 1<<20)))
	return s.accept(p, payload, ts, split, want, key, pf("%d units with start codes", len(typs)))
}

// aggregate makes an aggregation packet of n units; if cut, the last unit is not complete.
func (s *nal) aggregate(st *State, typ int64, n int, ts Lin, cut bool) ([]Seg, []nalUnit) {
	in := s.in
	payload := s.bytes(s.header(typ))
	var want []nalUnit
	base := k0
	if typ != 24 {
		a, b := s.byte("don"), s.byte("don")
		payload = join(payload, s.bytes(a, b))
		base = lincomb(b, 256, a)
	}
	for i := 0; i < n; i++ {
		hi, lo := s.byte("size"), s.byte("size")
		size := lincomb(lo, 256, hi)
		st.assumeLe(k1, size)
		u := nalUnit{ts: ts, don: base, hasDon: typ != 24}
		payload = join(payload, s.bytes(hi, lo))
		switch typ {
		case 25:
			u.don = addK(base, int64(i))
		case 26, 27:
			d, t := s.byte("dond"), s.byte("offset")
			payload = join(payload, s.bytes(d, t))
			u.don = add(base, d)
			for k := int64(26); k <= typ; k++ {
				t2 := s.byte("offset")
				payload = join(payload, s.bytes(t2))
				t = lincomb(t2, 256, t)
			}
			u.ts = add(ts, t)
		}
		u.header = s.byte("header")
		rest := addK(size, -1)
		if cut && i == n-1 {
			m := in.freshInt("rest", 0, 65535)
			st.assumeLt(m, size)
			payload = join(payload, s.data(m))
			break
		}
		d := s.data(rest)
		u.data = s.raw(st, d)
		payload = join(payload, s.bytes(u.header), d)
		want = append(want, u)
	}
	return payload, want
}

// fragment makes a fragment.
func (s *nal) fragment(typ, flags int64) (payload, data []Seg, header, don Lin) {
	nri, t := s.in.freshInt("nri", 0, 7), s.in.freshInt("type", 0, 31)
	payload = s.bytes(addK(lincomb(k0, 32, nri), typ), addK(t, flags))
	if typ == 29 {
		hi, lo := s.byte("don"), s.byte("don")
		payload, don = join(payload, s.bytes(hi, lo)), lincomb(lo, 256, hi)
	}
	data = s.data(s.in.freshInt("size", 0, 65535))
	return join(payload, data), data, lincomb(t, 32, nri), don
}

// histories are states of the sink before a payload.
func (s *nal) histories() []nalState {
	var r []nalState
	for _, p := range s.fresh() {
		r = append(r, p)
		r = append(r, s.single(p, 5, "history")...)
		r = append(r, s.annexB(p, []int64{7, 8, 5}, "history")...)
		payload, _, _, _ := s.fragment(28, 0x80)
		for _, q := range s.accept(p, payload, s.ts(), nil, nil, "history", "start of a fragmented unit") {
			r = append(r, q)
		}
		q := p
		q.st = p.st.clone()
		ts := s.ts()
		payload, want := s.aggregate(q.st, 26, 2, ts, false)
		r = append(r, s.accept(q, payload, ts, nil, want, "history", "aggregation packet")...)
	}
	return r
}

func runC05(x *ctx) {
	s := x.sink()
	if s == nil {
		return
	}
	names := map[int64]string{24: "STAP-A", 25: "STAP-B", 26: "MTAP16", 27: "MTAP24"}
	x.guard(s.in, "aggregation", func() {
		for _, p := range s.histories() {
			for typ := int64(24); typ <= 27; typ++ {
				for n := 1; n <= 4; n++ {
					q := p
					q.st = p.st.clone()
					ts := s.ts()
					payload, want := s.aggregate(q.st, typ, n, ts, false)
					x.count("payloads", 1)
					s.accept(q, payload, ts, nil, want, names[typ], pf("%s with %d units", names[typ], n))
					q.st = p.st.clone()
					payload, _ = s.aggregate(q.st, typ, n, ts, true)
					for _, o := range s.give(q, payload, ts, nil) {
						x.must(s.in.isErr(o) == 1, names[typ]+":cut", "%s whose last of %d units is cut off is accepted", names[typ], n)
					}
				}
			}
		}
	})
	x.collect(s.in, nil)
}

func runC07(x *ctx) {
	s := x.sink()
	if s == nil {
		return
	}
	x.guard(s.in, "units", func() {
		for _, p := range s.histories() {
			for t := int64(0); t < 32; t++ {
				if t < 24 || t > 29 {
					x.count("payloads", 1)
					s.single(p, t, "single unit")
				}
			}
			for _, typs := range [][]int64{{1}, {7, 8}, {9, 7, 8}, {7, 8, 6, 5}, {anySingle}, {anySingle, anySingle}, {anySingle, anySingle, anySingle}, {anySingle, 30, anySingle, 31, anySingle}} {
				x.count("payloads", 1)
				for _, q := range s.annexB(p, typs, "units with start codes") {
					s.single(q, 1, "unit after units with start codes")
				}
			}
		}
	})
	x.collect(s.in, nil)
}

func runC06(x *ctx) {
	s := x.sink()
	if s == nil {
		return
	}
	in := s.in
	type kind struct {
		name       string
		typ, flags int64
	}
	kinds := []kind{{"start", 28, 0x80}, {"middle", 28, 0}, {"end", 28, 0x40}, {"start of FU-B", 29, 0x80}, {"end of FU-B", 29, 0x40}, {"whole unit", 28, 0xc0}, {"reserved middle", 28, 0x20}}
	var visit func(p nalState, depth int)
	visit = func(p nalState, depth int) {
		x.count("sequences", 1)
		if depth == 0 {
			return
		}
		for _, k := range kinds {
			payload, data, header, don := s.fragment(k.typ, k.flags)
			q := p
			var want []nalUnit
			if k.flags&0x80 != 0 {
				q.pending, q.don, q.hasDon = [][]Seg{data}, don, k.typ == 29
			} else if p.pending != nil {
				q.pending = append(append([][]Seg(nil), p.pending...), data)
			}
			q.st = p.st.clone()
			ts := s.ts()
			if k.flags&0x40 != 0 && q.pending != nil {
				all := k0
				var segs []Seg
				for _, f := range q.pending {
					segs = in.concat(q.st, segs, f)
					all = add(all, segsLen(f))
				}
				q.st.assumeLe(k1, all)
				want = []nalUnit{{header: header, data: s.raw(q.st, segs), ts: ts, don: q.don, hasDon: q.hasDon}}
				q.pending = nil
			}
			for _, r := range s.accept(q, payload, ts, nil, want, "fragments", k.name) {
				visit(r, depth-1)
			}
		}
		for _, r := range s.single(p, 1, "fragments") {
			visit(r, depth-1)
		}
		// A fragment without its headers.
		if depth > 1 {
			for _, o := range s.give(p, s.bytes(s.header(29), s.byte("header"), s.byte("don")), s.ts(), nil) {
				x.must(in.isErr(o) == 1, "fragments:short", "a fragment that is too short is accepted")
				q := p
				q.st, q.name = o.St, p.name+", short fragment"
				visit(q, depth-1)
			}
		}
	}
	x.guard(in, "fragments", func() {
		for _, p := range s.fresh() {
			visit(p, 5)
		}
	})
	x.collect(in, nil)
}
