package main

import "golang.org/x/tools/go/ssa"

func init() {
	register(&check{id: "C01", rule: "every index, slice, dereference, conversion and allocation on every path of the RTP and RTCP decoders is within bounds for every input (abstract interpretation of SSA with a relational numeric domain)",
		run: func(x *ctx) {
			for _, p := range []string{"net/rtp", "net/rtcp"} {
				x.noPanicFn(x.fn(p, "Unpack"))
				for _, m := range x.methods(p, "Packet") {
					if len(m.Params) == 1 && m.Signature.Results().Len() == 1 && m.Name() != "Pack" {
						x.noPanicFn(m)
					}
				}
			}
		}})
	register(&check{id: "C09", rule: "as C01, for the Annex B splitter and both emulation conversions",
		run: func(x *ctx) {
			for _, n := range []string{"SplitAnnexB", "EBSPToRaw", "RBSPToEncapsulated"} {
				x.noPanicFn(x.fn("net/h264", n))
			}
		}})
}

// noPanicFn checks a function with arbitrary arguments (pointers to receivers are not nil).
func (x *ctx) noPanicFn(fn *ssa.Function) {
	if fn == nil {
		return
	}
	in := x.interp()
	x.terminates(in)
	x.noPanicIn(in, fn, nil)
	x.collect(in, nil)
}

// noPanicIn interprets a function with arbitrary arguments.
func (x *ctx) noPanicIn(in *Interp, fn *ssa.Function, assume func(st *State, args []Value)) {
	x.guard(in, fn.String(), func() {
		st := in.enter()
		args := in.lazyArgs(st, fn)
		if fn.Signature.Recv() != nil {
			if p, ok := args[0].(VPtr); ok {
				st.assumeEq(p.Nil, k0)
			}
		}
		if assume != nil {
			assume(st, args)
		}
		outs := in.callFn(st, fn, args, nil)
		x.count("entry points", 1)
		x.count("outcomes", len(outs))
		if len(outs) == 0 {
			x.must(false, "no outcome:"+fn.String(), "%s: no path returns", fn)
		}
	})
}

func init() {
	register(&check{id: "C11", rule: "as C01, for a bit reader from its constructor through any sequence of its exported methods with any arguments (invariant of the reader inferred by fixpoint); the number of available bits is within the buffer in every state of that invariant; every loop has a ranking expression or reads at least one bit in each iteration",
		min: map[string]int{"methods": 8, "states with available bits": 1},
		run: runC11})
	register(&check{id: "C37", rule: "as C01, for a playlist from its constructor through any sequence of its exported methods with any arguments (invariant inferred by fixpoint); every loop has a ranking expression",
		run: func(x *ctx) {
			in := x.interp()
			x.terminates(in)
			x.guard(in, "Playlist", func() {
				x.useObject(in, x.fn("net/hls", "NewPlaylist"), x.methods("net/hls", "Playlist"), nil)
			})
			x.collect(in, nil)
		}})
	register(&check{id: "C19", rule: "as C01, for the SDP parser with an arbitrary body; every loop has a ranking expression",
		run: func(x *ctx) {
			x.noPanicFn(x.fn("net/sdp", "Parse"))
		}})
}

// readerInvariant infers what holds for a bit reader between calls of its methods.
func (x *ctx) readerInvariant(in *Interp) (heads []*State, buf func(st *State) Lin) {
	ctor := x.fn("net/h264", "NewBitReader")
	if ctor == nil {
		return
	}
	heads = x.useObject(in, ctor, x.methods("net/h264", "BitReader"), nil)
	buf = func(st *State) Lin {
		return symL(tab.named(pf("%s.0:%s.len", ctor.Name(), ctor.Params[0].Name()), 0, maxLen, nil))
	}
	return
}

// countBits accounts for bits that successful reads consume.
func (x *ctx) countBits(in *Interp) {
	reads := map[*ssa.Function]bool{}
	for _, n := range []string{"ReadBits", "SkipBits"} {
		if f := x.method("net/h264", "BitReader", n); f != nil {
			reads[f] = true
		}
	}
	in.h.After = func(fn *ssa.Function, args []Value, outs []Outcome) {
		if !reads[fn] {
			return
		}
		for _, o := range outs {
			n, ok2 := args[1].(VInt)
			c, ok3 := o.St.Ghost["consumed"].(VInt)
			if ok2 && ok3 && in.isErr(o) == 0 {
				o.St.setGhost("consumed", VInt{add(c.L, n.L)})
			}
		}
	}
}

func runC11(x *ctx) {
	av := x.method("net/h264", "BitReader", "Available")
	if av == nil {
		return
	}
	in := x.interp()
	x.terminates(in)
	x.countBits(in)
	x.guard(in, "BitReader", func() {
		heads, buf := x.readerInvariant(in)
		for _, h := range heads {
			for _, o := range in.callM(h.clone(), av, h.Ghost["self"]) {
				x.count("states with available bits", 1)
				n, ok := o.Ret[0].(VInt)
				x.must(ok && o.St.isLe(k0, n.L) && o.St.isLe(n.L, lincomb(k0, 8, buf(o.St))), "available",
					"the number of available bits %s may be outside of the buffer", o.St.describe(o.Ret[0]))
			}
		}
	})
	x.collect(in, nil)
}
