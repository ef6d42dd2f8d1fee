package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&check{id: "C38", rule: "for every state of the playlist between calls (invariant found by fixpoint, any capacity) one AddSegment is interpreted: the window gains the next ring index and loses its first exactly when it is full, the segment at its end has the given duration and length and starts where the one before ended, no other segment changes; the text rendered after k additions to a ring of capacity c lists exactly the last min(k,c) segments in order, for all c up to 4 and k up to 2c+1 (values symbolic)",
		min: map[string]int{"transitions": 4, "renderings": 28}, run: runC38})
}

func runC38(x *ctx) {
	ctor, addSeg, render := x.fn("net/hls", "NewPlaylist"), x.method("net/hls", "Playlist", "AddSegment"), x.method("net/hls", "Playlist", "String")
	if ctor == nil || addSeg == nil || render == nil {
		return
	}
	in := x.interp()
	in.noPanics = true
	x.guard(in, "AddSegment", func() {
		heads := x.useObject(in, ctor, x.methods("net/hls", "Playlist"), nil)
		in.apart = 64
		for _, h := range heads {
			x.addSegment(in, h, addSeg)
		}
	})
	x.collect(in, func(o *Obligation) bool { return o.Rule == "analysable" })
	in = x.interp()
	in.noPanics = true
	in.unrolls = 40
	x.guard(in, "String", func() { x.renderings(in, ctor, addSeg, render) })
	x.collect(in, func(o *Obligation) bool { return o.Rule == "analysable" })
}

// addSegment checks what one addition does to a playlist.
func (x *ctx) addSegment(in *Interp, h *State, fn *ssa.Function) {
	self := h.Ghost["self"]
	num := func(st *State, f string) Lin {
		v, ok := in.get(st, self, f).(VInt)
		x.must(ok, "field "+f, "field %s of the playlist cannot be determined", f)
		return v.L
	}
	F, L := num(h, "First"), num(h, "Last")
	ring, ok := in.get(h, self, "Segments").(VSlice)
	if !x.must(ok, "field Segments", "the ring of the playlist cannot be determined") {
		return
	}
	n := ring.Len
	if a, ok := in.contents(h, ring.Obj).(*Arr); x.must(ok && len(ring.Path) == 0, "ring", "the ring of the playlist cannot be determined") && ok {
		// Any contents.
		h = h.clone()
		h.setHeap(ring.Obj, &Arr{Et: a.Et, S: []Seg{{Kind: SBase, ID: in.freshID("ring"), N: a.size()}}})
	}
	for _, c := range []struct {
		name   string
		assume func(st *State)
		w      Lin // size of the window
	}{
		{"empty", func(st *State) { st.assumeLt(F, k0) }, k0},
		{"in order", func(st *State) { st.assumeLe(k0, F); st.assumeLe(F, L) }, addK(sub(L, F), 1)},
		{"wrapped", func(st *State) { st.assumeLe(k0, F); st.assumeLt(L, F) }, addK(add(sub(L, F), n), 1)},
	} {
		for _, full := range []bool{false, true} {
			for _, turn := range []bool{false, true} {
				st := h.clone()
				c.assume(st)
				if c.name == "empty" && (full || turn) {
					continue
				}
				if full {
					st.assumeEq(c.w, n)
				} else {
					st.assumeLt(c.w, n)
				}
				next := addK(L, 1)
				if turn {
					st.assumeEq(next, n)
					next = k0
				} else {
					st.assumeLt(next, n)
				}
				if c.name == "empty" {
					next = L // any slot may be the first
				}
				if st.C.bot || !st.C.feasibleAll() {
					continue
				}
				args := in.lazyArgs(st, fn)
				args[0] = self
				dur, length := args[1], args[2].(VInt)
				st.assumeLe(k0, length.L)
				st.assumeLe(length.L, konst(1<<60))
				pos := k0
				if c.name != "empty" {
					last := in.elemAt(st, ring, L)
					p, ok1 := in.get(st, last, "Position").(VInt)
					l, ok2 := in.get(st, last, "Length").(VInt)
					x.must(ok1 && ok2, "last segment", "the last segment cannot be determined")
					pos = add(p.L, l.L)
					for _, v := range []Lin{p.L, l.L} {
						st.assumeLe(k0, v)
						st.assumeLe(v, konst(1<<60))
					}
				}
				// Any other slot.
				k := in.freshInt("other", 0, maxLen)
				st.assumeLt(k, n)
				for _, o := range in.callFn(st.clone(), fn, args, nil) {
					s := o.St
					x.count("transitions", 1)
					where := pf("window %s, full %v", c.name, full)
					f2, l2 := num(s, "First"), num(s, "Last")
					r2, ok := in.get(s, self, "Segments").(VSlice)
					x.must(ok && s.isEq(r2.Len, n), "ring size", "the size of the ring changes")
					if !ok {
						continue
					}
					if c.name == "empty" {
						x.must(s.isEq(f2, l2) && s.isLe(k0, f2), "window", "the first segment is not the only one (%s)", where)
						next = l2
					} else {
						x.must(s.isEq(l2, next), "last", "the last segment moves from %s to %s (%s)", s.norm(L), s.norm(l2), where)
						first := F
						if full {
							// F + 1 modulo n; the window is full when F is next to L.
							first = addK(next, 1)
							if s.isEq(first, n) {
								first = k0
							} else if !s.isLt(first, n) {
								a, b := s.clone(), s.clone()
								a.assumeEq(first, n)
								b.assumeLt(first, n)
								x.must(!(!a.C.bot && a.C.feasibleAll()) || a.isEq(f2, k0), "first", "the oldest segment is not dropped (%s)", where)
								x.must(b.isEq(f2, first), "first", "the oldest segment is not dropped (%s)", where)
								first = f2
							}
						}
						x.must(s.isEq(f2, first), "first", "the first segment moves from %s to %s (%s)", s.norm(F), s.norm(f2), where)
					}
					seg := in.elemAt(s, r2, next)
					p, ok1 := in.get(s, seg, "Position").(VInt)
					l, ok2 := in.get(s, seg, "Length").(VInt)
					x.must(ok1 && s.isEq(p.L, pos), "position", "the segment starts at %s, the one before ends at %s (%s)", s.norm(p.L), s.norm(pos), where)
					x.must(ok2 && s.isEq(l.L, length.L), "length", "the length of the segment is %s instead of %s (%s)", s.norm(l.L), s.norm(length.L), where)
					x.must(in.valKey(s, in.get(s, seg, "Duration")) == in.valKey(s, dur), "duration", "the duration of the segment is not the given one (%s)", where)
					for _, side := range []bool{true, false} {
						z := s.clone()
						if side {
							z.assumeLt(k, next)
						} else {
							z.assumeLt(next, k)
						}
						if z.C.bot || !z.C.feasibleAll() {
							continue
						}
						before := st.clone()
						same := true
						for _, f := range []string{"Position", "Length"} {
							a, ok1 := in.get(before, in.elemAt(before, ring, k), f).(VInt)
							b, ok2 := in.get(z, in.elemAt(z, r2, k), f).(VInt)
							same = same && ok1 && ok2 && z.isEq(a.L, b.L)
						}
						x.must(same, "others", "another segment changes (%s)", where)
					}
				}
			}
		}
	}
}

// renderings checks the text after some additions.
func (x *ctx) renderings(in *Interp, ctor, addSeg, render *ssa.Function) {
	for c := int64(1); c <= 4; c++ {
		st := in.enter()
		args := in.lazyArgs(st, ctor)
		nseg := -1
		for i, p := range ctor.Params {
			if _, ok := args[i].(VInt); ok && nseg < 0 && p.Type().String() == "int" {
				nseg = i
			}
		}
		if !x.must(nseg >= 0, "segment count", "NewPlaylist does not take a number of segments") {
			return
		}
		args[nseg] = intk(c)
		good, _ := in.splitErr(in.callFn(st, ctor, args, nil))
		x.must(len(good) > 0, "creation", "no playlist is created")
		for _, o := range good {
			type segment struct {
				dur       Value
				len, from Lin
			}
			var segs []segment
			states := []*State{o.St}
			end := k0
			for k := int64(0); k <= 2*c+1; k++ {
				if k > 0 {
					st0 := states[0]
					d := VFloat{ID: in.freshID("duration")}
					n := in.freshInt("length", 0, 1<<50)
					segs = append(segs, segment{d, n, end})
					end = add(end, n)
					var next []*State
					for _, s := range states {
						for _, r := range in.callFn(s, addSeg, []Value{o.Ret[0], d, VInt{n}}, nil) {
							next = append(next, r.St)
						}
					}
					_ = st0
					states = next
				}
				first := int64(len(segs)) - c
				if first < 0 {
					first = 0
				}
				var want []string
				for _, s := range segs[first:] {
					want = append(want, "EXTINF "+in.valKey(o.St, s.dur), "BYTERANGE "+s.len.key()+"@"+s.from.key())
				}
				x.must(len(states) > 0, "additions", "AddSegment does not return")
				for _, s := range states {
					recv := o.Ret[0]
					if p, ok := recv.(VPtr); ok && !isPtrType(render.Params[0].Type()) {
						recv = in.contents(s, p.Obj)
					}
					for _, r := range in.callFn(s.clone(), render, []Value{recv}, nil) {
						x.count("renderings", 1)
						got := in.playlistLines(r.St, r.Ret[0])
						x.must(strings.Join(got, "\n") == strings.Join(want, "\n"), pf("rendering of %d segments", k), "after %d additions to a playlist of %d segments it lists [%s] instead of [%s]", k, c, strings.Join(got, ", "), strings.Join(want, ", "))
					}
				}
			}
		}
	}
}

// playlistLines extracts segments from a rendered playlist.
func (in *Interp) playlistLines(st *State, v Value) []string {
	s, ok := v.(VStr)
	if !ok {
		return []string{"unknown"}
	}
	var b strings.Builder
	for _, g := range s.S {
		switch {
		case g.C != "":
			b.WriteString(g.C)
		case g.Kind == SFn && len(g.Args) > 0:
			b.WriteString("<" + in.valKey(st, g.Args[0]) + ">")
		default:
			b.WriteString("<?>")
		}
	}
	var r []string
	for _, l := range strings.Split(b.String(), "\n") {
		if d, ok := strings.CutPrefix(l, "#EXTINF:"); ok {
			d = strings.TrimSuffix(strings.TrimSuffix(strings.TrimPrefix(d, "<"), ","), ">")
			r = append(r, "EXTINF "+d)
		}
		if d, ok := strings.CutPrefix(l, "#EXT-X-BYTERANGE:"); ok {
			r = append(r, "BYTERANGE "+strings.NewReplacer("<", "", ">", "").Replace(d))
		}
	}
	return r
}
