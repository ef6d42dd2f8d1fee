package main

import "golang.org/x/tools/go/ssa"

// The bit reader is analysed in every state of the invariant that C11 infers.  Small fields of the reader are split
// by value, and its position, which is defined by the number of available bits, is 8*at+off with a known off.
// Loops on numbers of bits are then decided, and a value that is read is a sum of bits of the buffer.

func init() {
	register(&check{id: "C12", rule: "in every state of the inferred invariant of the bit reader, for each offset in a byte and each number of bits: a read of available bits returns the sum of exactly the next bits of the buffer (compared as linear forms over bits) and consumes as many, a skip consumes as many, and a read or skip that is refused consumes nothing and happens only if there are not enough bits",
		min: map[string]int{"positions in a byte": 8, "reads": 8 * 33, "skips": 8 * 33},
		run: runC12})
	register(&check{id: "C13", rule: "in every state of the inferred invariant of the bit reader, for each offset in a byte and each number of leading zeros: the value of an Exp-Golomb code is the linear form over its bits that H.264 9.1 defines, a code consumes exactly its bits, and a code that does not fit into the rest of the buffer is refused",
		min: map[string]int{"positions in a byte": 8, "codes": 8 * 32},
		run: runC13})
}

// readerAt is a state of the bit reader at a known offset in a byte.
type readerAt struct {
	st    *State
	self  Value
	at    Lin // number of bytes before
	off   int64
	avail Lin
	size  Lin
	buf   VSlice
	bits  map[int64]Lin
}

// bit returns a bit of the buffer after the position.
func (p *readerAt) bit(in *Interp, i int64) Lin {
	n := (p.off + i) / 8
	k := 7 - (p.off+i)%8
	if b, ok := p.bits[n*8+k]; ok {
		return b
	}
	a, ok := in.load(p.st, p.buf.Obj, p.buf.Path).(*Arr)
	if !ok {
		in.giveUp(p.st, "buffer of the bit reader is unknown")
		return k0
	}
	v, ok := in.elem(p.st, a, add(p.buf.Off, addK(p.at, n))).(VInt)
	if ok {
		if bl, w, ok := in.bitsOf(p.st, v.L); ok {
			for j := int64(0); j < 8; j++ {
				b := k0
				if int(j) < w {
					b = bl[j]
				}
				p.bits[n*8+j] = b
			}
			return p.bits[n*8+k]
		}
	}
	in.giveUp(p.st, "a byte of the buffer has no bits")
	return k0
}

// value is the sum of n bits after i.
func (p *readerAt) value(in *Interp, i, n int64) Lin {
	r := k0
	for j := int64(0); j < n; j++ {
		r = lincomb(r, 1<<(n-1-j), p.bit(in, i+j))
	}
	return r
}

func (p *readerAt) fork() *readerAt {
	q := *p
	q.st = p.st.clone()
	q.bits = map[int64]Lin{}
	for k, v := range p.bits {
		q.bits[k] = v
	}
	return &q
}

// splitSmall distinguishes the values of small fields of an object.
func (in *Interp) splitSmall(st *State, self Value) []*State {
	p, ok := self.(VPtr)
	if !ok {
		return []*State{st}
	}
	res := []*State{st}
	s, ok := in.contents(st, p.Obj).(VStruct)
	if !ok {
		return res
	}
	for _, f := range s.F {
		n, ok := f.(VInt)
		if !ok {
			continue
		}
		var next []*State
		for _, t := range res {
			lo, hi := t.C.bounds(n.L)
			if lo == negInf || hi == posInf || hi-lo > 64 {
				next = append(next, t)
				continue
			}
			for k := lo; k <= hi; k++ {
				u := t.clone()
				u.assumeEq(n.L, konst(k))
				if !u.C.bot {
					next = append(next, u)
				}
			}
		}
		res = next
	}
	return res
}

// readerStates returns the states of the reader at each offset in a byte.
func (x *ctx) readerStates(in *Interp) []*readerAt {
	ctor, av := x.fn("net/h264", "NewBitReader"), x.method("net/h264", "BitReader", "Available")
	if ctor == nil || av == nil {
		return nil
	}
	var res []*readerAt
	offs := map[int64]bool{}
	heads, size := x.readerInvariant(in)
	for _, h := range heads {
		self := h.Ghost["self"]
		buf, ok := in.expand(h, in.lazyArgs(h, ctor)[0]).(VSlice)
		if !x.must(ok, "buffer", "the buffer of the reader is unknown") {
			return nil
		}
		for _, s := range in.splitSmall(h.clone(), self) {
			for off := int64(0); off < 8; off++ {
				for _, o := range in.callM(s.clone(), av, self) {
					n, ok := o.Ret[0].(VInt)
					if !ok {
						continue
					}
					at := in.freshInt("at", 0, maxLen)
					o.St.assumeEq(n.L, addK(lincomb(lincomb(k0, 8, size(o.St)), -8, at), -off))
					if !o.St.C.bot {
						offs[off] = true
						res = append(res, &readerAt{st: o.St, self: self, at: at, off: off, avail: n.L, size: size(o.St), buf: buf, bits: map[int64]Lin{}})
					}
				}
			}
		}
	}
	x.count("states", len(res))
	x.count("positions in a byte", len(offs))
	return res
}

// left returns the number of available bits after an operation.
func (x *ctx) left(in *Interp, av *ssa.Function, st *State, self Value) (Lin, *State) {
	outs := in.callM(st, av, self)
	if len(outs) == 1 {
		if n, ok := outs[0].Ret[0].(VInt); ok {
			return n.L, outs[0].St
		}
	}
	in.giveUp(st, "the number of available bits is ambiguous")
	return k0, st
}

// reads checks that an operation of n bits returns the bits and moves by as many.
func (x *ctx) reads(in *Interp, p *readerAt, m, av *ssa.Function, n int64, args ...Value) {
	name := m.Name()
	for _, enough := range []bool{true, false} {
		q := p.fork()
		if enough {
			q.st.assumeLe(konst(n), q.avail)
		} else {
			q.st.assumeLt(q.avail, konst(n))
		}
		if q.st.C.bot {
			continue
		}
		outs := in.callM(q.st, m, q.self, args...)
		if len(outs) == 0 {
			x.must(false, name+":none", "%s of %d bits at offset %d does not return", name, n, q.off)
		}
		for _, o := range outs {
			r := *q
			r.st = o.St
			left, st := x.left(in, av, o.St, r.self)
			r.st = st
			if !enough {
				x.must(in.isErr(o) == 1, name+":beyond", "%s of %d bits at offset %d succeeds with less bits available", name, n, q.off)
				x.must(st.isEq(left, q.avail), name+":refused", "%s of %d bits at offset %d fails and leaves %s bits of %s", name, n, q.off, st.describe(VInt{left}), st.describe(VInt{q.avail}))
				continue
			}
			if !x.must(in.isErr(o) == 0, name+":enough", "%s of %d bits at offset %d fails although they are available", name, n, q.off) {
				continue
			}
			x.must(st.isEq(left, addK(q.avail, -n)), name+":moves", "%s of %d bits at offset %d leaves %s bits of %s", name, n, q.off, st.describe(VInt{left}), st.describe(VInt{q.avail}))
			if len(o.Ret) > 1 {
				v, ok := o.Ret[0].(VInt)
				want := r.value(in, 0, n)
				x.must(ok && st.isEq(v.L, want), name+":value", "%s of %d bits at offset %d returns %s instead of %s", name, n, q.off, st.describe(o.Ret[0]), st.describe(VInt{want}))
			}
		}
	}
}

func runC12(x *ctx) {
	const typ = "BitReader"
	av := x.method("net/h264", typ, "Available")
	read, skip := x.method("net/h264", typ, "ReadBits"), x.method("net/h264", typ, "SkipBits")
	short, flag := x.method("net/h264", typ, "ReadByteBits"), x.method("net/h264", typ, "ReadFlag")
	if av == nil || read == nil || skip == nil || short == nil || flag == nil {
		return
	}
	in := x.interp()
	in.noPanics = true
	in.unrolls = 72
	x.guard(in, typ, func() {
		for _, p := range x.readerStates(in) {
			for n := int64(0); n <= 32; n++ {
				x.reads(in, p, read, av, n, intk(n))
				x.count("reads", 1)
				x.reads(in, p, skip, av, n, intk(n))
				x.count("skips", 1)
				if n <= 8 {
					x.reads(in, p, short, av, n, intk(n))
					x.count("reads", 1)
				}
			}
			x.reads(in, p, flag, av, 1)
			x.count("reads", 1)
		}
	})
	x.collect(in, nil)
}

func runC13(x *ctx) {
	const typ = "BitReader"
	av := x.method("net/h264", typ, "Available")
	ue, se, skip := x.method("net/h264", typ, "ReadUnsignedGolomb"), x.method("net/h264", typ, "ReadSignedGolomb"), x.method("net/h264", typ, "SkipGolomb")
	if av == nil || ue == nil || se == nil || skip == nil {
		return
	}
	in := x.interp()
	in.noPanics = true
	in.unrolls = 72
	x.guard(in, typ, func() {
		for _, p := range x.readerStates(in) {
			for k := int64(0); k < 32; k++ {
				for last := int64(0); last < 2; last++ {
					q := p.fork()
					// The code: k zeros, 1 and k more bits, the last of which decides the sign.
					for i := int64(0); i < k; i++ {
						q.st.assumeEq(q.bit(in, i), k0)
					}
					q.st.assumeEq(q.bit(in, k), k1)
					if k > 0 {
						q.st.assumeEq(q.bit(in, 2*k), konst(last))
					} else if last == 1 {
						continue
					}
					if q.st.C.bot {
						continue
					}
					x.count("codes", 1)
					for i, m := range []*ssa.Function{ue, se, skip} {
						x.code(in, q, m, av, k, last, i)
					}
				}
			}
		}
	})
	x.collect(in, nil)
}

// code checks an operation on an Exp-Golomb code.
func (x *ctx) code(in *Interp, p *readerAt, m, av *ssa.Function, k, last int64, kind int) {
	name := m.Name()
	size := 2*k + 1
	for _, enough := range []bool{true, false} {
		q := p.fork()
		if enough {
			q.st.assumeLe(konst(size), q.avail)
		} else {
			q.st.assumeLt(q.avail, konst(size))
		}
		if q.st.C.bot {
			continue
		}
		outs := in.callM(q.st, m, q.self)
		if len(outs) == 0 {
			x.must(false, name+":none", "%s of a code with %d zeros at offset %d does not return", name, k, q.off)
		}
		for _, o := range outs {
			if !enough {
				x.must(in.isErr(o) == 1, name+":cut", "%s of a code with %d zeros at offset %d succeeds beyond the end of the buffer", name, k, q.off)
				continue
			}
			if !x.must(in.isErr(o) == 0, name+":enough", "%s of a code with %d zeros at offset %d fails although it is available", name, k, q.off) {
				continue
			}
			left, st := x.left(in, av, o.St, q.self)
			x.must(st.isEq(left, addK(q.avail, -size)), name+":moves", "%s of a code with %d zeros at offset %d leaves %s bits of %s", name, k, q.off, st.describe(VInt{left}), st.describe(VInt{q.avail}))
			if len(o.Ret) < 2 {
				continue
			}
			r := *q
			r.st = st
			// The value is 2^k - 1 + suffix.
			want := addK(r.value(in, k+1, k), 1<<k-1)
			if kind == 1 {
				half := k0
				if k > 0 {
					half = addK(r.value(in, k+1, k-1), 1<<(k-1)) // suffix without the last bit and 2^(k-1)
				}
				if want = half; last == 1 {
					want = lincomb(k0, -1, half)
				}
			}
			v, ok := o.Ret[0].(VInt)
			x.must(ok && st.isEq(v.L, want), name+":value", "%s of a code with %d zeros at offset %d returns %s instead of %s", name, k, q.off, st.describe(o.Ret[0]), st.describe(VInt{want}))
		}
	}
}
