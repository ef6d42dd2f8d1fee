package main

import "golang.org/x/tools/go/ssa"

func init() {
	register(&check{id: "C02", rule: "abstract interpretation of rtp.Unpack separately for each value of the first header byte and each shape of the optional parts; every exported field and accessor of every successful outcome is compared, as an expression over the bytes of the input, with the positions RFC 3550 section 5.1 defines; a well-formed packet has no failing outcome, a packet of another version no successful one",
		run: runC02, min: map[string]int{"first header bytes": 64, "successful outcomes": 64}})
	register(&check{id: "C03", rule: "as C02, for rtcp.Unpack: header fields of every packet and the sender info of sender reports",
		run: runC03, min: map[string]int{"first header bytes": 64, "successful outcomes": 64}})
}

// bools decides an accessor that returns a boolean.
func (x *ctx) boolIs(in *Interp, outs []Outcome, want bool, key, what string) {
	for _, o := range outs {
		if len(o.Ret) != 1 {
			continue
		}
		v, ok := o.Ret[0].(VInt)
		w := k0
		if want {
			w = k1
		}
		x.must(ok && o.St.isEq(v.L, w), key, "%s is %s, it should be %v", what, o.St.describe(o.Ret[0]), want)
	}
}

func runC02(x *ctx) {
	fn := x.fn("net/rtp", "Unpack")
	acc := map[string]*ssa.Function{}
	for _, n := range []string{"P", "X", "CC", "M", "PT"} {
		acc[n] = x.method("net/rtp", "Packet", n)
		if acc[n] == nil {
			return
		}
	}
	if fn == nil {
		return
	}
	in := x.interp()
	in.noPanics = true
	in.apart, in.unrolls = 64, 40
	x.guard(in, fn.String(), func() {
		for _, r := range [][2]int64{{0, 127}, {192, 255}} {
			st := in.enter()
			buf := in.lazyArgs(st, fn)[0].(VSlice)
			st.assumeLe(k1, buf.Len)
			b0 := in.byteAt(st, buf, k0)
			st.assumeLe(konst(r[0]), b0)
			st.assumeLe(b0, konst(r[1]))
			good, _ := in.splitErr(in.callFn(st, fn, []Value{buf}, nil))
			x.must(len(good) == 0, "version", "a packet with the first byte between %d and %d is accepted, its version is not 2", r[0], r[1])
		}
		for b0 := int64(128); b0 < 192; b0++ {
			x.count("first header bytes", 1)
			st := in.enter()
			buf := in.lazyArgs(st, fn)[0].(VSlice)
			st.assumeLe(k1, buf.Len)
			st.assumeEq(in.byteAt(st, buf, k0), konst(b0))
			good, bad := in.splitErr(in.callFn(st, fn, []Value{buf}, nil))
			x.must(len(good) > 0, "never", "a packet with the first byte %d is never decoded", b0)
			for _, o := range good {
				x.count("successful outcomes", 1)
				x.rtpFields(in, o, buf, b0, acc)
			}
			for _, o := range bad {
				x.count("failing outcomes", 1)
				x.rtpWellFormed(in, o.St, buf, b0)
			}
		}
	})
	x.collect(in, func(o *Obligation) bool { return false })
}

// layout returns the offset of the payload of an RTP packet and its constraints.
func rtpLayout(in *Interp, st *State, buf VSlice, b0 int64) (cc int64, ext bool, xl, off Lin) {
	cc, ext = b0&15, b0&16 != 0
	off = konst(12 + 4*cc)
	if ext {
		xl = in.word(st, buf, addK(off, 2), 2)
		off = lincomb(addK(off, 4), 4, xl)
	}
	return
}

func (x *ctx) rtpFields(in *Interp, o Outcome, buf VSlice, b0 int64, acc map[string]*ssa.Function) {
	st := o.St
	p, ok := o.Ret[0].(VPtr)
	if !x.must(ok && st.notNil(p.Nil), "packet", "success without a packet") {
		return
	}
	cc, ext, xl, off := rtpLayout(in, st, buf, b0)
	least := k0
	if b0&0x20 != 0 {
		least = k1
	}
	if !x.must(st.isLe(add(off, least), buf.Len), "length", "a packet shorter than its header announces is accepted") {
		return
	}
	x.sameInt(st, in.get(st, p, "SN"), in.word(st, buf, konst(2), 2), "SN", "sequence number")
	x.sameInt(st, in.get(st, p, "TS"), in.word(st, buf, konst(4), 4), "TS", "timestamp")
	x.sameInt(st, in.get(st, p, "SSRC"), in.word(st, buf, konst(8), 4), "SSRC", "SSRC")
	x.sameInt(st, in.get(st, p, "VPXCC"), konst(b0), "VPXCC", "first header byte")
	x.sameInt(st, in.get(st, p, "MPT"), in.byteAt(st, buf, k1), "MPT", "second header byte")
	cs, ok := in.get(st, p, "CSRC").(VSlice)
	if x.must(ok && st.isEq(cs.Len, konst(cc)), "CSRC count", "number of CSRC is not the count in the header") {
		for i := int64(0); i < cc; i++ {
			x.sameInt(st, in.elemAt(st, cs, konst(i)), in.word(st, buf, konst(12+4*i), 4), "CSRC", pf("CSRC %d", i))
		}
	}
	if ext {
		at := konst(12 + 4*cc)
		x.sameInt(st, in.get(st, p, "XH"), in.word(st, buf, at, 2), "XH", "extension profile")
		x.sameInt(st, in.get(st, p, "XL"), xl, "XL", "extension length")
		x.sameBytes(in, st, in.get(st, p, "XD"), buf, addK(at, 4), lincomb(k0, 4, xl), "XD", "extension data")
	} else {
		x.sameInt(st, in.get(st, p, "XL"), k0, "XL", "extension length of a packet without extension")
		x.sameBytes(in, st, in.get(st, p, "XD"), buf, k0, k0, "XD", "extension data of a packet without extension")
	}
	n := sub(buf.Len, off)
	if b0&0x20 != 0 {
		n = sub(n, in.byteAt(st, buf, addK(buf.Len, -1)))
		x.must(st.isLe(k1, in.byteAt(st, buf, addK(buf.Len, -1))), "padding size", "padding of 0 bytes is accepted")
	}
	if x.must(st.isLe(k0, n), "padding", "padding longer than the payload is accepted") {
		x.sameBytes(in, st, in.get(st, p, "PL"), buf, off, n, "PL", "payload")
	}
	x.boolIs(in, in.callM(st, acc["P"], p), b0&0x20 != 0, "P", "padding flag")
	x.boolIs(in, in.callM(st, acc["X"], p), ext, "X", "extension flag")
	for _, r := range in.callM(st, acc["CC"], p) {
		x.sameInt(r.St, r.Ret[0], konst(cc), "CC", "CSRC count")
	}
	for m := int64(0); m < 2; m++ {
		s := st.clone()
		b1 := in.byteAt(s, buf, k1)
		s.assumeLe(konst(128*m), b1)
		s.assumeLe(b1, konst(128*m+127))
		if s.C.bot {
			continue
		}
		x.boolIs(in, in.callM(s, acc["M"], p), m == 1, "M", "marker")
		for _, r := range in.callM(s, acc["PT"], p) {
			x.sameInt(r.St, r.Ret[0], addK(b1, -128*m), "PT", "payload type")
		}
	}
}

// rtpWellFormed checks that a failure does not concern a well-formed packet.
func (x *ctx) rtpWellFormed(in *Interp, st *State, buf VSlice, b0 int64) {
	st = st.clone()
	cc, ext, _, _ := rtpLayout(in, st, buf, b0&^16)
	st.assumeLe(konst(12+4*cc), buf.Len)
	if ext = b0&16 != 0; ext {
		st.assumeLe(konst(16+4*cc), buf.Len)
	}
	_, _, _, off := rtpLayout(in, st, buf, b0)
	st.assumeLe(off, buf.Len)
	if b0&0x20 != 0 {
		st.assumeLe(addK(off, 1), buf.Len)
		pad := in.byteAt(st, buf, addK(buf.Len, -1))
		st.assumeLe(k1, pad)
		st.assumeLe(pad, sub(buf.Len, off))
	}
	x.must(st.C.bot || !st.C.feasibleAll(), "well-formed", "a well-formed packet with the first byte %d is rejected", b0)
}

func runC03(x *ctx) {
	fn := x.fn("net/rtcp", "Unpack")
	fp, fc := x.method("net/rtcp", "Packet", "P"), x.method("net/rtcp", "Packet", "C")
	if fn == nil || fp == nil || fc == nil {
		return
	}
	in := x.interp()
	in.noPanics = true
	in.apart, in.unrolls = 64, 40
	x.guard(in, fn.String(), func() {
		for _, r := range [][2]int64{{0, 127}, {192, 255}} {
			st := in.enter()
			buf := in.lazyArgs(st, fn)[0].(VSlice)
			st.assumeLe(k1, buf.Len)
			b0 := in.byteAt(st, buf, k0)
			st.assumeLe(konst(r[0]), b0)
			st.assumeLe(b0, konst(r[1]))
			good, _ := in.splitErr(in.callFn(st, fn, []Value{buf}, nil))
			x.must(len(good) == 0, "version", "a packet with the first byte between %d and %d is accepted, its version is not 2", r[0], r[1])
		}
		for b0 := int64(128); b0 < 192; b0++ {
			x.count("first header bytes", 1)
			// Numbers of 64 bits are beyond the numeric domain: the NTP timestamp is compared if its first bit is 0.
			for _, pt := range [][3]int64{{0, 199}, {200, 200}, {200, 200, 1}, {201, 255}} {
				st := in.enter()
				buf := in.lazyArgs(st, fn)[0].(VSlice)
				b1 := in.byteAt(st, buf, k1)
				sr := pt[0] == 200
				st.assumeLe(konst(pt[0]), b1)
				st.assumeLe(b1, konst(pt[1]))
				st.assumeEq(in.byteAt(st, buf, k0), konst(b0))
				st.assumeLe(konst(2), buf.Len)
				if sr {
					st.assumeLe(konst(128*pt[2]), in.byteAt(st, buf, konst(8)))
					st.assumeLe(in.byteAt(st, buf, konst(8)), konst(128*pt[2]+127))
				}
				good, bad := in.splitErr(in.callFn(st, fn, []Value{buf}, nil))
				x.must(len(good) > 0, "never", "a packet with the first byte %d is never decoded", b0)
				need := int64(4)
				if sr {
					need = 28 + 24*(b0&31)
				}
				for _, o := range good {
					x.count("successful outcomes", 1)
					s := o.St
					p, ok := o.Ret[0].(VPtr)
					if !x.must(ok && s.notNil(p.Nil), "packet", "success without a packet") {
						continue
					}
					if !x.must(s.isLe(konst(need), buf.Len), "length", "a packet with the first byte %d shorter than %d bytes is accepted", b0, need) {
						continue
					}
					x.sameInt(s, in.get(s, p, "VPC"), konst(b0), "VPC", "first header byte")
					x.sameInt(s, in.get(s, p, "PT"), in.byteAt(s, buf, k1), "PT", "packet type")
					x.sameInt(s, in.get(s, p, "LN"), in.word(s, buf, konst(2), 2), "LN", "length")
					x.boolIs(in, in.callM(s, fp, p), b0&0x20 != 0, "P", "padding flag")
					for _, r := range in.callM(s, fc, p) {
						x.sameInt(r.St, r.Ret[0], konst(b0&31), "C", "count")
					}
					d, ok := in.get(s, p, "DSR").(VPtr)
					if !sr {
						x.must(ok && s.isNil(d.Nil), "DSR", "a packet that is not a sender report has sender info")
						continue
					}
					if !x.must(ok && s.notNil(d.Nil), "DSR", "a sender report has no sender info") {
						continue
					}
					x.sameInt(s, in.get(s, d, "SSRC"), in.word(s, buf, konst(4), 4), "SSRC", "sender SSRC")
					if pt[2] == 0 {
						x.sameInt(s, in.get(s, d, "NTPTS"), in.word(s, buf, konst(8), 8), "NTPTS", "NTP timestamp")
					}
					x.sameInt(s, in.get(s, d, "RTPTS"), in.word(s, buf, konst(16), 4), "RTPTS", "RTP timestamp")
					x.sameInt(s, in.get(s, d, "PC"), in.word(s, buf, konst(20), 4), "PC", "packet count")
					x.sameInt(s, in.get(s, d, "OC"), in.word(s, buf, konst(24), 4), "OC", "octet count")
				}
				for _, o := range bad {
					s := o.St.clone()
					s.assumeLe(konst(need), buf.Len)
					x.must(s.C.bot || !s.C.feasibleAll(), "well-formed", "a well-formed packet with the first byte %d is rejected", b0)
				}
			}
		}
	})
	x.collect(in, func(o *Obligation) bool { return false })
}
