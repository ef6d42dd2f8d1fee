package main

import (
	"go/types"
	"strings"
)

func init() {
	register(&check{id: "C20", rule: "abstract interpretation of sdp.Parse on bodies of every sequence of up to four media descriptions (video, audio, application), with attribute lines before the first, after each, only after videos and only elsewhere; names, numbers and parameter values are symbolic words: there is one feed per video, in order, and each holds exactly the values of the lines that follow its own description",
		min: map[string]int{"bodies": 250, "feeds": 300}, run: runC20})
}

func runC20(x *ctx) {
	parse := x.fn("net/sdp", "Parse")
	if parse == nil {
		return
	}
	in := x.interp()
	in.noPanics = true
	in.unrolls = 200
	in.apart = 64
	// Whether base64 is well formed does not matter here.
	in.h.Call = func(c *callCtx) ([]Outcome, bool) {
		if c.name == "(*encoding/base64.Encoding).DecodeString" {
			r := in.fnStr(c.st, "unbase64", k0, bigLen, str(c.args[1]))
			return one(c.st, in.newSlice(c.st, types.Typ[types.Byte], r.S, c.ins), nilErr), true
		}
		return nil, false
	}
	kinds := []string{"video", "audio", "application"}
	var seqs [][]string
	level := [][]string{nil}
	for n := 0; n < 5; n++ {
		seqs = append(seqs, level...)
		var next [][]string
		for _, s := range level {
			for _, k := range kinds {
				if n >= 3 && k == "application" {
					continue
				}
				next = append(next, append(s[:len(s):len(s)], k))
			}
		}
		level = next
	}
	x.guard(in, "Parse", func() {
		for i, s := range seqs {
			for variant := 0; variant < 3; variant++ {
				eol := "\n"
				if i%2 == 1 {
					eol = "\r\n"
				}
				x.body(in, func(st *State, b []Value) []Outcome {
					return in.callFn(st, parse, b, nil)
				}, s, variant, eol)
			}
		}
	})
	x.collect(in, func(o *Obligation) bool { return o.Rule == "analysable" })
}

// body checks parsing of one sequence of descriptions.
func (x *ctx) body(in *Interp, call func(st *State, b []Value) []Outcome, seq []string, variant int, eol string) {
	st := in.enter()
	type feed struct {
		payload, clock Lin
		control        VStr
		sets           []VStr
		attrs          bool
	}
	var want []feed
	text := cat(in, st, "v=0", eol, "o=- 1 1 IN IP4 ", in.aWord(st, "host"), eol, "s=", in.aWord(st, "name"), eol)
	line := func(parts ...any) { text = cat(in, st, append(append([]any{text}, parts...), eol)...) }
	attrs := func(i int) feed {
		f := feed{attrs: true, clock: in.freshInt("clock", 1, 1<<30), control: in.aWord(st, pf("control%d", i)), sets: []VStr{in.aWord(st, pf("sps%d", i)), in.aWord(st, pf("pps%d", i))}}
		pt := in.decimal(st, in.freshInt("type", 0, 127))
		line("b=AS:16")
		line("a=rtpmap:", pt, " H264/", in.decimal(st, f.clock))
		line("a=recvonly")
		line("a=control:", f.control)
		line("a=fmtp:", pt, " packetization-mode=1; sprop-parameter-sets=", f.sets[0], ",", f.sets[1], "; profile-level-id=", in.aWord(st, pf("profile%d", i)))
		return f
	}
	if variant != 1 {
		attrs(-1)
	}
	for i, k := range seq {
		pt := in.freshInt("payload", 0, 127)
		line("m=", k, " ", in.decimal(st, in.freshInt("port", 0, 65535)), " RTP/AVP ", in.decimal(st, pt))
		line("c=IN IP4 ", in.aWord(st, "addr"))
		f := feed{clock: k0}
		if k == "video" && variant != 2 || k != "video" && variant != 1 {
			f = attrs(i)
		}
		f.payload = pt
		if k == "video" {
			want = append(want, f)
		}
	}
	buf := in.newSlice(st, types.Typ[types.Byte], text.S, nil)
	outs := call(st, []Value{buf})
	where := strings.Join(seq, ", ")
	x.must(len(outs) > 0, "outcome", "Parse does not return")
	for _, o := range outs {
		x.count("bodies", 1)
		s, ok := o.Ret[0].(VSlice)
		n := k0
		if ok {
			n = s.Len
			if o.St.isNil(s.Nil) {
				n = k0
			}
		}
		if !x.must(ok && o.St.isEq(n, konst(int64(len(want)))), "feeds", "there are %s feeds for descriptions [%s]", o.St.norm(n), where) {
			continue
		}
		for i, w := range want {
			x.count("feeds", 1)
			f := in.elemAt(o.St, s, konst(int64(i)))
			num := func(name string, l Lin) {
				v, ok := in.get(o.St, f, name).(VInt)
				x.must(ok && o.St.isEq(v.L, l), name, "%s of feed %d of descriptions [%s] is not the one of its lines", name, i, where)
			}
			str := func(name string, v Value, s VStr) {
				x.must(in.ropeText(o.St, v) == in.ropeText(o.St, s), name, "%s of feed %d of descriptions [%s] is %s instead of %s", name, i, where, in.ropeText(o.St, v), in.ropeText(o.St, s))
			}
			num("PayloadType", w.payload)
			num("TimeScale", w.clock)
			str("Control", in.get(o.St, f, "Control"), w.control)
			typ := k0
			if w.attrs {
				typ = konst(96)
			}
			num("Type", typ)
			l, ok := in.get(o.St, f, "SpropParameterSets").(VSlice)
			m := k0
			if ok && !o.St.isNil(l.Nil) {
				m = l.Len
			}
			if !x.must(ok && o.St.isEq(m, konst(int64(len(w.sets)))), "parameter sets", "feed %d of descriptions [%s] has %s parameter sets instead of %d", i, where, o.St.norm(m), len(w.sets)) {
				continue
			}
			for k, p := range w.sets {
				str("parameter set", in.elemAt(o.St, l, konst(int64(k))), in.fnStr(o.St, "unbase64", k0, bigLen, p))
			}
		}
	}
}
