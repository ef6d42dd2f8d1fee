package main

import "strings"

// runC45 decides dispatch of out-of-band parameter sets.
func runC45(x *ctx) {
	fn := x.method("net/h264", "ParameterSets", "ParseSprop")
	parse := map[string]int64{"ParseSPS": 7, "ParsePPS": 8}
	if fn == nil {
		return
	}
	in := x.interp()
	in.noPanics = true
	x.guard(in, "ParseSprop", func() {
		for _, st := range x.sets(in) {
			args := in.lazyArgs(st, fn)
			args[0] = st.Ghost["self"]
			buf, ok := args[1].(VSlice)
			if !x.must(ok, "argument", "the argument of ParseSprop is not a slice") {
				return
			}
			in.h.Call = func(c *callCtx) ([]Outcome, bool) {
				if c.fn == nil {
					return nil, false
				}
				name := c.fn.RelString(nil)
				if name == modulePath+"/net/h264.EBSPToRaw" {
					src, ok := c.args[0].(VSlice)
					if !ok {
						return nil, false
					}
					for _, o := range []int64{0, 1} {
						// Removal leaves a first byte that is not zero alone.
						if src.Obj == buf.Obj && src.Path.key() == buf.Path.key() && c.st.isEq(src.Off, addK(buf.Off, o)) && c.st.isEq(add(src.Off, src.Len), add(buf.Off, buf.Len)) {
							v := in.arg(c.st, c.sig.Results().At(0).Type(), in.freshID(pf("raw%d", o))).(VSlice)
							c.st.setGhost(pf("raw%d", o), v)
							return []Outcome{{c.st, []Value{v}}}, true
						}
					}
					return nil, false
				}
				typ, ok := parse[c.fn.Name()]
				if !ok || !strings.HasPrefix(name, "(*"+modulePath+"/net/h264.ParameterSets).") {
					return nil, false
				}
				v, _ := c.args[1].(VSlice)
				good := false
				for _, o := range []int64{0, 1} {
					if r, ok := c.st.Ghost[pf("raw%d", o)].(VSlice); ok && r.Obj == v.Obj && c.st.isEq(v.Off, addK(r.Off, 1-o)) && c.st.isEq(add(v.Off, v.Len), add(r.Off, r.Len)) {
						good = true
					}
				}
				x.must(good, c.fn.Name()+" argument", "%s is given something else than the unit without its header and emulation prevention bytes", c.fn.Name())
				x.must(c.st.Mode["parsed"] == "", "twice", "a parameter set is parsed twice")
				x.must(sameObj(c.args[0], st.Ghost["self"]), "receiver", "a parameter set is parsed into another store")
				x.count("parser calls", 1)
				a, b := c.st.clone(), c.st
				a.setMode("parsed", pf("%d err", typ))
				b.setMode("parsed", pf("%d ok", typ))
				e := VIface{Nil: k0, ID: in.freshID("parse error")}
				return []Outcome{{a, []Value{e}}, {b, []Value{VIface{Nil: k1}}}}, true
			}
			for _, c := range []struct {
				typ    string
				lo, hi int64
			}{{"empty", 0, 0}, {"7", 7, 7}, {"8", 8, 8}, {"other", 0, 6}, {"other", 9, 31}} {
				s := st.clone()
				if c.typ == "empty" {
					s.assumeLe(buf.Len, k0)
				} else {
					s.assumeLe(k1, buf.Len)
					s.assumeEq(in.byteAt(s, buf, k0), lincomb(in.freshInt("type", c.lo, c.hi), 32, in.freshInt("nri", 0, 7)))
				}
				for _, o := range in.callFn(s, fn, args, nil) {
					x.count("outcomes", 1)
					typ, res, _ := strings.Cut(o.St.Mode["parsed"], " ")
					isOk := in.isErr(o) == 0
					if c.typ == "7" || c.typ == "8" {
						x.must(typ == c.typ, "type "+c.typ, "a unit of type %s is parsed as type %q", c.typ, typ)
						x.must(typ == "" || (res == "ok") == isOk, "error "+c.typ, "the error of the parser (%s) is not what is returned", res)
						continue
					}
					x.must(typ == "", "type "+c.typ, "a unit that is no parameter set (%s) is parsed as type %q", c.typ, typ)
				}
			}
		}
	})
	x.collect(in, func(o *Obligation) bool { return o.Rule == "analysable" })
}

func init() {
	register(&check{id: "C45", rule: "abstract interpretation of ParseSprop on any input with the parsers as events: by the type in the low five bits of the first byte exactly the matching parser is called, on the rest of the unit after removal of emulation prevention bytes, and its error is returned; nothing is parsed otherwise",
		min: map[string]int{"parser calls": 2, "outcomes": 4}, run: runC45})
}

func sameObj(a, b Value) bool {
	p, ok := a.(VPtr)
	q, ok2 := b.(VPtr)
	return ok && ok2 && p.Obj == q.Obj && p.Path.key() == q.Path.key()
}
