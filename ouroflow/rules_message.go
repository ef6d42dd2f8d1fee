package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const rtspPkg = "net/rtsp"

func init() {
	register(&check{id: "C34", rule: "abstract interpretation of Request.Pack with text as ropes of constants and symbolic fields, split by verb, presence of session and authorization and by number of extra headers (0 to 3, any names and values): the result is the request line, exactly the header lines of the statement and one empty line",
		min: map[string]int{"requests": 100}, run: runC34})
}

// ropeText renders a text; symbolic parts are named by what they stand for.
func (in *Interp) ropeText(st *State, v Value) string {
	var segs []Seg
	switch x := v.(type) {
	case VStr:
		segs = x.S
	case VSlice:
		segs = in.window(st, x)
	default:
		return "<unknown>"
	}
	var b strings.Builder
	for _, g := range in.concat(st, nil, segs) {
		if c, ok := in.constSegs(st, []Seg{g}); ok {
			b.WriteString(c)
			continue
		}
		switch {
		case g.Kind == SFn && g.ID == "dec":
			b.WriteString("<dec " + in.valKey(st, g.Args[0]) + ">")
		case g.Kind == SFn:
			var a []string
			for _, v := range g.Args {
				if _, ok := v.(VStr); ok {
					a = append(a, in.ropeText(st, v))
				} else {
					a = append(a, in.valKey(st, v))
				}
			}
			b.WriteString("<" + g.ID + " " + strings.Join(a, ", ") + ">")
		case g.Kind == SBase:
			s := g.ID
			if o := st.norm(g.Off); !o.isK(0) {
				s += "@" + o.key()
			}
			b.WriteString("<" + s + ":" + st.norm(g.N).key() + ">")
		default:
			b.WriteString("<" + in.segsKey(st, []Seg{g}) + ">")
		}
	}
	return b.String()
}

// symStr makes a symbolic text that is not empty.
func (in *Interp) symStr(st *State, name string) VStr {
	s := in.arg(st, types.Typ[types.String], name).(VStr)
	st.assumeLe(k1, segsLen(s.S))
	return s
}

// object makes an object of a type with given fields, others are arbitrary.
func (x *ctx) object(in *Interp, st *State, path, typ string, fields map[string]Value) VPtr {
	t := x.typ(path, typ)
	if t == nil {
		return VPtr{Nil: k1}
	}
	o := in.newObj(ObjInfo{T: t, Name: typ})
	st.setHeap(o, VLazy{t, in.freshID(typ)})
	p := VPtr{Nil: k0, Obj: o}
	for f, v := range fields {
		i := fieldIndex(t, f)
		if x.must(i >= 0, "field "+typ+"."+f, "%s has no field %s", typ, f) {
			in.store(st, o, Path{}.field(i), v)
		}
	}
	return p
}

// mapOf makes a map with given entries.
func (in *Interp) mapOf(st *State, t types.Type, kv ...Value) VMap {
	m := under(t).(*types.Map)
	c := &MapC{Key: m.Key(), Elem: m.Elem()}
	for i := 0; i+1 < len(kv); i += 2 {
		for _, w := range c.Over {
			_, l := in.keyEq(st, w.Key, kv[i])
			in.assumeCond(st, l, false) // keys are distinct
		}
		c.Over = append(c.Over, MapWrite{kv[i], kv[i+1]})
	}
	o := in.newObj(ObjInfo{T: t, Name: "map"})
	st.setHeap(o, c)
	return VMap{Nil: k0, Obj: o}
}

func runC34(x *ctx) {
	pack := x.method(rtspPkg, "Request", "Pack")
	if pack == nil {
		return
	}
	header := x.typ(rtspPkg, "MessageHeader")
	var verbs []string
	for name, m := range x.pkg(rtspPkg).Members {
		if c, ok := constString(m); ok && strings.HasPrefix(name, "Verb") {
			verbs = append(verbs, c)
		}
	}
	sort.Strings(verbs)
	agent, ok := constString(x.pkg(rtspPkg).Members["Agent"])
	if !x.must(ok, "Agent", "there is no constant Agent") || header == nil {
		return
	}
	in := x.interp()
	in.noPanics = true
	in.mapOnce = true
	in.unrolls = 40
	in.apart = 64
	x.guard(in, "Pack", func() {
		for _, verb := range append(verbs, "") {
			for opts := 0; opts < 4; opts++ {
				for n := 0; n <= 3; n++ {
					st := in.enter()
					v := strConst(verb)
					if verb == "" {
						v = in.symStr(st, "verb")
						for _, o := range []string{"OPTIONS", "SETUP"} {
							st.assumeEq(in.strEq(st, v, strConst(o)), k0)
						}
					}
					auth, sess := VStr{}, VStr{}
					if opts&1 != 0 {
						auth = in.symStr(st, "auth")
					}
					if opts&2 != 0 {
						sess = in.symStr(st, "session")
					}
					uri := in.symStr(st, "uri")
					cseq := in.freshInt("cseq", 0, 1<<40)
					var kv []Value
					for i := 0; i < n; i++ {
						kv = append(kv, in.symStr(st, pf("key%d", i)), in.symStr(st, pf("value%d", i)))
					}
					expect := func(st *State) []string {
						want := []string{"CSeq: " + in.ropeText(st, in.decimal(st, cseq)), "User-Agent: " + agent, "Content-Length: 0"}
						for i := 0; i < n; i++ {
							want = append(want, in.ropeText(st, kv[2*i])+": "+in.ropeText(st, kv[2*i+1]))
						}
						if opts&1 != 0 {
							want = append(want, "Authorization: "+in.ropeText(st, auth))
						}
						if opts&2 != 0 && verb != "OPTIONS" && verb != "SETUP" {
							want = append(want, "Session: "+in.ropeText(st, sess))
						}
						sort.Strings(want)
						return want
					}
					hdr := in.mapOf(st, header, kv...)
					if n == 0 && opts == 0 {
						hdr = VMap{Nil: k1}
					}
					req := x.object(in, st, rtspPkg, "Request", map[string]Value{"Verb": v, "URI": uri, "Cseq": VInt{cseq}, "Auth": auth, "Session": sess, "Header": hdr})
					outs := in.callM(st, pack, req)
					x.must(len(outs) > 0, "outcome", "Pack does not return")
					for _, o := range outs {
						x.count("requests", 1)
						first, want := in.ropeText(o.St, v)+" "+in.ropeText(o.St, uri)+" RTSP/1.0", expect(o.St)
						text := in.ropeText(o.St, o.Ret[0])
						if debugLoops {
							println(text)
						}
						where := pf("verb %q, authorization %v, session %v, %d headers", verb, opts&1 != 0, opts&2 != 0, n)
						lines := strings.Split(text, "\r\n")
						k := len(lines)
						if !x.must(k >= 3 && lines[k-1] == "" && lines[k-2] == "", "end", "the request does not end with exactly one empty line (%s)", where) {
							continue
						}
						x.must(lines[0] == first, "request line", "the request line is %q instead of %q (%s)", lines[0], first, where)
						got := append([]string(nil), lines[1:k-2]...)
						sort.Strings(got)
						x.must(strings.Join(got, "\n") == strings.Join(want, "\n"), "headers", "the headers are [%s] instead of [%s] (%s)", strings.Join(got, "; "), strings.Join(want, "; "), where)
					}
				}
			}
		}
	})
	x.collect(in, func(o *Obligation) bool { return o.Rule == "analysable" })
}

// constString returns the value of a named constant.
func constString(m ssa.Member) (string, bool) {
	c, ok := m.(*ssa.NamedConst)
	if !ok || c.Value.Value == nil || c.Value.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value.Value), true
}

func constInt(m ssa.Member) (int64, bool) {
	c, ok := m.(*ssa.NamedConst)
	if !ok || c.Value.Value == nil || c.Value.Value.Kind() != constant.Int {
		return 0, false
	}
	return c.Value.Int64(), true
}
