package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&check{id: "C21", rule: "as C01, for what parses the bytes of a server: its parsers with any stream and any text, a digest with any challenge and any number of requests, and a session of each kind with any server, where the receive loop is solved to a fixpoint over all histories of responses, interleaved data and commands of the user, and whatever the network, the clock and the SDP and H.264 parsers may return",
		min: map[string]int{"entry points": 6, "challenges": 2, "sessions": 4},
		run: runC21})
}

// anyRead models reading from a stream of arbitrary bytes.  What successful reads consume bounds their number.
func (in *Interp) anyRead(c *callCtx) ([]Outcome, bool) {
	r, ok := in.anyReads(c)
	for _, o := range r {
		n, ok := o.St.Ghost["consumed"].(VInt)
		if k := in.isErr(o); k != 0 || !ok || c.name == "(*bufio.Reader).Peek" {
			continue
		}
		d := k1
		if v, ok := o.Ret[0].(VInt); ok && len(o.Ret) > 1 && c.name != "(*bufio.Reader).ReadByte" {
			d = v.L
		}
		o.St.setGhost("consumed", VInt{add(n.L, d)})
	}
	return r, ok
}

func (in *Interp) anyReads(c *callCtx) ([]Outcome, bool) {
	st := c.st
	bytesT := types.Typ[types.Byte]
	some := func(st *State, n Lin) VSlice {
		return in.newSlice(st, bytesT, []Seg{{Kind: SBase, ID: in.freshID("received"), N: n}}, c.ins)
	}
	part := func(st *State) Lin { return in.freshInt("received", 0, maxLen) }
	switch c.name {
	case "(*bufio.Reader).ReadString":
		return in.pair(c, func(st *State) []Value { return []Value{in.freshStr(st, "line")} }, func(st *State) []Value { return []Value{in.freshStr(st, "line")} }), true
	case "(*bufio.Reader).ReadBytes", "(*bufio.Reader).ReadSlice":
		f := func(st *State) []Value { return []Value{some(st, part(st))} }
		return in.pair(c, f, f), true
	case "(*bufio.Reader).Peek":
		n := num(c.args[1])
		return in.pair(c, func(st *State) []Value {
			st.assumeLe(k0, n)
			return []Value{some(st, n)}
		}, func(st *State) []Value {
			k := part(st)
			return []Value{some(st, k)}
		}), true
	case "(*bufio.Reader).Discard":
		n := num(c.args[1])
		return in.pair(c, func(st *State) []Value {
			st.assumeLe(k0, n)
			return []Value{VInt{n}}
		}, func(st *State) []Value { return []Value{VInt{part(st)}} }), true
	case "(*bufio.Reader).ReadByte":
		return in.pair(c, func(st *State) []Value { return []Value{VInt{in.freshInt("byte", 0, 255)}} }, nil), true
	case "encoding/binary.Read":
		i, ok := c.args[2].(VIface)
		if !ok {
			return nil, false
		}
		p, ok := i.Val.(VPtr)
		if !ok {
			return nil, false
		}
		t := in.objType(p.Obj, p.Path)
		return in.pair(c, func(st *State) []Value {
			in.store(st, p.Obj, p.Path, in.freshVal(st, t, "received"))
			return []Value{}
		}, nil), true
	case "io.ReadFull", "io.ReadAtLeast", "(*bufio.Reader).Read":
		d, ok := c.args[1].(VSlice)
		if !ok {
			return nil, false
		}
		if d.Obj != 0 {
			in.scramble(st, d)
		}
		n := func(all bool) func(st *State) []Value {
			return func(st *State) []Value {
				if all {
					return []Value{VInt{d.Len}}
				}
				k := part(st)
				st.assumeLe(k, d.Len)
				return []Value{VInt{k}}
			}
		}
		return in.pair(c, n(c.name == "io.ReadFull"), n(false)), true
	}
	return nil, false
}

// anyWorld models network, clock and other packages with arbitrary outcomes.
func (x *ctx) anyWorld(in *Interp) {
	w := &world{x: x, in: in, fails: true}
	in.h.Go = func(st *State, ins *ssa.Go, c *callCtx) {
		if c.fn != nil && st.Ghost["receiver"] == nil {
			st.setGhost("receiver", VTuple{append([]Value{VFunc{Nil: k0, Fn: c.fn, Bind: c.bind}}, c.args...)})
		}
	}
	in.h.Store = func(st *State, ins *ssa.Store, p VPtr, v Value) {
		if f, ok := v.(VFunc); ok && f.Fn != nil && isModule(f.Fn) {
			// Callbacks are kept apart.
			st.setMode("callback", f.Fn.String())
		}
	}
	in.h.Call = func(c *callCtx) ([]Outcome, bool) {
		st := c.st
		if c.name == "(*bufio.Reader).Peek" && st.Mode["waiting"] == "" && st.Ghost["receiver"] != nil {
			if k, ok := st.konst(num(c.args[1])); ok && k == 1 {
				return x.meanwhile(in, c), true
			}
		}
		if r, ok := in.anyRead(c); ok {
			return r, true
		}
		res := func(i int) types.Type { return c.sig.Results().At(i).Type() }
		if c.fn != nil && isModule(c.fn) && c.fn.Pkg != nil && c.caller() != "" {
			switch n := c.sig.Results().Len(); {
			case strings.HasSuffix(c.fn.Pkg.Pkg.Path(), "/net/sdp"):
				return in.anyResults(c), true
			case strings.HasSuffix(c.fn.Pkg.Pkg.Path(), "/net/h264") && n > 0 && isError(res(n-1)):
				return in.anyResults(c), true
			}
		}
		if strings.HasPrefix(c.name, "builtin.") {
			return nil, false
		}
		switch c.name {
		case "(*net/url.Userinfo).Username", "(*net/url.URL).String", "(*net/url.Userinfo).String":
			return one(st, in.freshStr(st, "text")), true
		case "(*net/url.Userinfo).Password":
			return one(st, in.freshStr(st, "text"), VInt{in.freshInt("set", 0, 1)}), true
		case "(time.Time).Sub", "time.Since":
			lo, hi, _, _ := intRange(res(0))
			return one(st, VInt{in.freshInt("elapsed", lo, hi)}), true
		case "(time.Time).IsZero":
			return one(st, VInt{in.freshInt("zero", 0, 1)}), true
		case "time.Now", "(time.Time).Add":
			return one(st, in.freshVal(st, res(0), "time")), true
		case "(*net.conn).Write", "(*net.TCPConn).Write":
			return in.anyResults(c), true
		case "(*net.conn).Close", "(*net.TCPConn).Close", "(*net.UDPConn).Close":
			return in.anyResults(c), true
		case "(*net.conn).SetReadDeadline", "(*net.conn).SetWriteDeadline", "(*net.conn).SetDeadline":
			return in.anyResults(c), true
		case "net.DialTCP", "net.ListenUDP":
			return in.pair(c, func(st *State) []Value { return []Value{w.newPtr(st, res(0), "conn")} }, nil), true
		case "(net.Error).Timeout", "(*net.OpError).Timeout", "(net.Error).Temporary", "(*net.OpError).Temporary":
			return one(st, VInt{in.freshInt("kind", 0, 1)}), true
		}
		return w.call(c)
	}
}

func isError(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// anyResults returns arbitrary results.
func (in *Interp) anyResults(c *callCtx) []Outcome {
	var r []Value
	for i := 0; i < c.sig.Results().Len(); i++ {
		r = append(r, in.freshVal(c.st, c.sig.Results().At(i).Type(), "result"))
	}
	return one(c.st, r...)
}

// meanwhile issues at most one command before the receiver goes on to read.
func (x *ctx) meanwhile(in *Interp, c *callCtx) []Outcome {
	var outs []Outcome
	go1 := func(st *State) {
		d := *c
		d.st = st
		r, _ := in.anyRead(&d)
		outs = append(outs, r...)
	}
	for _, n := range commandNames {
		m := x.method(rtspPkg, "Session", n)
		s := c.st.clone()
		s.setMode("waiting", "1")
		for _, o := range in.callM(s, m, s.Ghost["self"]) {
			o.St.setMode("waiting", "")
			go1(o.St)
		}
	}
	go1(c.st)
	return outs
}

// anySession runs a session with arbitrary commands and an arbitrary server.
func (x *ctx) anySession(proto int) {
	ctor, open := x.fn(rtspPkg, "NewSession"), x.method(rtspPkg, "Session", "Open")
	if ctor == nil || open == nil {
		return
	}
	in := x.interp()
	x.anyWorld(in)
	x.guard(in, "Session", func() {
		st := in.enter()
		for _, o := range in.callFn(st, ctor, nil, nil) {
			o.St.setGhost("self", o.Ret[0])
			for _, o := range in.callM(o.St, open, o.Ret[0], in.symStr(o.St, "uri"), intk(int64(proto))) {
				g, ok := o.St.Ghost["receiver"].(VTuple)
				if !ok {
					continue
				}
				x.count("sessions", 1)
				f := g.V[0].(VFunc)
				for range in.callValue(o.St, f, g.V[1:], nil, f.Fn.Signature) {
					x.count("ends of sessions", 1)
				}
			}
		}
	})
	x.collect(in, nil)
}

func runC21(x *ctx) {
	for proto := protoTCP; proto <= protoHTTP; proto++ {
		x.anySession(proto)
	}
	x.anyDigest()
	for _, fn := range []*ssa.Function{
		x.fn(rtspPkg, "ParsePair"), x.fn(rtspPkg, "ReceiveHTTP"), x.fn(rtspPkg, "Unpack"),
		x.method(rtspPkg, "Transport", "Parse"), x.method(rtspPkg, "Transport", "String"), x.method(rtspPkg, "Response", "Pack"),
	} {
		if fn == nil {
			continue
		}
		in := x.interp()
		x.terminates(in)
		w := &world{x: x, in: in}
		in.h.Call = func(c *callCtx) ([]Outcome, bool) {
			if r, ok := in.anyRead(c); ok {
				return r, true
			}
			return w.call(c)
		}
		x.noPanicIn(in, fn, func(st *State, args []Value) {
			st.setGhost("consumed", intk(0))
			for _, a := range args {
				if p, ok := a.(VPtr); ok {
					st.assumeEq(p.Nil, k0)
					x.connected(in, st, p)
				}
			}
		})
		x.collect(in, nil)
	}
}

// anyDigest authenticates with an arbitrary challenge any number of times.
func (x *ctx) anyDigest() {
	ctor, auth := x.fn(rtspPkg, "NewDigest"), x.method(rtspPkg, "Digest", "Authenticate")
	if ctor == nil || auth == nil {
		return
	}
	in := x.interp()
	in.apart = 16
	x.terminates(in)
	x.guard(in, "Digest", func() {
		st := in.enter()
		var init []*State
		for _, o := range in.callFn(st, ctor, in.lazyArgs(st, ctor), nil) {
			p, ok := o.Ret[0].(VPtr)
			if in.isErr(o) == 1 || !x.must(ok, "digest", "%s returns %s", ctor, o.St.describe(o.Ret[0])) {
				continue
			}
			e := o.Ret[1].(VIface)
			o.St.assumeEq(e.Nil, k1)
			if o.St.C.bot {
				continue
			}
			o.St.setGhost("self", p)
			for _, o := range in.callM(o.St, auth, p, in.symStr(o.St, "user"), in.symStr(o.St, "password")) {
				x.count("challenges", 1)
				f, ok := o.Ret[0].(VFunc)
				if x.must(ok && f.Fn != nil, "callback", "%s returns %s", auth, o.St.describe(o.Ret[0])) {
					o.St.setMode("callback", f.Fn.String())
					o.St.setGhost("callback", f)
					init = append(init, o.St)
				}
			}
		}
		in.client(init, []func(st *State) []*State{func(st *State) []*State {
			f := st.Ghost["callback"].(VFunc)
			args := in.stepArgs(st, f.Fn)
			var r []*State
			for _, o := range in.callValue(st, f, args, nil, f.Fn.Signature) {
				r = append(r, o.St)
			}
			return r
		}})
	})
	x.collect(in, nil)
}

// connected assumes what holds for a connection that has been dialled.
func (x *ctx) connected(in *Interp, st *State, p VPtr) {
	v, ok := in.expand(st, in.contents(st, p.Obj)).(VStruct)
	if !ok || !types.Identical(v.T, x.typ(rtspPkg, "Conn")) {
		return
	}
	for i, f := range v.F {
		if q, ok := in.expand(st, f).(VPtr); ok {
			q.Nil = k0
			in.store(st, p.Obj, Path{}.field(i), q)
		}
	}
}
