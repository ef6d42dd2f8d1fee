package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&check{id: "C40", rule: "abstract interpretation with failures as a typestate: of dialling, every exported method of the connection and the parsers on it with every operation of the network and of the buffered reader failing; of commands and the receive loop along the listed histories, followed by failing operations, stalls and malformed responses; of the parameter set parsers with every read of bits failing; of each method of the bit reader with each read it is made of failing; of the sink with malformed payloads. Each function with an error result that was active when the operation failed returns an error that is not nil, likewise each caller of an exported function that has returned one; until then the thread neither delivers, announces nor writes anything, and the receive loop reads nothing more. An idle timeout is no failure",
		min: map[string]int{"failures": 300, "returns after a failure": 600, "histories": 60, "methods": 12}, run: runC40})
}

// faults follows failures through callers.
type faults struct {
	x  *ctx
	in *Interp
	// all makes errors of all functions of the module count, not only those of exported ones.
	all bool
}

// fail notes that an operation has failed in functions that are active.
func (f *faults) fail(st *State, what string) {
	if f.in.quiet > 0 {
		return
	}
	f.x.count("failures", 1)
	st.setMode("failed:"+thread(st), fmt.Sprintf("%d %s", len(st.Frames), what))
}

func (f *faults) failed(st *State) (depth int, what string) {
	d, what, _ := strings.Cut(st.Mode["failed:"+thread(st)], " ")
	return atoi(d), what
}

func (f *faults) returns(st *State, fn *ssa.Function, ret []Value) {
	if f.in.quiet > 0 || len(ret) == 0 {
		return
	}
	r := fn.Signature.Results()
	if r.At(r.Len()-1).Type().String() != "error" {
		return
	}
	in := f.in
	d, what := f.failed(st)
	k := len(st.Frames)
	err := in.isErr(Outcome{st, ret})
	switch {
	case what != "" && k <= d:
		f.x.count("returns after a failure", 1)
		f.x.must(err == 1, "failure in "+fn.RelString(nil), "%s may return no error although %s has failed", fn.RelString(nil), what)
	case err == 1 && isModule(fn) && (f.all || fn.Object() != nil && fn.Object().Exported()):
		if e, ok := ret[len(ret)-1].(VIface); ok && e.ID == timeoutID && st.Mode["idle"] != "" {
			return
		}
		what = fn.RelString(nil)
	default:
		return
	}
	st.setMode("failed:"+thread(st), fmt.Sprintf("%d %s", k-1, what))
}

func (x *ctx) faults(in *Interp) *faults {
	f := &faults{x: x, in: in}
	in.h.Return = f.returns
	return f
}

// attach makes failures of a world count.
func (f *faults) attach(w *world) {
	in, x := f.in, f.x
	w.onFail = func(st *State, c *callCtx, idle bool) {
		if idle {
			st.setMode("idle", "1")
			return
		}
		st.setMode("idle", "")
		f.fail(st, c.name)
	}
	use := func(st *State, what string) {
		d, op := f.failed(st)
		x.must(op == "" || d <= 0 || in.quiet > 0, "use of "+what, "%s although %s has failed", what, op)
	}
	send := in.h.Send
	in.h.Send = func(st *State, ins ssa.Instruction, ch VChan, v Value) {
		use(st, "something is sent to a channel")
		send(st, ins, ch, v)
	}
	w.onWrite = func(st *State, c *callCtx, n int, text VStr) { use(st, "something is written") }
	w.onRead = func(st *State, c *callCtx, n int) {
		st.setMode("idle", "")
		use(st, "something is read")
	}
}

func runC40(x *ctx) {
	// Connection.
	in := x.interp()
	w := x.newWorld(in)
	w.user = true
	f := x.faults(in)
	f.attach(w)
	dial := x.fn(rtspPkg, "Dial")
	unpack, tunnel := x.fn(rtspPkg, "Unpack"), x.fn(rtspPkg, "ReceiveHTTP")
	if dial == nil || unpack == nil || tunnel == nil {
		return
	}
	texts := []string{"", "RTSP/1.0 200 OK\r\nCSeq: 1\r\nContent-Length: 5\r\n\r\n12", "HTTP/1.0 200 OK\r\nContent", "ab", "a"}
	x.guard(in, "connection", func() {
		for _, proto := range []int{protoTCP, protoUnicast, protoHTTP} {
			hello := event(func(st *State) { w.feed(st, "HTTP/1.0 200 OK\r\nContent-Type: application/x-rtsp-tunnelled\r\n\r\n") })
			w.fails = true
			for _, e := range []string{"", "eof", "stall"} {
				w.script = []step{event(func(st *State) {
					if e == "" {
						hello(st)
						return
					}
					w.feed(st, "HTTP/1.0 20")
					st.setMode("end", e)
				})}
				w.dial(dial, proto)
			}
			w.fails = false
			w.script = []step{hello}
			fns := append(x.methods(rtspPkg, "Conn"), unpack, tunnel)
			for _, o := range w.dial(dial, proto) {
				for _, m := range fns {
					sig := m.Signature
					if sig.Results().Len() == 0 || m.Name() == "Lock" || m.Name() == "Unlock" {
						continue
					}
					x.count("methods", 1)
					for _, text := range texts {
						for _, end := range []string{"eof", "stall", "timeout"} {
							st := o.St.clone()
							w.script = nil
							w.feed(st, text)
							st.setMode("failing", "1")
							if end == "timeout" {
								st.setMode("failing", end)
								end = "stall"
							}
							st.setMode("end", end)
							var args []Value
							if sig.Recv() == nil {
								args = append(args, st.Ghost["self"])
							}
							for i := 0; i < sig.Params().Len() && sig.Recv() != nil; i++ {
								if isByteSlice(sig.Params().At(i).Type()) {
									args = append(args, in.newSlice(st, sliceElem(sig.Params().At(i).Type()), strConst("request").S, nil))
								} else {
									args = append(args, intk(5))
								}
							}
							if sig.Recv() != nil {
								in.callM(st, m, st.Ghost["self"], args...)
							} else {
								in.callFn(st, m, args, nil)
							}
						}
					}
				}
			}
		}
	})
	(&sess{world: w}).finish()
	// Session.
	s := x.client()
	if s == nil {
		return
	}
	s.udp = true
	f = x.faults(s.in)
	f.attach(s.world)
	s.begin = func(st *State) { st.setMode("thread", "receiver") }
	x.guard(s.in, "session", func() {
		for _, proto := range allProtos {
			for _, p := range s.situations(proto, 2) {
				for _, e := range s.endings() {
					s.udp = true
					x.count("histories", 1)
					s.playAny(p, []step{e.step, event(func(st *State) { st.setMode("end", "eof") })}, func(*State) {})
				}
				s.udp = true
				for _, n := range commandNames {
					x.count("histories", 1)
					for _, kind := range []string{"1", "timeout"} {
						s.play(p, []step{event(func(st *State) { st.setMode("failing", kind) }), s.do(n), event(func(st *State) { st.setMode("end", "eof") })}, func(*State) {})
					}
				}
			}
		}
	})
	s.finish()
	x.faultyFeeds()
	x.faultyBits()
	x.faultySink()
}

// faultyFeeds decides how feeds take answers to SETUP.
func (x *ctx) faultyFeeds() {
	setup, parse := x.method(rtspPkg, "Feed", "TransportSetup"), x.method(rtspPkg, "Transport", "Parse")
	if setup == nil || parse == nil {
		return
	}
	for _, fn := range []*ssa.Function{setup, parse} {
		in := x.interp()
		in.noPanics = true
		in.unrolls = 60
		in.apart = 64
		f := x.faults(in)
		in.h.Call = func(c *callCtx) ([]Outcome, bool) {
			var outs []Outcome
			switch {
			case strings.HasPrefix(c.name, "strconv.Parse") || c.name == "strconv.Atoi":
				outs = in.parseNum(c)
			case c.fn != nil && c.fn != fn && isModule(c.fn) && (c.fn.Name() == "ParseSprop" || c.fn == parse):
				outs = in.pair(c, func(st *State) []Value { return []Value{} }, nil)
			default:
				return nil, false
			}
			for _, o := range outs {
				if in.isErr(o) != 0 {
					f.fail(o.St, c.name)
				}
			}
			return outs, true
		}
		x.count("methods", 1)
		x.guard(in, fn.String(), func() {
			if fn == setup {
				st := in.enter()
				args := in.lazyArgs(st, fn)
				st.assumeEq(args[0].(VPtr).Nil, k0)
				in.callFn(st, fn, args, nil)
				return
			}
			for _, name := range []string{"interleaved", "layers", "ttl", "port", "client_port", "server_port"} {
				for _, tail := range []string{"", ";append", ";mode=PLAY;source=here", ";ttl=1;port=4-5;layers=2"} {
					for kind := 0; kind < 2; kind++ {
						st := in.enter()
						text := cat(in, st, "RTP/AVP;unicast;", name, "=", in.aWord(st, "value"))
						if kind == 1 {
							text = cat(in, st, text, "-", in.aWord(st, "second"))
						}
						to := x.object(in, st, rtspPkg, "Transport", nil)
						in.store(st, to.Obj, to.Path, zero(x.typ(rtspPkg, "Transport")))
						in.callM(st, fn, to, cat(in, st, text, tail))
					}
				}
			}
		})
		x.collect(in, func(o *Obligation) bool { return o.Rule == "analysable" })
	}
}

// faultyBits decides parsers of parameter sets and methods of the bit reader.
func (x *ctx) faultyBits() {
	bits := x.methods("net/h264", "BitReader")
	type top struct {
		fn   *ssa.Function
		sets bool
	}
	var tops []top
	for _, m := range []string{"ParseSPS", "ParsePPS", "ParseSprop"} {
		tops = append(tops, top{x.method("net/h264", "ParameterSets", m), true})
	}
	for _, m := range bits {
		r := m.Signature.Results()
		if r.Len() > 0 && r.At(r.Len()-1).Type().String() == "error" {
			tops = append(tops, top{m, false})
		}
	}
	// Results that accompany an error matter to callers that look at them first.
	zeros := map[string]bool{}
	run := func(t top, f *faults, in *Interp, end func(outs []Outcome)) {
		in.noPanics = true
		in.h.Call = func(c *callCtx) ([]Outcome, bool) {
			if c.fn == nil || len(c.st.Frames) == 0 {
				return nil, false
			}
			name := c.fn.RelString(nil)
			if name == modulePath+"/net/h264.EBSPToRaw" {
				return one(c.st, in.freshVal(c.st, c.sig.Results().At(0).Type(), "raw")), true
			}
			if t.sets && t.fn.Name() == "ParseSprop" && (c.fn.Name() == "ParseSPS" || c.fn.Name() == "ParsePPS") || strings.HasPrefix(name, "(*"+modulePath+"/net/h264.BitReader).") && c.fn.Object() != nil && c.fn.Object().Exported() {
				res := c.sig.Results()
				mk := func(st *State, nought bool) []Value {
					var r []Value
					for i := 0; i < res.Len(); i++ {
						switch t := res.At(i).Type(); {
						case t.String() == "error":
						case nought:
							r = append(r, zero(t))
						default:
							r = append(r, in.freshVal(st, t, "read"))
						}
					}
					return r
				}
				if res.Len() == 0 || res.At(res.Len()-1).Type().String() != "error" {
					return one(c.st, mk(c.st, false)...), true
				}
				bad := c.st.clone()
				if f != nil {
					f.fail(bad, name)
				}
				return []Outcome{{bad, append(mk(bad, zeros[name]), VIface{Nil: k0, ID: in.freshID("readerr")})}, {c.st, append(mk(c.st, false), nilErr)}}, true
			}
			return nil, false
		}
		x.guard(in, t.fn.String(), func() {
			if t.sets {
				for _, st := range x.sets(in) {
					args := in.lazyArgs(st, t.fn)
					args[0] = st.Ghost["self"]
					end(in.callFn(st, t.fn, args, nil))
				}
				return
			}
			st := in.enter()
			args := in.lazyArgs(st, t.fn)
			st.assumeEq(args[0].(VPtr).Nil, k0)
			end(in.callFn(st, t.fn, args, nil))
		})
	}
	for _, t := range tops {
		if t.fn == nil {
			return
		}
	}
	for round := 0; round < 3; round++ {
		for _, t := range tops {
			if t.sets {
				continue
			}
			all := true
			in := x.interp()
			run(t, nil, in, func(outs []Outcome) {
				for _, o := range outs {
					if in.isErr(o) == 0 {
						continue
					}
					for _, v := range o.Ret[:len(o.Ret)-1] {
						i, ok := v.(VInt)
						all = all && ok && o.St.isEq(i.L, k0)
					}
				}
			})
			zeros[t.fn.RelString(nil)] = all
		}
	}
	for _, t := range tops {
		in := x.interp()
		f := x.faults(in)
		f.all = true
		x.count("methods", 1)
		run(t, f, in, func(outs []Outcome) { x.count("outcomes", len(outs)) })
		x.collect(in, func(o *Obligation) bool { return o.Rule == "analysable" })
	}
}

// faultySink decides the sink on arbitrary payloads.
func (x *ctx) faultySink() {
}

func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(s.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Byte
}
