package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register(&check{id: "C31", rule: "abstract interpretation of dialling, of every exported method of the connection (timeout: any positive value) and of the receive loop and the commands along the listed histories, on a model of network and clock: at every operation that reads from or writes to the RTSP connection and is not covered by what is already buffered, the deadline of that connection and direction has been set, since the caller asked or since a message was last complete, to the current time plus the timeout",
		min: map[string]int{"methods": 6, "operations": 200, "histories": 40}, run: runC31})
	register(&check{id: "C32", rule: "abstract interpretation of dialling with every failure of its operations and several kinds of replies: every connection opened is closed when the result is an error and open otherwise; and of the receive loop from each of the listed histories until it ends by end of stream, malformed, unmatched or refused responses, failing writes or sockets: every TCP connection is closed then, every receiver started ends, and every UDP socket is closed by then",
		min: map[string]int{"failures of dialling": 6, "ends": 200, "receivers": 20}, run: runC32})
	register(&check{id: "C33", rule: "abstract interpretation of dialling and of the session along the listed histories with Digest and Basic challenges, with the password as a symbolic word: no argument of a call that writes to the log or to standard output, and no error returned by opening, formats to text that contains that word, even hashed or encoded, or shows the user information of a URL or an error of URL parsing; in what is written to the network the word occurs only within an Authorization header; request lines and HTTP requests contain no user information",
		min: map[string]int{"histories": 80, "log calls": 100, "requests": 200}, run: runC33})
	register(&check{id: "C46", rule: "abstract interpretation of Options, Describe, Play, Pause and Teardown, and of Setup and KeepAlive, on a session that has not been opened and on one whose opening has failed: each call returns on every path, without a panic, the first five with an error",
		min: map[string]int{"calls": 14}, run: runC46})
}

func runC31(x *ctx) {
	// Exported methods of the connection.
	in := x.interp()
	w := x.newWorld(in)
	w.user = true
	dial := x.fn(rtspPkg, "Dial")
	ct := x.typ(rtspPkg, "Conn")
	if dial == nil || ct == nil {
		return
	}
	var fi = fieldIndex(ct, "Timeout")
	if !x.must(fi >= 0, "Timeout", "there is no field Timeout") {
		return
	}
	where := ""
	watch := func(w *world) {
		w.onRead = func(st *State, c *callCtx, n int) {
			if n < 0 || st.Mode[fmt.Sprintf("kind%d", n)] != "tcp" {
				return
			}
			x.count("operations", 1)
			x.must(st.Mode[fmt.Sprintf("rd%d", n)] == "1", "read in "+where, "%s reads without a deadline (%s)", c.name, where)
		}
		w.onWrite = func(st *State, c *callCtx, n int, text VStr) {
			x.count("operations", 1)
			x.must(st.Mode[fmt.Sprintf("wd%d", n)] == "1", "write in "+where, "%s writes without a deadline (%s)", c.name, where)
		}
	}
	watch(w)
	x.guard(in, "methods", func() {
		for _, proto := range []int{protoTCP, protoHTTP} {
			where = "Dial"
			w.script = []step{event(func(st *State) { w.feed(st, "HTTP/1.0 200 OK\r\nContent-Type: application/x-rtsp-tunnelled\r\n\r\n") })}
			n := 0
			for _, o := range w.dial(dial, proto) {
				n++
				for _, m := range x.methods(rtspPkg, "Conn") {
					sig := m.Signature
					if sig.Recv() == nil || m.Name() == "AddSink" || m.Name() == "Start" || m.Name() == "Stop" {
						continue
					}
					for calls := 0; calls < 2; calls++ {
						where = m.Name()
						x.count("methods", 1)
						st := o.St.clone()
						t := in.freshInt("timeout", 1, 1<<62)
						p := st.Ghost["self"].(VPtr)
						in.store(st, p.Obj, p.Path.field(fi), VInt{t})
						st.setGhost("timeout", VInt{t})
						w.script = nil
						w.feed(st, "some text\r\n", in.aWord(st, "text"), "\n", strings.Repeat("0123456789", 10), "\n")
						states := []*State{st}
						for k := 0; k <= calls; k++ {
							var next []*State
							for _, st := range states {
								for i := range items(st, "conn") {
									st.setMode(fmt.Sprintf("rd%d", i), "0")
									st.setMode(fmt.Sprintf("wd%d", i), "0")
								}
								st.setGhost("peeked", nil)
								args := []Value{}
								for i := 0; i < sig.Params().Len(); i++ {
									pt := sig.Params().At(i).Type()
									switch u := under(pt).(type) {
									case *types.Basic:
										if u.Info()&types.IsInteger != 0 {
											args = append(args, intk(5))
											continue
										}
									case *types.Slice:
										if b, ok := under(u.Elem()).(*types.Basic); ok && b.Kind() == types.Byte {
											args = append(args, in.newSlice(st, types.Typ[types.Byte], strConst("request").S, nil))
											continue
										}
									}
									args = append(args, in.arg(st, pt, m.Name()+".arg"))
								}
								for _, q := range in.callM(st, m, st.Ghost["self"], args...) {
									next = append(next, q.St)
								}
							}
							x.must(len(next) > 0, "method "+where, "%s cannot be analysed", where)
							states = next
						}
					}
				}
			}
			x.must(n > 0, "dial", "the connection cannot be opened")
		}
	})
	(&sess{world: w}).finish()
	// Sessions.
	s := x.client()
	if s == nil {
		return
	}
	s.stale = true
	watch(s.world)
	command := func(name string) step {
		return func(st *State) []*State {
			for i := range items(st, "conn") {
				st.setMode(fmt.Sprintf("wd%d", i), "0")
			}
			return s.do(name)(st)
		}
	}
	x.guard(s.in, "histories", func() {
		for _, proto := range allProtos {
			for _, p := range s.situations(proto, 2) {
				x.count("histories", 1)
				where = p.name
				s.play(p, []step{command("Options"), command("Describe"), command("Setup"), command("Play"), command("Pause"), command("Teardown"), event(func(st *State) {
					_, text := s.frame(st, "frame")
					s.feed(st, text)
				}), event(func(st *State) {
					u := s.unanswered(st)
					body := "v=0\r\nm=audio 0 RTP/AVP 96\r\n"
					s.reply(st, 200, s.cseq(st, u[len(u)-1]), pf("Content-Length: %d\r\n", len(body)))
					s.feed(st, body)
				})}, func(st *State) {
					x.must(st.Mode["pc"] == fmt.Sprint(len(s.script)), "history "+p.name, "session does not get to the state: %s", p.name)
				})
			}
		}
	})
	s.finish()
}

// openConns lists connections of a kind that are not closed.
func openConns(in *Interp, st *State, kind string) []int {
	var r []int
	for i, c := range items(st, "conn") {
		if p, ok := c.(VPtr); ok && (kind == "" || in.objs[p.Obj].Name == kind) && counter(st, fmt.Sprintf("closed%d", i)) == 0 {
			r = append(r, i)
		}
	}
	return r
}

func runC32(x *ctx) {
	in := x.interp()
	w := x.newWorld(in)
	w.user, w.fails = true, true
	dial := x.fn(rtspPkg, "Dial")
	if dial == nil {
		return
	}
	replies := []string{"", "HTTP/1.0 200 OK\r\nContent-Type: application/x-rtsp-tunnelled\r\n\r\n", "HTTP/1.0 404 Not Found\r\n\r\n", "RTSP/1.0 200 OK\r\n\r\n", "garbage\r\n", "HTTP/1.0 x OK\r\n\r\n",
		"HTTP/1.0 200 OK\r\nmalformed\r\n\r\n", "HTTP/1.0 200 OK\r\nContent-Type: appli", "HTTP/1.0 200"}
	x.guard(in, "dialling", func() {
		for _, proto := range []int{protoTCP, protoUnicast, protoHTTP} {
			for _, r := range replies {
				for _, end := range []string{"eof", "stall"} {
					if proto != protoHTTP && r != "" {
						continue
					}
					w.script = []step{event(func(st *State) {
						w.feed(st, r)
						st.setMode("end", end)
					})}
					st := in.enter()
					uri := cat(in, st, "rtsp://", in.aWord(st, "user"), ":", in.aWord(st, "password"), "@", in.aWord(st, "host"), "/", in.aWord(st, "path"))
					good, bad := 0, 0
					for _, o := range in.callFn(st, dial, []Value{uri, intk(int64(proto))}, nil) {
						if o.St.C.bot {
							continue
						}
						key := fmt.Sprintf("dial %d %q", proto, r)
						switch in.isErr(o) {
						case 1:
							bad++
							x.count("failures of dialling", 1)
							x.must(len(openConns(in, o.St, "")) == 0, key, "a connection stays open when dialling fails (reply %q, then %s)", r, end)
						case 0:
							good++
							x.must(len(openConns(in, o.St, "")) == counter(o.St, "conn") && counter(o.St, "conn") > 0, key, "a connection is closed although dialling succeeds (reply %q)", r)
						default:
							x.must(false, key, "result of dialling cannot be determined")
						}
					}
					x.must(bad > 0, "dial", "dialling never fails")
					x.must(good > 0 || proto == protoHTTP && r != replies[1], "dial", "dialling never succeeds")
				}
			}
		}
	})
	(&sess{world: w}).finish()
	s := x.client()
	if s == nil {
		return
	}
	s.udp = true
	ends := s.endings()
	x.guard(s.in, "ends", func() {
		for _, proto := range allProtos {
			for k := 1; k <= 2; k++ {
				for _, p := range s.situations(proto, k) {
					for _, e := range ends {
						key := fmt.Sprintf("end: %s", e.name)
						where := fmt.Sprintf("%s, then %s", p.name, e.name)
						s.udp = true
						eof := event(func(st *State) { st.setMode("end", "eof") })
						any := false
						s.playAny(p, []step{e.step, eof}, func(st *State) {
							s.udp = true
							any = true
							if !x.must(st.Mode["ended"] == "1", key, "receiving does not end (%s)", where) {
								return
							}
							x.count("ends", 1)
							x.must(len(openConns(s.in, st, "tcp")) == 0, key, "connection stays open when receiving ends (%s)", where)
							s.dgrams = nil
							states := []*State{st}
							for g := 1; g < counter(st, "go"); g++ {
								x.count("receivers", 1)
								var next []*State
								for _, t := range states {
									s.background(t, g, func(u *State, ended bool) {
										x.must(ended, key, "a receiver goes on when the session ends (%s)", where)
										next = append(next, u)
									})
								}
								x.must(len(next) > 0, key, "a receiver waits forever when the session ends (%s)", where)
								states = next
							}
							for _, t := range states {
								x.must(len(openConns(s.in, t, "udp")) == 0, key, "socket stays open when the session ends (%s)", where)
							}
						})
						s.udp = true
						x.must(any || e.maybe, "history "+p.name, "session does not get to the state: %s", p.name)
					}
				}
			}
		}
	})
	s.finish()
}

func runC33(x *ctx) {
	s := x.client()
	if s == nil {
		return
	}
	in := s.in
	s.secrets = true
	where := ""
	s.onLog = func(st *State, c *callCtx) {
		x.count("log calls", 1)
		for _, a := range c.args {
			for _, v := range s.elems(st, a) {
				x.must(!s.secret(st, v, 0), "log in "+c.caller(), "%s writes the password or what is derived from it (%s)", c.name, where)
			}
		}
	}
	requests := func(st *State) {
		check := func(line string, lone bool) {
			if strings.HasPrefix(line, "Authorization: ") && !lone {
				return
			}
			x.must(!strings.Contains(line, "word:password"), "password in request", "the password is sent in clear: %s (%s)", line, where)
			x.must(!strings.Contains(line, "word:user"), "user in request", "the user name is sent in clear: %s (%s)", line, where)
		}
		for _, v := range items(st, "out") {
			text := v.(VTuple).V[1].(VStr)
			if len(text.S) == 1 && text.S[0].Kind == SFn && text.S[0].ID == "base64" {
				text = str(text.S[0].Args[0])
			}
			x.count("requests", 1)
			for i, l := range strings.Split(in.ropeText(st, text), "\r\n") {
				check(l, i == 0)
			}
		}
	}
	commands := []step{s.do("Options"), s.do("Describe"), s.do("Setup"), s.do("Play"), s.do("Pause"), s.do("Teardown")}
	basic := func(st *State) []*State {
		u := s.unanswered(st)
		if len(u) == 0 {
			return nil
		}
		s.reply(st, 401, s.cseq(st, u[0]), "WWW-Authenticate: Basic realm=\"x\"\r\n")
		return []*State{st}
	}
	x.guard(in, "histories", func() {
		for _, proto := range allProtos {
			for _, p := range s.situations(proto, 1) {
				for _, kind := range []string{"digest", "basic", "none", "garbage"} {
					var more []step
					where = p.name
					switch kind {
					case "digest":
						more = append(more, func(st *State) []*State {
							u := s.unanswered(st)
							if len(u) == 0 {
								return nil
							}
							s.reply(st, 401, s.cseq(st, u[0]), s.challenge(st, 7))
							return []*State{st}
						})
					case "basic":
						more = append(more, basic)
					}
					more = append(more, commands...)
					if kind == "garbage" {
						more = append(more, event(func(st *State) { s.feed(st, "garbage\r\n") }))
					}
					x.count("histories", 1)
					s.playAny(p, more, func(st *State) {
						requests(st)
					})
				}
			}
			// Failures while opening.
			where = "opening fails"
			s.fails = true
			s.script = []step{event(func(st *State) { st.setMode("end", "eof") })}
			s.parked = nil
			for _, o := range s.start(proto) {
				requests(o.St)
				if in.isErr(o) != 0 {
					x.must(!s.secret(o.St, o.Ret[len(o.Ret)-1], 0), "error of opening", "the error of opening shows the URI with its credentials")
				}
			}
			s.fails = false
		}
	})
	s.finish()
}

func runC46(x *ctx) {
	for _, failed := range []bool{false, true} {
		s := x.client()
		if s == nil {
			return
		}
		in := s.in
		in.noPanics = false
		s.fails = true
		x.guard(in, "calls", func() {
			var states []*State
			if failed {
				s.script = []step{event(func(st *State) { st.setMode("end", "eof") })}
				for _, o := range s.start(protoHTTP) {
					if in.isErr(o) == 1 && !o.St.C.bot && counter(o.St, "go") == 0 {
						states = append(states, o.St)
					}
				}
			} else {
				for _, o := range in.callFn(in.enter(), s.ctor, nil, nil) {
					o.St.setGhost("self", o.Ret[0])
					states = append(states, o.St)
				}
			}
			x.must(len(states) > 0, "session", "no session can be made")
			for _, name := range commandNames {
				x.count("calls", 1)
				n := 0
				for _, st := range states {
					for _, o := range s.command(st.clone(), name) {
						if o.St.C.bot {
							continue
						}
						n++
						if name == "Setup" || name == "KeepAlive" {
							continue
						}
						x.must(in.isErr(o) == 1, name, "%s on a session that is not open reports success", name)
					}
				}
				x.must(n > 0, name, "%s on a session that is not open does not return", name)
			}
		})
		x.collect(in, func(o *Obligation) bool { return o.Rule != "rank" })
	}
}

// caller is the function that makes a call.
func (c *callCtx) caller() string {
	if c.ins != nil && c.ins.Parent() != nil {
		return c.ins.Parent().RelString(nil)
	}
	return "?"
}

// ending is something that makes receiving end.
type ending struct {
	name  string
	step  step
	maybe bool // whether histories may not allow it
}

// endings lists what makes receiving end.
func (s *sess) endings() []ending {
	feed := func(text string) step { return event(func(st *State) { s.feed(st, text) }) }
	stop := func(how string, text string) step {
		return event(func(st *State) {
			s.feed(st, text)
			st.setMode("end", how)
		})
	}
	last := func(status int, headers string) step {
		return func(st *State) []*State {
			u := s.unanswered(st)
			if len(u) == 0 {
				return nil
			}
			s.reply(st, status, s.cseq(st, u[0]), headers)
			return []*State{st}
		}
	}
	return []ending{
		{"the stream ends", stop("eof", ""), false},
		{"the stream ends within a frame", stop("eof", "$\x01\x00\x05ab"), false},
		{"the stream stalls within a frame", stop("stall", "$\x01\x00\x05ab"), false},
		{"the stream ends after the mark of a frame", stop("eof", "$"), false},
		{"the stream stalls after the mark of a frame", stop("stall", "$"), false},
		{"the stream ends within the length of a frame", stop("eof", "$\x01\x00"), false},
		{"the stream stalls within the length of a frame", stop("stall", "$\x01\x00"), false},
		{"the stream ends within a response", stop("eof", "RTSP/1.0 200 OK\r\nCS"), false},
		{"garbage arrives", feed("garbage\r\n"), false},
		{"another protocol is spoken", feed("HTTP/1.0 200 OK\r\n\r\n"), false},
		{"a malformed header arrives", feed("RTSP/1.0 200 OK\r\nmalformed\r\n\r\n"), false},
		{"a malformed status arrives", feed("RTSP/1.0 2x0 OK\r\n\r\n"), false},
		{"a response to nothing arrives", event(func(st *State) { s.reply(st, 200, 9999) }), false},
		{"a challenge without scheme arrives", last(401, "WWW-Authenticate: unknown\r\n"), true},
		{"a challenge is missing", last(401, ""), true},
		{"a malformed transport arrives", last(200, "Transport: RTP/AVP;ttl=x;port=1-y\r\n"), true},
		{"a write fails", func(st *State) []*State {
			st.setMode("failing", "1")
			return last(401, "WWW-Authenticate: Basic realm=\"x\"\r\n")(st)
		}, true},
		{"a write times out", func(st *State) []*State {
			st.setMode("failing", "timeout")
			return last(401, "WWW-Authenticate: Basic realm=\"x\"\r\n")(st)
		}, true},
		{"requests after a description time out", func(st *State) []*State {
			st.setMode("failing", "timeout")
			body := "v=0\r\nm=video 0 RTP/AVP 96\r\n"
			return last(200, pf("Content-Length: %d\r\n\r\n%s", len(body), body))(st)
		}, true},
		{"a description cannot be followed by requests", func(st *State) []*State {
			st.setMode("failing", "1")
			body := "v=0\r\nm=video 0 RTP/AVP 96\r\n"
			return last(200, pf("Content-Length: %d\r\n\r\n%s", len(body), body))(st)
		}, true},
		{"a socket cannot be opened", func(st *State) []*State {
			s.udp = false
			st.setMode("failing", "1")
			return last(200, s.transport(st, protoUnicast, 1))(st)
		}, true},
	}
}
