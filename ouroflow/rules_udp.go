package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&check{id: "C39", rule: "abstract interpretation of dialling, adding of UDP sinks, starting, the functions run in the background and stopping, on a model of sockets and channels: a receiver delivers each datagram with the channel number of its sink and the bytes read, goes on after a timeout and ends after a failure; stopping performs no channel operation that needs a partner, and after it each receiver ends, whether it is reading, has a datagram nobody takes or has ended before; stopping twice closes no channel twice",
		min: map[string]int{"receivers": 18, "stops": 20}, run: runC39})
	register(&check{id: "C47", rule: "abstract interpretation of the session's receive loop on a model of network and peer: for 1 to 3 feeds, SETUP answers in each order, accepted or refused: sockets are opened exactly on the two ports that the request of each accepted feed announces as client_port (or the answer as multicast port), and the receiver of each socket delivers on a channel that no other has, even for the first and the next odd one for the second port",
		min: map[string]int{"histories": 20, "sockets": 60}, run: runC47})
}

// dial opens a connection; it is kept in ghost "self".
func (w *world) dial(fn *ssa.Function, proto int) []Outcome {
	in := w.in
	st := in.enter()
	uri := cat(in, st, "rtsp://", in.aWord(st, "user"), ":", in.aWord(st, "password"), "@", in.aWord(st, "host"), "/", in.aWord(st, "path"))
	var r []Outcome
	for _, o := range in.callFn(st, fn, []Value{uri, intk(int64(proto))}, nil) {
		if in.isErr(o) == 1 || o.St.C.bot {
			continue
		}
		o.St.setGhost("self", o.Ret[0])
		if ch, ok := in.get(o.St, o.Ret[0], "Data").(VChan); ok {
			o.St.setMode("datach", ch.ID)
		}
		r = append(r, o)
	}
	return r
}

// background runs a function that has been started; states in which it ends or waits are passed on.
func (w *world) background(st *State, n int, end func(st *State, ended bool)) {
	in := w.in
	g, ok := st.Ghost[fmt.Sprintf("go%d", n)].(VTuple)
	if !w.x.must(ok, "receiver", "no receiver is started") {
		return
	}
	f := g.V[0].(VFunc)
	parked, stack := w.parked, in.stack
	st = st.clone()
	st.Frames, in.stack = nil, nil
	st.setMode("dg", "0")
	w.parked = func(st *State) { end(st, false) }
	for _, o := range in.callValue(st, f, g.V[1:], nil, f.Fn.Signature) {
		if !o.St.C.bot {
			end(o.St, true)
		}
	}
	w.parked, in.stack = parked, stack
}

func runC39(x *ctx) {
	in := x.interp()
	w := x.newWorld(in)
	w.user = true
	w.udp = true
	dial := x.fn(rtspPkg, "Dial")
	add, start, stop := x.method(rtspPkg, "Conn", "AddSink"), x.method(rtspPkg, "Conn", "Start"), x.method(rtspPkg, "Conn", "Stop")
	if dial == nil || add == nil || start == nil || stop == nil {
		return
	}
	// one sink or two with any channel and port
	setup := func(n int, f func(st *State, ch []Lin)) {
		for _, o := range w.dial(dial, protoUnicast) {
			states := []*State{o.St}
			var ch []Lin
			for i := 0; i < n; i++ {
				c, p := in.freshInt("channel", 0, 255), in.freshInt("port", 0, 65535)
				ch = append(ch, c)
				var next []*State
				for _, st := range states {
					for _, o := range in.callM(st, add, st.Ghost["self"], VInt{c}, VInt{p}) {
						if in.isErr(o) != 1 {
							next = append(next, o.St)
						}
					}
				}
				states = next
			}
			for _, st := range states {
				for _, o := range in.callM(st, start, st.Ghost["self"]) {
					f(o.St, ch)
				}
			}
		}
	}
	closedTwice := func(st *State) string {
		for k, v := range st.Mode {
			if strings.HasPrefix(k, "chclosed:") && atoi(v) > 1 {
				return k
			}
		}
		return ""
	}
	doStop := func(st *State, key string, f func(st *State)) {
		n := 0
		st = st.clone()
		st.Frames = nil
		w.single = true
		outs := in.callM(st, stop, st.Ghost["self"])
		w.single = false
		for _, o := range outs {
			if o.St.C.bot {
				continue
			}
			n++
			x.must(closedTwice(o.St) == "", key, "stopping closes a channel twice (%s)", key)
			f(o.St)
		}
		x.must(n > 0, key, "stopping waits for a receiver (%s)", key)
	}
	x.guard(in, "receivers", func() {
		setups := 0
		for _, n := range []int{1, 2} {
			setup(n, func(st *State, ch []Lin) {
				setups++
				if !x.must(counter(st, "go") == n, "receivers", "%d receivers are started for %d sinks", counter(st, "go"), n) {
					return
				}
				sockets := map[int]bool{}
				for i := 0; i < n; i++ {
					// Deliveries.
					for _, seq := range [][]string{{"data"}, {"data", "data", "data"}, {"timeout", "data"}, {"data", "timeout", "timeout", "data"}, {"data", "failure"}, {"failure"}} {
						name := strings.Join(seq, ", ")
						want := strings.Count(name, "data")
						socket := -1
						w.onRead = func(st *State, c *callCtx, n int) { socket = n }
						w.dgrams = seq
						x.count("receivers", 1)
						runs := 0
						key := "delivery " + name
						w.background(st, i, func(t *State, ended bool) {
							runs++
							x.must(ended == strings.Contains(name, "failure"), key, "receiver %s upon %s", map[bool]string{true: "ends", false: "does not end"}[ended], name)
							got, dg := items(t, "data"), items(t, "dgram")
							if !x.must(len(got) == want && len(dg) == want, key, "%d packets are delivered upon %s", len(got), name) {
								return
							}
							for j, g := range got {
								x.sameInt(t, in.get(t, g, "Channel"), ch[socket-1], key, "channel of a packet")
								b := VStr{in.bytesOf(t, in.get(t, g, "Payload"))}
								x.must(in.sameVal(t, b, dg[j]), key, "a packet contains %s, its datagram %s", t.segsString(b.S), t.segsString(str(dg[j]).S))
							}
						})
						w.onRead = nil
						x.must(runs > 0, key, "receiver waits for something else than a datagram (%s)", name)
						sockets[socket] = true
					}
					// Stopped at any time.
					x.count("stops", 1)
					doStop(st, "stop", func(t *State) {
						for _, full := range []bool{false, true} {
							for _, seq := range [][]string{{}, {"data"}, {"timeout"}} {
								key := fmt.Sprintf("stopped while reading (%s)", strings.Join(seq, ", "))
								if full {
									key += " without a consumer"
								}
								w.dgrams, w.full = seq, full
								runs := 0
								x.count("stops", 1)
								w.background(t, i, func(u *State, ended bool) {
									runs++
									x.must(ended, key, "receiver does not end when %s", key)
									if ended {
										x.must(closedTwice(u) == "", key, "a channel is closed twice when %s", key)
									}
								})
								w.full = false
								x.must(runs > 0, key, "receiver waits forever when %s", key)
							}
						}
						x.count("stops", 1)
						doStop(t, "stop twice", func(*State) {})
					})
					// It has ended before.
					w.dgrams = []string{"failure"}
					w.background(st, i, func(t *State, ended bool) {
						if ended {
							x.count("stops", 1)
							doStop(t, "stop after end", func(t *State) {
								for j := 0; j < n; j++ {
									if j != i {
										w.dgrams = nil
										w.background(t, j, func(u *State, ended bool) {
											x.must(ended, "stop after end", "receiver does not end when another one has failed before stopping")
										})
									}
								}
							})
						}
					})
				}
				x.must(len(sockets) == n, "sockets", "%d receivers read from %d sockets", n, len(sockets))
			})
		}
		x.must(setups > 0, "setup", "no sink can be added and started")
	})
	(&sess{world: w}).finish()
}

func runC47(x *ctx) {
	s := x.client()
	if s == nil {
		return
	}
	in := s.in
	s.udp = true
	perms := map[int][][]int{1: {{0}}, 2: {{0, 1}, {1, 0}}, 3: {{0, 1, 2}, {2, 1, 0}, {1, 2, 0}}}
	x.guard(in, "sockets", func() {
		for _, servers := range []string{"", "none", "low", "high", "same", "silent", "multicast"} {
			s.servers = servers
			proto := protoUnicast
			if servers == "multicast" {
				proto = protoMulticast
			}
			for k := 1; k <= 3; k++ {
				for _, order := range perms[k] {
					for mask := 0; mask < 1<<k; mask++ {
						name := fmt.Sprintf("%d feeds, answered in order %v, accepted %03b", k, order, mask)
						if servers != "" {
							name += ", " + servers
						}
						ports := map[string]bool{}
						var first, second []string
						prepare := event(func(st *State) {
							ports, first, second = map[string]bool{}, nil, nil
							i := 0
							for _, q := range s.reqs(st) {
								if q.verb != "SETUP" {
									continue
								}
								a, b := 3456+4*i, 3459+4*i
								if proto == protoUnicast {
									t := in.ropeText(st, q.headers["Transport"])
									_, t, _ = strings.Cut(t, "client_port=")
									if _, err := fmt.Sscanf(t, "%d-%d", &a, &b); !x.must(err == nil, "client_port", "SETUP does not announce client ports: %s", in.ropeText(st, q.headers["Transport"])) {
										return
									}
								}
								if mask>>i&1 == 1 {
									ports[fmt.Sprint(a)], ports[fmt.Sprint(b)] = true, true
									first, second = append(first, fmt.Sprint(a)), append(second, fmt.Sprint(b))
								}
								i++
							}
							x.must(i == k, "SETUP", "%d SETUP requests for %d feeds", i, k)
						})
						script := append([]step(nil), s.find(proto, k, "setups outstanding").script...)
						script = append(script, prepare)
						done := map[int]bool{}
						for _, i := range order {
							nth := 0
							for j := 0; j < i; j++ {
								if !done[j] {
									nth++
								}
							}
							done[i] = true
							if mask>>i&1 == 0 {
								script = append(script, s.answer(fmt.Sprintf("SETUP/%d", nth), 461))
								continue
							}
							i := i
							script = append(script, event(func(st *State) {
								_, n := s.outstanding(st, fmt.Sprintf("SETUP/%d", nth))
								st.setMode("answers", st.Mode["answers"]+","+fmt.Sprint(n))
								s.reply(st, 200, n, "Session: 1;timeout=9\r\n", s.offered(st, proto, i, n))
							}))
						}
						x.count("histories", 1)
						s.play(situation{name, proto, script}, nil, func(st *State) {
							if !x.must(st.Mode["pc"] == fmt.Sprint(len(s.script)) && st.Mode["ended"] == "", "history "+name, "receiving ends: %s", name) {
								return
							}
							got := map[string]int{}
							for i, c := range items(st, "conn") {
								if p, ok := c.(VPtr); !ok || in.objs[p.Obj].Name != "udp" {
									continue
								}
								n, _ := st.konst(num(st.Ghost[fmt.Sprintf("port%d", i)]))
								got[fmt.Sprint(n)] = i
								x.count("sockets", 1)
								x.must(ports[fmt.Sprint(n)], "port", "the client listens on port %d that belongs to no accepted feed (%s)", n, name)
								x.must(st.Mode[fmt.Sprintf("closed%d", i)] == "0", "port", "the socket of port %d is closed (%s)", n, name)
							}
							x.must(len(got) == len(ports), "port", "the client listens on %d ports, %d have been agreed upon (%s)", len(got), len(ports), name)
							// channels by socket
							ch := map[int]int64{}
							s.dgrams = []string{"data"}
							for g := 1; g < counter(st, "go"); g++ {
								socket := -1
								s.onRead = func(st *State, c *callCtx, n int) { socket = n }
								s.background(st, g, func(t *State, ended bool) {
									for _, d := range items(t, "data")[counter(st, "data"):] {
										v, ok := t.konst(num(in.get(t, d, "Channel")))
										if x.must(ok, "channel", "channel of a receiver cannot be determined") {
											ch[socket] = v
										}
									}
								})
								s.onRead = nil
							}
							used := map[int64]bool{}
							for i, p := range first {
								a, ok1 := ch[got[p]]
								b, ok2 := ch[got[second[i]]]
								if !x.must(ok1 && ok2, "receiver", "nothing is received on port %s or the next one (%s)", p, name) {
									continue
								}
								x.must(a%2 == 0 && b == a+1, "channel", "packets from port %s are delivered on channel %d, those from the next one on %d (%s)", p, a, b, name)
								x.must(!used[a], "channel", "channel %d is used for two feeds (%s)", a, name)
								used[a] = true
							}
						})
					}
				}
			}
		}
	})
	s.finish()
}

// server is what a SETUP response tells about ports of the server.
func (s *sess) server(k int) string {
	switch s.servers {
	case "none":
		return ""
	case "low":
		return pf(";server_port=%d-%d", 2+2*k, 3+2*k)
	case "high":
		return pf(";server_port=%d-%d;ssrc=1234ABCD", 65534-2*k, 65535-2*k)
	case "same":
		return pf(";server_port=%d-%d;source=10.0.0.1", 8000, 8001)
	}
	return pf(";server_port=%d-%d", 3456+2*k, 3457+2*k)
}

// offered is the transport of a SETUP response that repeats what the request has offered.
func (s *sess) offered(st *State, proto, k, n int) VStr {
	if proto != protoUnicast {
		return strConst(pf("Transport: RTP/AVP;multicast;destination=224.1.1.1;port=%d-%d;ttl=9\r\n", 3456+4*k, 3459+4*k))
	}
	for _, q := range s.reqs(st) {
		if q.verb == "SETUP" && s.cseq(st, q) == n {
			t := s.in.ropeText(st, q.headers["Transport"])
			_, t, _ = strings.Cut(t, "client_port=")
			t, _, _ = strings.Cut(t, ";")
			if s.servers == "silent" {
				return strConst("Transport: RTP/AVP/UDP;unicast;server_port=40000-40001;mode=play\r\n")
			}
			return strConst(pf("Transport: RTP/AVP;unicast;client_port=%s%s\r\n", t, s.server(k)))
		}
	}
	return VStr{}
}
