package main

import (
	"fmt"
	"sort"
	"strings"
)

func init() {
	register(&check{id: "C28", rule: "abstract interpretation of the session's commands and of its receive loop on a model of network and peer: along each of the listed histories every request that is no retransmission has a number larger than all before, which is the number of the response that it takes as its own; with the counter replaced by any value the next two commands have increasing numbers; at every write of a request to the network the receive loop, started in that very state on a response with the number written, accepts it",
		min: map[string]int{"histories": 60, "writes": 100, "commands with any counter": 30}, run: runC28})
	register(&check{id: "C42", rule: "abstract interpretation of the session's commands and of its receive loop on a model of network and peer: after a response to any outstanding request of each of the listed histories has assigned a session id (any word, with and without parameters), every PLAY, PAUSE and TEARDOWN that is written, retransmissions included, carries exactly that id, until another is assigned",
		min: map[string]int{"histories": 60, "requests with id": 300}, run: runC42})
}

// alone runs the receive loop from the state where it is while nothing else happens; a probe tells what it has done.
func (s *sess) alone(st *State, probe func(st *State)) {
	parked, script, onWrite := s.parked, s.script, s.onWrite
	s.parked, s.script, s.onWrite = probe, nil, nil
	stack := s.in.stack
	st.Frames, s.in.stack = nil, nil
	for _, o := range s.receive(st, 0) {
		probe(o.St)
	}
	s.in.stack = stack
	s.parked, s.script, s.onWrite = parked, script, onWrite
}

// accepts tells whether a response with a number is taken as an answer: its session id is used from then on.
func (s *sess) accepts(st *State, number VStr) (bool, int) {
	in := s.in
	all, n := true, 0
	t := st.clone()
	t.setGhost("in", VStr{})
	t.setMode("end", "")
	t.setMode("pc", "0")
	s.reply(t, 200, number, "Session: ", in.aWord(t, "probe"), "\r\n")
	s.alone(t, func(st *State) {
		n++
		have := len(s.reqs(st))
		for _, o := range s.command(st.clone(), "Play") {
			for _, q := range s.reqs(o.St)[have:] {
				if v, ok := q.headers["Session"]; !ok || in.ropeText(o.St, v) != in.ropeText(o.St, in.aWord(o.St, "probe")) {
					all = false
				}
			}
		}
	})
	return all && n > 0, n
}

// counters lists numbers that a command changes.
func (s *sess) counters(st *State) map[ObjID][]Path {
	in := s.in
	r := map[ObjID][]Path{}
	in.quiet++
	defer func() { in.quiet-- }()
	for _, o := range s.command(st.clone(), "Play") {
		var diff func(obj ObjID, p Path, a, b Value)
		diff = func(obj ObjID, p Path, a, b Value) {
			switch u := a.(type) {
			case VInt:
				if w, ok := b.(VInt); ok && !st.isEq(u.L, w.L) {
					r[obj] = append(r[obj], p)
				}
			case VStruct:
				if w, ok := b.(VStruct); ok && len(w.F) == len(u.F) {
					for i := range u.F {
						diff(obj, append(append(Path(nil), p...), Path{}.field(i)...), u.F[i], w.F[i])
					}
				}
			}
		}
		for obj, a := range st.Heap {
			if b, ok := o.St.Heap[obj]; ok {
				diff(obj, nil, a, b)
			}
		}
	}
	return r
}

func runC28(x *ctx) {
	s := x.client()
	if s == nil {
		return
	}
	in := s.in
	x.guard(in, "requests", func() {
		for _, proto := range allProtos {
			for _, p := range s.situations(proto, 2) {
				x.count("histories", 1)
				s.onWrite = func(st *State, c *callCtx, conn int, text VStr) {
					if in.quiet > 0 || len(text.S) == 0 || counter(st, "go") == 0 {
						return
					}
					t := st.clone()
					push(t, "out", VTuple{[]Value{intk(int64(conn)), text}})
					all := s.reqs(t)
					if len(all) == len(s.reqs(st)) {
						return
					}
					q := all[len(all)-1]
					x.count("writes", 1)
					ok, _ := s.accepts(st, q.headers["CSeq"])
					x.must(ok, "tracked "+q.verb, "when %s is written to the network, a response to it would not be accepted (%s)", q.verb, p.name)
				}
				s.play(p, []step{s.do("Play"), s.do("Describe"), s.do("Options"), s.do("Pause"), s.do("Setup"), s.do("Teardown")}, func(st *State) {
					if !x.must(st.Mode["pc"] == fmt.Sprint(len(s.script)), "history "+p.name, "session does not get to the state: %s", p.name) {
						return
					}
					challenged := strings.Split(st.Mode["challenges"], ",")
					max := 0
					for _, q := range s.reqs(st) {
						n := s.cseq(st, q)
						if n > max {
							max = n
							continue
						}
						known := false
						for i, c := range challenged {
							if c == fmt.Sprint(n) {
								known = true
								challenged[i] = ""
								break
							}
						}
						x.must(known, "number of "+q.verb, "%s is sent with CSeq %d after a request with CSeq %d (%s)", q.verb, n, max, p.name)
					}
				})
				s.onWrite = nil
			}
		}
		// Any number of commands may have been issued.
		s.play(situation{"ready", protoTCP, s.find(protoTCP, 2, "ready").script}, nil, func(st *State) {
			objs := s.counters(st)
			n := 0
			var ids []int
			for o := range objs {
				ids = append(ids, int(o))
			}
			sort.Ints(ids)
			for _, o := range ids {
				for _, p := range objs[ObjID(o)] {
					n++
					old := num(in.load(st, ObjID(o), p))
					v := in.freshInt("counter", 0, 1<<31-100)
					st.assumeLe(old, v)
					in.store(st, ObjID(o), p, VInt{v})
				}
			}
			x.must(n > 0, "counter", "the counter of requests cannot be found")
			have := len(s.reqs(st))
			for _, a := range commandNames[:6] {
				for _, b := range commandNames[:6] {
					for _, o := range s.command(st.clone(), a) {
						for _, q := range s.command(o.St, b) {
							x.count("commands with any counter", 1)
							var last Lin
							for i, r := range s.reqs(q.St)[have:] {
								v := r.headers["CSeq"]
								if !x.must(len(v.S) == 1 && v.S[0].Kind == SFn && v.S[0].ID == "dec", "counter", "number of %s is %s", r.verb, in.ropeText(q.St, v)) {
									return
								}
								k := num(v.S[0].Args[0])
								if i > 0 {
									x.must(q.St.isLt(last, k), "counter", "number %s of %s follows %s", q.St.norm(k), r.verb, q.St.norm(last))
								}
								last = k
								ok, _ := s.accepts(q.St, v)
								x.must(ok, "counter", "a response to %s with number %s is not accepted", r.verb, q.St.norm(k))
							}
						}
					}
				}
			}
		})
	})
	s.finish()
}

func (s *sess) find(proto, k int, name string) situation {
	for _, p := range s.situations(proto, k) {
		if p.name == name {
			return p
		}
	}
	panic("no situation " + name)
}

func runC42(x *ctx) {
	s := x.client()
	if s == nil {
		return
	}
	in := s.in
	id := func(st *State) VStr { return cat(in, st, in.aWord(st, "id1"), "-", in.aWord(st, "id2")) }
	x.guard(in, "requests", func() {
		for _, proto := range allProtos {
			for _, p := range s.situations(proto, 2) {
				for _, params := range []string{"", ";timeout=60", "; timeout=60;a=b"} {
					for _, verb := range []string{"OPTIONS", "DESCRIBE", "SETUP", "PLAY", "PAUSE", "TEARDOWN"} {
						x.count("histories", 1)
						more := []step{
							func(st *State) []*State {
								// Only requests that are outstanding can be answered.
								for _, q := range s.unanswered(st) {
									if q.verb == verb {
										st.setMode("assigned", fmt.Sprint(len(s.reqs(st))))
										return s.answer(verb, 200, "Session: ", id(st), params, "\r\n", s.transport(st, proto, 1))(st)
									}
								}
								return nil
							},
							s.do("Play"), s.answer("PLAY", 200), s.do("Pause"), s.auth("PAUSE", 5), s.do("Teardown"), s.do("Play"),
						}
						s.playAny(p, more, func(st *State) {
							n, ok := st.Mode["assigned"]
							if !ok {
								return
							}
							if !x.must(st.Mode["pc"] == fmt.Sprint(len(s.script)), "history "+p.name, "session does not get to the end: %s, then %s", p.name, verb) {
								return
							}
							for _, q := range s.reqs(st)[atoi(n):] {
								switch q.verb {
								case "PLAY", "PAUSE", "TEARDOWN":
									x.count("requests with id", 1)
									v, ok := q.headers["Session"]
									x.must(ok && in.ropeText(st, v) == in.ropeText(st, id(st)), "id in "+q.verb, "%s carries session id %s, it should be %s (%s, then %s)", q.verb, in.ropeText(st, v), in.ropeText(st, id(st)), p.name, verb)
								}
							}
						})
					}
				}
			}
		}
	})
	s.finish()
}
