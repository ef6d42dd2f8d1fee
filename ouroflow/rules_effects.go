package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&check{id: "C25", rule: "abstract interpretation of the session's commands and of its receive loop on a model of network and peer: from each of the listed histories (every verb outstanding, challenged and answered, several requests outstanding, 1 to 3 feeds, each protocol) one response with any CSeq (symbolic, or missing, or malformed) and any status (symbolic) that carries session id, challenge, transport, methods and description; on every path on which its CSeq is not that of an unanswered request, nothing is written, announced, opened or delivered and every later command writes what it would have written without the response",
		min: map[string]int{"histories": 60, "responses that match nothing": 300, "responses that match": 100}, run: runC25})
	register(&check{id: "C26", rule: "abstract interpretation of the session's commands and of its receive loop on a model of network and peer: from each of the listed histories (every verb outstanding, challenged and answered, SETUPs of 1 to 3 feeds answered in different orders, each protocol) one response with any CSeq and any status (symbolic); on every path the values sent to the state channel are only those that the verb of the matching request, a status decided to be 200 (for SETUP: any) and the absence of other unanswered SETUPs allow",
		min: map[string]int{"histories": 60, "announcements": 60}, run: runC26})
	register(&check{id: "C27", rule: "abstract interpretation of the session's commands and of its receive loop on a model of network and peer: from each of the listed histories a response with status 401 to any outstanding request makes the session write exactly that request again with an authorization that is the term for its verb and the nonce of that challenge; a peer that answers 401 forever to a request (each of the verbs) makes the session end after a bounded number of writes",
		min: map[string]int{"histories": 60, "retransmissions": 60, "refusals": 12}, run: runC27})
}

// effects renders what a session has done and what it would do next.
func (s *sess) effects(st *State) string {
	var l []string
	n := len(s.reqs(st))
	for _, q := range s.reqs(st) {
		l = append(l, s.text(st, q))
	}
	for _, c := range []string{"state", "data", "conn", "sent"} {
		l = append(l, c+" "+st.Mode[c])
	}
	for _, c := range []string{"Play", "Setup", "KeepAlive"} {
		s.in.quiet++
		for _, o := range s.command(st.clone(), c) {
			l = append(l, c+":")
			for _, q := range s.reqs(o.St)[n:] {
				l = append(l, s.text(o.St, q))
			}
		}
		s.in.quiet--
	}
	return strings.Join(l, "\n")
}

// probe is a response with any number and status.
type probe struct {
	p      situation
	m, c   Lin
	before *State // before the response
	match  *request
	single bool // the request has not been challenged before
}

// probes lets the session receive a response in every situation; each state that results is passed on with what is
// known about the request that it matches.
func (s *sess) probes(feeds []int, protos []int, kinds []int, end func(st *State, b probe)) {
	in, x := s.in, s.x
	for _, proto := range protos {
		for _, k := range feeds {
			for _, p := range s.situations(proto, k) {
				for _, kind := range kinds {
					b := probe{p: p}
					x.count("histories", 1)
					before := map[string]*State{}
					step := event(func(st *State) {
						id := fmt.Sprint(len(before))
						before[id] = st.clone()
						st.setMode("before", id)
						b.m = in.freshInt("cseq", 0, 1<<31-1)
						b.c = in.freshInt("status", 100, 999)
						status := VStr{[]Seg{{Kind: SFn, ID: "dec", Args: []Value{VInt{b.c}}, N: konst(3)}}}
						st.setGhost("m", VInt{b.m})
						st.setGhost("c", VInt{b.c})
						parts := []any{"RTSP/1.0 ", status, " Reason\r\n"}
						switch kind {
						case 0, 3, 4:
							if kind == 4 {
								// What differs from a number is not kept.
								st.assumeEq(b.c, konst(401))
							}
							parts = append(parts, "CSeq: ", in.decimal(st, b.m), "\r\n")
						case 1:
							st.assumeEq(b.m, k0)
							parts = append(parts, "CSeq: none\r\n")
						case 2:
							st.assumeEq(b.m, k0)
						}
						parts = append(parts, "Session: other;timeout=5\r\n", s.challenge(st, 9), "Public: A, B\r\n", s.transport(st, proto, 0))
						if kind != 0 && kind != 4 {
							body := "v=0\r\nm=video 0 RTP/AVP 96\r\na=control:somewhere\r\n"
							s.feed(st, append(parts, pf("Content-Length: %d\r\n\r\n", len(body)), body)...)
						} else {
							s.feed(st, append(parts, "\r\n")...)
						}
					})
					s.play(p, []func(*State) []*State{step}, func(st *State) {
						id, ok := st.Mode["before"]
						if !x.must(ok, "history "+p.name, "session does not get to the state: %s", p.name) {
							return
						}
						b.before = before[id]
						b.m, b.c = num(st.Ghost["m"]), num(st.Ghost["c"])
						// Numbers that are not decided may be any of these.
						work := []*State{st}
						for _, q := range s.unanswered(b.before) {
							q := q
							n := konst(int64(s.cseq(b.before, q)))
							var rest []*State
							for _, t := range work {
								eq := t.clone()
								eq.assumeEq(b.m, n)
								if !eq.C.bot {
									m := b
									m.match = &q
									m.single = true
									for _, r := range s.reqs(b.before) {
										m.single = m.single && (r.headers["CSeq"].S == nil || s.cseq(b.before, r) != s.cseq(b.before, q) || s.text(b.before, r) == s.text(b.before, q))
									}
									end(eq, m)
								}
								lo, hi := t, t.clone()
								lo.assumeLt(b.m, n)
								hi.assumeLt(n, b.m)
								for _, t := range []*State{lo, hi} {
									if !t.C.bot {
										rest = append(rest, t)
									}
								}
							}
							work = rest
						}
						for _, t := range work {
							end(t, b)
						}
					})
				}
			}
		}
	}
}

var allProtos = []int{protoTCP, protoUnicast, protoMulticast, protoHTTP}

func (x *ctx) client() *sess {
	in := x.interp()
	s := x.session(in)
	if s != nil {
		s.user = true
	}
	return s
}

func runC25(x *ctx) {
	s := x.client()
	if s == nil {
		return
	}
	x.guard(s.in, "responses", func() {
		s.probes([]int{1, 3}, allProtos, []int{0, 1, 2, 3}, func(st *State, b probe) {
			if b.match != nil {
				x.count("responses that match", 1)
				return
			}
			x.count("responses that match nothing", 1)
			x1, x2 := s.effects(b.before), s.effects(st)
			x.must(x1 == x2, "effect "+b.p.name, "a response that answers no outstanding request has an effect (%s): %s", b.p.name, difference(x1, x2))
		})
	})
	s.finish()
}

// difference shows the first line that differs.
func difference(a, b string) string {
	p, q := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(p) || i < len(q); i++ {
		switch {
		case i >= len(p):
			return "more: " + q[i]
		case i >= len(q):
			return "missing: " + p[i]
		case p[i] != q[i]:
			return p[i] + " becomes " + q[i]
		}
	}
	return ""
}

func runC26(x *ctx) {
	s := x.client()
	if s == nil {
		return
	}
	stage := map[string]int64{}
	for verb, name := range map[string]string{"PLAY": "StagePlay", "PAUSE": "StagePause", "TEARDOWN": "StageDone", "SETUP": "StageReady"} {
		k, ok := constInt(x.pkg(rtspPkg).Members[name])
		if !x.must(ok, name, "there is no constant %s", name) {
			return
		}
		stage[verb] = k
	}
	x.guard(s.in, "responses", func() {
		s.probes([]int{1, 2, 3}, allProtos, []int{0, 4}, func(st *State, b probe) {
			sent := items(st, "state")[counter(b.before, "state"):]
			if len(sent) == 0 {
				return
			}
			x.count("announcements", 1)
			key := "announcement " + b.p.name
			v, ok := st.konst(num(sent[0]))
			if !x.must(len(sent) == 1 && ok, key, "%d stages are announced upon one response (%s)", len(sent), b.p.name) {
				return
			}
			if !x.must(b.match != nil, key, "stage %d is announced upon a response that answers no outstanding request (%s)", v, b.p.name) {
				return
			}
			want, has := stage[b.match.verb]
			x.must(has && want == v, key, "stage %d is announced upon a response to %s (%s)", v, b.match.verb, b.p.name)
			if b.match.verb != "SETUP" {
				x.must(st.isEq(b.c, konst(200)), key, "stage %d is announced upon a response with status other than 200 (%s)", v, b.p.name)
				return
			}
			for _, q := range s.unanswered(b.before) {
				if q.verb == "SETUP" && s.cseq(b.before, q) != s.cseq(b.before, *b.match) {
					x.must(false, key, "stage %d is announced while another SETUP is not answered (%s)", v, b.p.name)
				}
			}
			x.must(!st.isEq(b.c, konst(401)), key, "stage %d is announced upon a challenge (%s)", v, b.p.name)
		})
	})
	s.finish()
}

// authorization is what a request should carry after the n-th challenge.
func (s *sess) authorized(st *State, q request, n int, key, where string) {
	in, x := s.in, s.x
	v, ok := q.headers["Authorization"]
	if !x.must(ok, key, "%s is sent without authorization %s", q.verb, where) {
		return
	}
	p, ok := in.authParams(st, v)
	if !x.must(ok, key, "authorization of %s is malformed %s: %s", q.verb, where, in.ropeText(st, v)) {
		return
	}
	user, password, realm, nonce := in.aWord(st, "user"), in.aWord(st, "password"), in.aWord(st, "realm"), in.aWord(st, pf("nonce%d", n))
	is := func(name string, want VStr) {
		x.must(in.ropeText(st, p[name]) == in.ropeText(st, want), key, "%s of the authorization of %s is %s, it should be %s %s", name, q.verb, in.ropeText(st, p[name]), in.ropeText(st, want), where)
	}
	is("username", user)
	is("realm", realm)
	is("nonce", nonce)
	ha1 := md5hex(in, st, cat(in, st, user, ":", realm, ":", password))
	ha2 := md5hex(in, st, cat(in, st, q.verb, ":", p["uri"]))
	is("response", md5hex(in, st, cat(in, st, ha1, ":", nonce, ":", ha2)))
}

func runC27(x *ctx) {
	s := x.client()
	if s == nil {
		return
	}
	x.guard(s.in, "responses", func() {
		s.probes([]int{1, 2}, allProtos, []int{0}, func(st *State, b probe) {
			if b.match == nil {
				return
			}
			st.assumeEq(b.c, konst(401))
			if st.C.bot {
				return
			}
			key := "retransmission " + b.p.name
			more := s.reqs(st)[len(s.reqs(b.before)):]
			if len(more) == 0 && !b.single {
				x.must(st.Mode["ended"] == "1", key, "a repeated challenge is ignored (%s)", b.p.name)
				return
			}
			x.count("retransmissions", 1)
			if !x.must(len(more) == 1, key, "%d requests are written upon a challenge of %s (%s)", len(more), b.match.verb, b.p.name) {
				return
			}
			q := more[0]
			x1, x2 := s.text(b.before, *b.match, "Authorization"), s.text(st, q, "Authorization")
			x.must(x1 == x2 && q.bad == "", key, "the challenged request is not sent again as it was (%s): %s becomes %s", b.p.name, x1, x2)
			s.authorized(st, q, 9, key, pf("(%s)", b.p.name))
		})
		// The peer never accepts.
		for _, proto := range []int{protoTCP, protoUnicast} {
			seen := map[string]bool{}
			for _, p := range s.situations(proto, 2) {
				verb, ok := strings.CutSuffix(p.name, " outstanding")
				if !ok || strings.Contains(verb, " and ") {
					continue
				}
				verb = strings.ToUpper(strings.TrimSuffix(verb, "s"))
				if verb == "OPTION" {
					verb = "OPTIONS"
				}
				seen[verb] = true
				var more []step
				for i := 0; i < 20; i++ {
					more = append(more, s.auth(verb, i+1))
				}
				x.count("refusals", 1)
				s.play(p, more, func(st *State) {
					n := map[int]int{}
					worst := 0
					for _, q := range s.reqs(st) {
						k := s.cseq(st, q)
						n[k]++
						if n[k] > worst {
							worst = n[k]
						}
					}
					x.must(st.Mode["ended"] == "1" && worst <= 17, "refused "+verb, "%s that is always answered with 401 is sent %d times, the session does not end", verb, worst)
				})
			}
			x.must(len(seen) == 6, "refused", "%d verbs are refused, 6 are expected", len(seen))
		}
	})
	s.finish()
}
