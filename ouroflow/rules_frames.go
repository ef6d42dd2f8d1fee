package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&check{id: "C22", rule: "abstract interpretation of the session's receive loop on a model of network and peer: in each of the listed histories the stream continues with sequences of interleaved frames (channel, length bytes and contents symbolic, length from 0 to 65535) and responses; exactly those packets are delivered, in order, with the term for that channel and exactly the bytes of that frame, and what follows is read as such",
		min: map[string]int{"histories": 20, "packets": 40}, run: runC22})
	register(&check{id: "C23", rule: "abstract interpretation of the session's receive loop on a model of network and peer: the network stalls at each point of a frame (after each byte of its header and after any number of bytes of its contents) and of a response (within each line, between lines, within the body); the loop ends, nothing is delivered, announced or written and nothing is read after the stall; a stall before the first byte is retried and what comes then is delivered",
		min: map[string]int{"stalls": 40}, run: runC23})
}

// frame is an interleaved frame.
type frame struct {
	ch      Lin
	payload VStr
}

// frame makes a frame of any length.
func (s *sess) frame(st *State, name string) (frame, VStr) {
	in := s.in
	hi, lo, ch := in.freshInt(name+".hi", 0, 255), in.freshInt(name+".lo", 0, 255), in.freshInt(name+".channel", 0, 255)
	n := lincomb(lo, 256, hi)
	p := VStr{[]Seg{{Kind: SBase, ID: name, Off: k0, N: n}}}
	head := VStr{[]Seg{{Kind: SVals, Vals: []Value{VInt{ch}, VInt{hi}, VInt{lo}}, N: konst(3)}}}
	return frame{ch, p}, cat(in, st, "$", head, p)
}

// delivered checks packets against frames.
func (s *sess) delivered(st *State, want []frame, where string) {
	x, in := s.x, s.in
	got := items(st, "data")
	key := "packets " + where
	if !x.must(len(got) == len(want), key, "%d packets are delivered for %d frames (%s)", len(got), len(want), where) {
		return
	}
	for i, f := range want {
		x.count("packets", 1)
		x.sameInt(st, in.get(st, got[i], "Channel"), f.ch, key, "channel of a packet ("+where+")")
		p, ok := in.get(st, got[i], "Payload").(VSlice)
		if !x.must(ok, key, "payload of a packet cannot be determined (%s)", where) {
			continue
		}
		b := VStr{in.bytesOf(st, p)}
		x.must(in.sameVal(st, VStr{in.concat(st, nil, b.S)}, VStr{in.concat(st, nil, f.payload.S)}), key, "a packet contains %s, its frame %s (%s)", st.segsString(b.S), st.segsString(f.payload.S), where)
	}
}

func runC22(x *ctx) {
	s := x.client()
	if s == nil {
		return
	}
	in := s.in
	mixes := []string{"F", "FF", "FRF", "RF", "FFF"}
	x.guard(in, "frames", func() {
		for _, proto := range []int{protoTCP, protoHTTP} {
			for _, p := range s.situations(proto, 2) {
				for _, mix := range mixes {
					var frames []frame
					next := step(func(st *State) []*State {
						r := []*State{st}
						if strings.Contains(mix, "R") {
							r = s.do("Options")(st)
						}
						for _, st := range r {
							frames = nil
							for i, c := range mix {
								if c == 'F' {
									f, text := s.frame(st, fmt.Sprintf("frame%d", i))
									frames = append(frames, f)
									s.feed(st, text)
									continue
								}
								u := s.unanswered(st)
								st.setMode("answered", fmt.Sprint(s.cseq(st, u[len(u)-1])))
								st.setMode("written", fmt.Sprint(len(s.reqs(st))))
								s.reply(st, 200, s.cseq(st, u[len(u)-1]), "Session: probe\r\n")
							}
						}
						return r
					})
					x.count("histories", 1)
					s.play(p, []step{next, s.do("Play")}, func(st *State) {
						where := p.name + ", then " + mix
						if !x.must(st.Mode["pc"] == fmt.Sprint(len(s.script)) && st.Mode["ended"] == "", "history "+where, "receiving ends (%s)", where) {
							return
						}
						s.delivered(st, frames, where)
						if strings.Contains(mix, "R") {
							all := s.reqs(st)
							q := all[len(all)-1]
							x.must(in.ropeText(st, q.headers["Session"]) == "probe", "resync "+where, "the response between frames is not processed (%s)", where)
						}
					})
				}
			}
		}
	})
	s.finish()
}

func runC23(x *ctx) {
	s := x.client()
	if s == nil {
		return
	}
	in := s.in
	stall := func(p situation, where string, mk func(st *State) (before, after VStr)) {
		var base *State
		next := event(func(st *State) {
			base = st.clone()
			b, rest := mk(st)
			s.feed(st, b)
			st.setMode("end", "stall")
			st.setGhost("rest", rest)
		})
		x.count("stalls", 1)
		s.play(p, []step{next}, func(st *State) {
			if !x.must(base != nil, "history "+p.name, "session does not get to the state: %s", p.name) {
				return
			}
			key := "stall " + where
			if !x.must(st.Mode["ended"] == "1", key, "reading goes on after a stall %s (%s)", where, p.name) {
				return
			}
			x.must(counter(st, "data") == counter(base, "data") && counter(st, "state") == counter(base, "state") && counter(st, "out") == counter(base, "out"), key, "something is delivered, announced or sent after a stall %s (%s)", where, p.name)
			x.must(st.Mode["after"] == "1" && st.Mode["resumed"] == "", key, "reading goes on after a stall %s (%s)", where, p.name)
		})
	}
	x.guard(in, "stalls", func() {
		for _, proto := range []int{protoTCP, protoHTTP} {
			for _, p := range s.situations(proto, 2) {
				for cut := 1; cut <= 3; cut++ {
					stall(p, fmt.Sprintf("after %d bytes of the header of a frame", cut), func(st *State) (VStr, VStr) {
						_, text := s.frame(st, "frame")
						a, _ := in.take(st, text.S, konst(int64(cut)))
						b, _ := in.drop(st, text.S, konst(int64(cut)))
						return VStr{a}, VStr{b}
					})
				}
				stall(p, "within the contents of a frame", func(st *State) (VStr, VStr) {
					f, text := s.frame(st, "frame")
					c := in.freshInt("cut", 4, maxLen)
					st.assumeLt(c, addK(segsLen(f.payload.S), 4))
					a, _ := in.take(st, text.S, c)
					b, _ := in.drop(st, text.S, c)
					return VStr{a}, VStr{b}
				})
				body := "v=0\r\nm=video 0 RTP/AVP 96\r\n"
				if p.name == "play outstanding" || p.name == "describe outstanding" || p.name == "setups outstanding" {
					for _, part := range []string{"R", "RTSP/1.0", "RTSP/1.0 200 OK\r", "RTSP/1.0 200 OK\r\n", "RTSP/1.0 200 OK\r\nCS", "RTSP/1.0 200 OK\r\nCSeq:", "CSEQ", "CSEQ\r\n", "CSEQ\r\nSession: abc",
						"CSEQ\r\nSession: abc\r\n", "CSEQ\r\nContent-Length: LEN\r\n\r", "CSEQ\r\nContent-Length: LEN\r\n\r\n", "CSEQ\r\nContent-Length: LEN\r\n\r\nv=0\r\nm"} {
						stall(p, fmt.Sprintf("after %q of a response", part), func(st *State) (VStr, VStr) {
							u := s.unanswered(st)
							full := strings.ReplaceAll("CSEQ\r\nSession: abc\r\nTransport: RTP/AVP/TCP;interleaved=0-1\r\nContent-Length: LEN\r\n\r\nBODY", "BODY", body)
							if strings.Contains(part, "LEN") {
								full = strings.ReplaceAll(full, "Session: abc\r\nTransport: RTP/AVP/TCP;interleaved=0-1\r\n", "")
							}
							mk := func(t string) string {
								t = strings.ReplaceAll(t, "CSEQ", fmt.Sprintf("RTSP/1.0 200 OK\r\nCSeq: %d", s.cseq(st, u[0])))
								return strings.ReplaceAll(t, "LEN", fmt.Sprint(len(body)))
							}
							a, f := mk(part), mk(full)
							if !strings.HasPrefix(f, a) {
								panic("not a prefix: " + a)
							}
							return cat(in, st, a), cat(in, st, f[len(a):])
						})
					}
				}
				// Nothing has been received: try again.
				var f frame
				x.count("stalls", 1)
				s.play(p, []step{event(func(st *State) {
					var text VStr
					f, text = s.frame(st, "frame")
					st.setMode("end", "stall")
					st.setGhost("rest", text)
				})}, func(st *State) {
					if x.must(st.Mode["ended"] == "", "idle", "receiving ends when nothing arrives for a while (%s)", p.name) {
						s.delivered(st, []frame{f}, p.name+", idle")
					}
				})
			}
		}
	})
	s.finish()
}
