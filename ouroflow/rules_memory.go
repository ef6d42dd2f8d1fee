package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&check{id: "C24", rule: "abstract interpretation of the receive loop and of the UDP receivers with identities of memory: in each of the listed histories and sequences of frames and datagrams, the memory of the payload of every packet that is sent is not the buffer of the stream, is not that of another packet sent before, and nothing is read into it or stored into it afterwards",
		min: map[string]int{"histories": 20, "packets": 60}, run: runC24})
}

// owned checks that packets do not share memory.
func (s *sess) owned(st *State, key string) {
	x := s.x
	sent := map[string]bool{}
	for _, e := range strings.Fields(st.Mode["trace"]) {
		switch id := e[1:]; e[0] {
		case 'S':
			x.count("packets", 1)
			x.must(!sent[id], key, "two packets share memory (%s)", key)
			x.must(s.in.objs[ObjID(atoi(id))].Name != "stream buffer", key, "a packet refers to the buffer of the stream (%s)", key)
			sent[id] = true
		case 'R':
			x.must(!sent[id], key, "memory of a packet is read into again (%s)", key)
		}
	}
}

func runC24(x *ctx) {
	s := x.client()
	if s == nil {
		return
	}
	in := s.in
	s.udp = true
	dgrams := [][]string{{"data", "data", "data"}, {"data", "timeout", "data"}, {"data", "failure"}}
	x.guard(in, "packets", func() {
		for _, proto := range []int{protoTCP, protoHTTP} {
			for _, p := range s.situations(proto, 2) {
				for _, mix := range []string{"FF", "FRF"} {
					frames := 0
					next := step(func(st *State) []*State {
						r := []*State{st}
						if strings.Contains(mix, "R") {
							r = s.do("Options")(st)
						}
						for _, st := range r {
							frames = 0
							for i, c := range mix {
								if c == 'F' {
									frames++
									f, text := s.frame(st, fmt.Sprintf("frame%d", i))
									st.assumeLt(k0, segsLen(f.payload.S))
									s.feed(st, text)
									continue
								}
								u := s.unanswered(st)
								s.reply(st, 200, s.cseq(st, u[len(u)-1]))
							}
						}
						return r
					})
					x.count("histories", 1)
					s.play(p, []step{next}, func(st *State) {
						key := p.name + ", then " + mix
						if x.must(counter(st, "data") == frames, key, "%d packets are delivered for %d frames (%s)", counter(st, "data"), frames, key) {
							s.owned(st, key)
						}
					})
				}
			}
		}
		for _, proto := range []int{protoUnicast, protoMulticast} {
			for k := 1; k <= 2; k++ {
				p := s.find(proto, k, "ready")
				x.count("histories", 1)
				s.play(p, nil, func(st *State) {
					key := "receivers"
					if !x.must(counter(st, "go") == 1+2*k, key, "%d functions run in the background for %d feeds", counter(st, "go"), k) {
						return
					}
					// Receivers run one after the other and share what they have from the same start.
					for _, seq := range dgrams {
						s.dgrams = seq
						states := []*State{st}
						for g := 1; g <= 2*k; g++ {
							var next []*State
							for _, t := range states {
								s.background(t, g, func(u *State, ended bool) { next = append(next, u) })
							}
							x.must(len(next) > 0, key, "receiver waits for something else than a datagram")
							states = next
						}
						for _, t := range states {
							x.must(counter(t, "data") == 2*k*strings.Count(strings.Join(seq, ","), "data"), key, "%d packets are delivered by %d receivers", counter(t, "data"), 2*k)
							s.owned(t, strings.Join(seq, ", "))
						}
					}
				})
			}
		}
	})
	s.finish()
}
