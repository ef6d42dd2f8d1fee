package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// protocols of the package
const (
	protoTCP = iota
	protoUnicast
	protoMulticast
	protoHTTP
)

// client of a session
type sess struct {
	servers string          // ports that the server tells
	begin   func(st *State) // before a background function runs
	*world
	open, ctor *ssa.Function
	methods    map[string]*ssa.Function
}

var commandNames = []string{"Options", "Describe", "Setup", "Play", "Pause", "Teardown", "KeepAlive"}

func (x *ctx) session(in *Interp) *sess {
	s := &sess{world: x.newWorld(in), methods: map[string]*ssa.Function{}}
	s.ctor, s.open = x.fn(rtspPkg, "NewSession"), x.method(rtspPkg, "Session", "Open")
	for _, n := range commandNames {
		s.methods[n] = x.method(rtspPkg, "Session", n)
		if s.methods[n] == nil {
			return nil
		}
	}
	if s.ctor == nil || s.open == nil {
		return nil
	}
	return s
}

// start opens a session; it is kept in ghost "self".
func (s *sess) start(proto int) []Outcome {
	in := s.in
	st := in.enter()
	var res []Outcome
	for _, o := range in.callFn(st, s.ctor, nil, nil) {
		o.St.setGhost("self", o.Ret[0])
		if ch, ok := in.get(o.St, o.Ret[0], "State").(VChan); ok {
			o.St.setMode("stages", ch.ID)
		}
		uri := cat(in, o.St, "rtsp://", in.aWord(o.St, "user"), ":", in.aWord(o.St, "password"), "@", in.aWord(o.St, "host"), "/", in.aWord(o.St, "path"))
		res = append(res, in.callM(o.St, s.open, o.Ret[0], uri, intk(int64(proto)))...)
	}
	return res
}

// command calls a method of the session.
func (s *sess) command(st *State, name string) []Outcome {
	return s.in.callM(st, s.methods[name], st.Ghost["self"])
}

// receive runs background functions that have been started; states after they end.
func (s *sess) receive(st *State, n int) []Outcome {
	g, ok := st.Ghost[fmt.Sprintf("go%d", n)].(VTuple)
	if !s.x.must(ok, "receiver", "no receiver is started") {
		return nil
	}
	f := g.V[0].(VFunc)
	if s.begin != nil {
		s.begin(st)
	}
	return s.in.callValue(st, f, g.V[1:], nil, f.Fn.Signature)
}

// request is a written request.
type request struct {
	line    string
	verb    string
	headers map[string]VStr
	bad     string
}

// reqs parses requests that have been written, looking into the tunnel.
func (s *sess) reqs(st *State) []request {
	var r []request
	for _, v := range items(st, "out") {
		text := v.(VTuple).V[1].(VStr)
		if len(text.S) == 1 && text.S[0].Kind == SFn && text.S[0].ID == "base64" {
			text = str(text.S[0].Args[0])
		} else if c := s.in.ropeText(st, text); strings.HasPrefix(c, "GET ") || strings.HasPrefix(c, "POST ") {
			continue
		}
		r = append(r, s.parse(st, text))
	}
	return r
}

func (s *sess) parse(st *State, text VStr) request {
	in := s.in
	var w worded
	var b strings.Builder
	for _, g := range text.S {
		if c, ok := in.constSegs(st, []Seg{g}); ok {
			b.WriteString(c)
			continue
		}
		b.WriteRune(rune(firstWord + len(w.words)))
		w.words = append(w.words, g)
	}
	q := request{headers: map[string]VStr{}}
	lines := strings.Split(b.String(), "\r\n")
	q.line = in.ropeText(st, w.text(lines[0]))
	q.verb, _, _ = strings.Cut(q.line, " ")
	n := len(lines)
	if n < 3 || lines[n-1] != "" || lines[n-2] != "" {
		q.bad = "it does not end with an empty line"
		return q
	}
	for _, l := range lines[1 : n-2] {
		k, v, ok := strings.Cut(l, ": ")
		if !ok {
			q.bad = "header is malformed"
		}
		q.headers[k] = w.text(v)
	}
	return q
}

// text renders a request without some headers.
func (s *sess) text(st *State, q request, without ...string) string {
	var l []string
next:
	for k, v := range q.headers {
		for _, n := range without {
			if k == n {
				continue next
			}
		}
		l = append(l, k+": "+s.in.ropeText(st, v))
	}
	sort.Strings(l)
	return q.line + "; " + strings.Join(l, "; ")
}

func (s *sess) finish(keep ...string) {
	s.x.collect(s.in, func(o *Obligation) bool {
		for _, k := range keep {
			if o.Rule == k {
				return true
			}
		}
		return o.Rule == "analysable"
	})
}

// reply adds a response to what can be read.
func (s *sess) reply(st *State, status, cseq any, rest ...any) {
	in := s.in
	lin := func(v any) VStr {
		switch k := v.(type) {
		case int:
			return strConst(fmt.Sprint(k))
		case Lin:
			return in.decimal(st, k)
		case VStr:
			return k
		}
		return VStr{}
	}
	parts := []any{"RTSP/1.0 ", lin(status), " Reason\r\nCSeq: ", lin(cseq), "\r\n"}
	parts = append(parts, rest...)
	s.feed(st, append(parts, "\r\n")...)
}

// describe answers DESCRIBE with n video feeds.
func (s *sess) describe(st *State, cseq any, n int) {
	in := s.in
	body := cat(in, st, "v=0\r\n")
	for i := 0; i < n; i++ {
		control := in.aWord(st, pf("control%d", i))
		st.assumeLe(segsLen(control.S), konst(100))
		body = cat(in, st, body, "m=video 0 RTP/AVP 96\r\na=control:", control, "\r\n")
	}
	s.reply(st, 200, cseq, "Content-Length: ", in.decimal(st, segsLen(body.S)), "\r\n")
	s.feed(st, body)
}

// event makes a step of the script that never splits.
func event(f func(st *State)) func(st *State) []*State {
	return func(st *State) []*State {
		f(st)
		return []*State{st}
	}
}

type step = func(st *State) []*State

// cseq returns the number of a request.
func (s *sess) cseq(st *State, q request) int {
	c, ok := s.in.constStr(st, q.headers["CSeq"])
	n, err := strconv.Atoi(c)
	if !s.x.must(ok && err == nil && n > 0, "cseq", "request %s has no number", s.text(st, q)) {
		return -1
	}
	return n
}

// unanswered lists requests that have been written and not answered, in order.
func (s *sess) unanswered(st *State) []request {
	ans := strings.Split(st.Mode["answers"], ",")
	last := map[int]int{}
	all := s.reqs(st)
	for i, q := range all {
		last[s.cseq(st, q)] = i
	}
	var r []request
	for i, q := range all {
		n := s.cseq(st, q)
		if last[n] != i {
			continue
		}
		open := true
		for _, a := range ans {
			open = open && a != fmt.Sprint(n)
		}
		if open {
			r = append(r, q)
		}
	}
	return r
}

// outstanding finds the first unanswered request with a verb, "VERB/n" skips n of them.
func (s *sess) outstanding(st *State, verb string) (request, int) {
	verb, nth, _ := strings.Cut(verb, "/")
	skip, _ := strconv.Atoi(nth)
	for _, q := range s.unanswered(st) {
		if q.verb == verb {
			if skip == 0 {
				return q, s.cseq(st, q)
			}
			skip--
		}
	}
	s.x.must(false, "outstanding "+verb, "no %s request is outstanding where one is expected", verb)
	return request{}, -1
}

// answer replies to the first unanswered request with a verb.
func (s *sess) answer(verb string, status any, rest ...any) step {
	return event(func(st *State) {
		_, n := s.outstanding(st, verb)
		if status != 401 {
			st.setMode("answers", st.Mode["answers"]+","+fmt.Sprint(n))
		} else {
			st.setMode("challenges", st.Mode["challenges"]+","+fmt.Sprint(n))
		}
		s.reply(st, status, n, rest...)
	})
}

// do issues a command.
func (s *sess) do(name string) step {
	return func(st *State) []*State {
		var r []*State
		old := st.Mode["thread"]
		st.setMode("thread", "caller")
		for _, o := range s.command(st, name) {
			o.St.setMode("thread", old)
			o.St.setMode("failed:caller", "")
			r = append(r, o.St)
		}
		return r
	}
}

// described answers DESCRIBE with n feeds.
func (s *sess) described(n int) step {
	return event(func(st *State) {
		_, k := s.outstanding(st, "DESCRIBE")
		st.setMode("answers", st.Mode["answers"]+","+fmt.Sprint(k))
		s.describe(st, k, n)
	})
}

func (s *sess) transport(st *State, proto, k int) string {
	switch proto {
	case protoTCP, protoHTTP:
		return pf("Transport: RTP/AVP/TCP;unicast;interleaved=%d-%d\r\n", 2*k, 2*k+1)
	case protoMulticast:
		return pf("Transport: RTP/AVP;multicast;destination=224.1.1.1;port=%d-%d;ttl=9\r\n", 3456+2*k, 3457+2*k)
	}
	return pf("Transport: RTP/AVP;unicast;client_port=%d-%d;server_port=%d-%d\r\n", 50000+2*k, 50001+2*k, 3456+2*k, 3457+2*k)
}

// challenge is a header of a 401 response.
func (s *sess) challenge(st *State, n int) VStr {
	return cat(s.in, st, `WWW-Authenticate: Digest realm="`, s.in.aWord(st, "realm"), `", nonce="`, s.in.aWord(st, pf("nonce%d", n)), "\"\r\n")
}

// situation is a way of getting a session into some state.
type situation struct {
	name   string
	proto  int
	script []step
}

// situations lists histories of sessions with k feeds.
func (s *sess) situations(proto, k int) []situation {
	var r []situation
	var sofar []step
	if proto == protoHTTP {
		// The tunnel is opened while dialling, before the session starts.
		sofar = append(sofar, event(func(st *State) { s.feed(st, "HTTP/1.0 200 OK\r\nContent-Type: application/x-rtsp-tunnelled\r\n\r\n") }))
	}
	add := func(name string, more ...step) {
		sofar = append(append([]step(nil), sofar...), more...)
		r = append(r, situation{name, proto, sofar})
	}
	side := func(name string, more ...step) {
		r = append(r, situation{name, proto, append(append([]step(nil), sofar...), more...)})
	}
	add("options outstanding")
	side("options challenged", s.auth("OPTIONS", 1))
	add("describe outstanding", s.answer("OPTIONS", 200, "Public: DESCRIBE, SETUP\r\n"))
	side("describe challenged", s.auth("DESCRIBE", 1))
	add("setups outstanding", s.described(k))
	side("setups challenged", s.auth("SETUP", 1))
	var all []step
	for i := 0; i < k; i++ {
		all = append(all, s.answer("SETUP", 200, "Session: 1234;timeout=60\r\n", s.transport(nil, proto, i)))
	}
	if k > 1 {
		session := "Session: 1234;timeout=60\r\n"
		last := pf("SETUP/%d", k-1)
		side("first setup answered", all[0])
		side("last setup answered", s.answer(last, 200, session, s.transport(nil, proto, k-1)))
		side("first setup refused", s.answer("SETUP", 404))
		side("last setup refused", s.answer(last, 461))
		side("setups refused and challenged", s.answer("SETUP", 404), s.auth("SETUP", 1))
	}
	if k > 2 {
		side("one setup left", all[0], s.answer("SETUP/1", 500))
		side("other setup left", s.answer("SETUP/1", 404), s.answer("SETUP/1", 200, s.transport(nil, proto, 2)))
	}
	add("ready", all...)
	side("described again", s.do("Describe"), s.described(k))
	side("play, pause and teardown outstanding", s.do("Play"), s.do("Pause"), s.do("Teardown"))
	side("play challenged", s.do("Play"), s.auth("PLAY", 1))
	add("play outstanding", s.do("Play"))
	add("playing", s.answer("PLAY", 200))
	side("teardown outstanding", s.do("Teardown"))
	side("done", s.do("Teardown"), s.answer("TEARDOWN", 200))
	add("pause outstanding", s.do("Pause"))
	side("pause challenged", s.auth("PAUSE", 1))
	add("paused", s.answer("PAUSE", 200))
	return r
}

// auth challenges the first unanswered request with a verb.
func (s *sess) auth(verb string, n int) step {
	return func(st *State) []*State { return s.answer(verb, 401, s.challenge(st, n))(st) }
}

// play runs a session through a history and what follows; states where it waits or ends are passed to end.
func (s *sess) play(p situation, more []step, end func(st *State)) {
	n := s.playAny(p, more, end)
	s.x.must(n > 0, "outcome", "nothing happens when %s", p.name)
}

// playAny is play for continuations that may be impossible.
func (s *sess) playAny(p situation, more []step, end func(st *State)) int {
	s.script = append(append([]step(nil), p.script...), more...)
	n := 0
	last := func(st *State) {
		n++
		end(st)
	}
	s.parked = last
	for _, o := range s.start(p.proto) {
		if s.in.isErr(o) == 1 {
			continue
		}
		for _, q := range s.receive(o.St, 0) {
			q.St.setMode("ended", "1")
			last(q.St)
		}
	}
	return n
}
