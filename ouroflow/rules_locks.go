package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&check{id: "C29", rule: "abstract interpretation of the session's commands (thread of the caller) and of its receive loop (thread of the receiver) along the listed histories with a lockset analysis: every load, store, map and slice operation executed after the receiver has been started is recorded with the part of the object it concerns, its thread and the mutexes held; for any two accesses of different threads to overlapping parts, one of them a write, a mutex is held at both. Not counted are accesses of a thread to objects it has made itself and not made reachable from the session before the critical section it is in",
		min: map[string]int{"histories": 60, "locations": 100, "shared locations": 20, "accesses": 1000}, run: runC29})
	register(&check{id: "C30", rule: "abstract interpretation of opening, of every command and of the receive loop along the listed histories, with operations that fail, with typestate of each mutex: no mutex is taken twice or released when it is not held, none is held when a command returns or the receive loop ends, and while a mutex that guards fields of the session is held there is no channel operation, no network read or write and no acquisition of a mutex that another place holds during one; mutexes are acquired in one order",
		min: map[string]int{"histories": 60, "lock operations": 300, "blocking operations": 300, "returns": 300}, run: runC30})
}

// locks follows mutexes of the threads of a session.
type locks struct {
	*sess
	seen   int                // objects whose maker is known
	maker  map[ObjID]string   // thread that has made an object
	shared map[ObjID]bool     // objects that another thread may have got hold of
	acc    map[ObjID][]access // accesses
	have   map[string]bool    // accesses already recorded
	watch  bool

	onLock  func(st *State, c *callCtx, key string, held []string)
	onBlock func(st *State, what string, ins ssa.Instruction, held []string)
}

type access struct {
	path   string
	write  bool
	thread string
	held   string
	where  string
	field  string
}

func thread(st *State) string {
	if t := st.Mode["thread"]; t != "" {
		return t
	}
	return "caller"
}

func held(st *State, t string) []string {
	return strings.Fields(st.Mode["locks:"+t])
}

// lockOp recognizes operations on mutexes.
func lockOp(c *callCtx) string {
	if !strings.HasPrefix(c.name, "(*sync.") && !strings.HasPrefix(c.name, "(sync.Locker)") {
		return ""
	}
	switch op := c.name[strings.LastIndex(c.name, ".")+1:]; op {
	case "Lock", "Unlock", "RLock", "RUnlock":
		if strings.Contains(c.name, "Mutex)") || strings.Contains(c.name, "Locker)") {
			return op
		}
	}
	return ""
}

func (x *ctx) locks() *locks {
	s := x.client()
	if s == nil {
		return nil
	}
	l := &locks{sess: s, maker: map[ObjID]string{}, shared: map[ObjID]bool{}, acc: map[ObjID][]access{}, have: map[string]bool{}}
	in := s.in
	s.udp = true
	call := in.h.Call
	in.h.Call = func(c *callCtx) ([]Outcome, bool) {
		if op := lockOp(c); op != "" {
			l.lock(c, op)
			return one(c.st), true
		}
		return call(c)
	}
	send := in.h.Send
	in.h.Send = func(st *State, ins ssa.Instruction, ch VChan, v Value) {
		l.block(st, "channel send", ins)
		send(st, ins, ch, v)
	}
	ready := in.h.Ready
	in.h.Ready = func(st *State, ins ssa.Instruction, ch VChan, recv bool) int {
		if recv {
			if s, ok := ins.(*ssa.Select); !ok || s.Blocking {
				l.block(st, "channel receive", ins)
			}
		}
		return ready(st, ins, ch, recv)
	}
	s.onWrite = func(st *State, c *callCtx, n int, text VStr) { l.block(st, "network write", c.ins) }
	s.onRead = func(st *State, c *callCtx, n int) { l.block(st, "network read", c.ins) }
	in.h.Instr = l.instr
	s.onCall = l.call
	return l
}

func (l *locks) block(st *State, what string, ins ssa.Instruction) {
	if l.onBlock != nil {
		l.onBlock(st, what, ins, held(st, thread(st)))
	}
}

// place names a part of an object by types.
func (l *locks) place(o ObjID, p Path) string {
	t := l.in.objs[o].T
	if t == nil {
		return "?"
	}
	name := types.TypeString(t, func(*types.Package) string { return "" })
	if l.in.objs[o].Global != nil {
		name = l.in.objs[o].Global.Name()
	}
	for _, s := range p {
		if s.Arr {
			name += "[]"
			continue
		}
		u, ok := under(t).(*types.Struct)
		if !ok || s.F >= u.NumFields() {
			return name
		}
		name += "." + u.Field(s.F).Name()
		t = u.Field(s.F).Type()
	}
	return name
}

func (l *locks) lock(c *callCtx, op string) {
	st := c.st
	v := c.recv
	if len(c.args) > 0 && v == nil {
		v = c.args[0]
	}
	if i, ok := v.(VIface); ok {
		v = i.Val
	}
	p, ok := v.(VPtr)
	if !ok {
		l.in.giveUp(st, "unknown mutex")
		return
	}
	t := thread(st)
	h := held(st, t)
	key := fmt.Sprintf("%d%s:%s", p.Obj, p.Path.key(), strings.ReplaceAll(l.place(p.Obj, p.Path), " ", "_"))
	mine := "W" + key
	if strings.HasPrefix(op, "R") {
		mine = "R" + key
	}
	if l.onLock != nil {
		l.onLock(st, c, op+" "+mine, h)
	}
	if strings.HasSuffix(op, "Unlock") {
		if l.watch && len(h) == 1 {
			l.publish(st, t)
		}
		for i, k := range h {
			if k == mine {
				h = append(append([]string(nil), h[:i]...), h[i+1:]...)
				break
			}
		}
	} else {
		h = append(append([]string(nil), h...), mine)
		sort.Strings(h)
	}
	st.setMode("locks:"+t, strings.Join(h, " "))
}

// claim notes who has made the objects that are new.
func (l *locks) claim(t string, st *State) {
	for ; l.seen < len(l.in.objs); l.seen++ {
		if st != nil && counter(st, "go") == 0 {
			continue // made before there were threads
		}
		l.maker[ObjID(l.seen)] = t
	}
}

// publish marks objects that a thread has made and that the session leads to.
func (l *locks) publish(st *State, t string) {
	for o := range l.reach(st) {
		if l.maker[o] == t {
			l.shared[o] = true
		}
	}
}

// reach lists objects that the session leads to.
func (l *locks) reach(st *State) map[ObjID]bool {
	seen := map[ObjID]bool{}
	var walk func(v Value)
	obj := func(o ObjID) {
		if o != 0 && !seen[o] {
			seen[o] = true
			if r := l.in.root(o); r != o {
				seen[r] = true
			}
			if v, ok := st.Heap[o]; ok {
				walk(v)
			}
		}
	}
	segs := func(s []Seg) {
		for _, g := range s {
			for _, v := range g.Vals {
				walk(v)
			}
		}
	}
	walk = func(v Value) {
		switch x := v.(type) {
		case VPtr:
			obj(x.Obj)
		case VSlice:
			obj(x.Obj)
		case VMap:
			obj(x.Obj)
		case VFunc:
			for _, b := range x.Bind {
				walk(b)
			}
		case VIface:
			walk(x.Val)
		case VStruct:
			for _, f := range x.F {
				walk(f)
			}
		case VTuple:
			for _, f := range x.V {
				walk(f)
			}
		case *Arr:
			segs(x.S)
			for _, w := range x.Over {
				walk(w.Val)
			}
		case *MapC:
			for _, w := range x.Over {
				walk(w.Key)
				walk(w.Val)
			}
		}
	}
	walk(st.Ghost["self"])
	return seen
}

// instr records what an instruction accesses.
func (l *locks) instr(st *State, ins ssa.Instruction) {
	if !l.watch || counter(st, "go") == 0 || l.in.quiet > 0 {
		return
	}
	in := l.in
	t := thread(st)
	l.claim(t, nil)
	ptr := func(v ssa.Value, write bool) {
		if p, ok := in.eval(st, v).(VPtr); ok && p.Obj != 0 {
			l.access(st, p.Obj, p.Path, write, ins)
		}
	}
	aMap := func(v ssa.Value, write bool) {
		if m, ok := in.eval(st, v).(VMap); ok && m.Obj != 0 {
			l.access(st, m.Obj, nil, write, ins)
		}
	}
	switch x := ins.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			ptr(x.X, false)
		}
	case *ssa.Store:
		ptr(x.Addr, true)
	case *ssa.MapUpdate:
		aMap(x.Map, true)
	case *ssa.Lookup:
		if _, ok := under(x.X.Type()).(*types.Map); ok {
			aMap(x.X, false)
		}
	case *ssa.Range:
		if _, ok := under(x.X.Type()).(*types.Map); ok {
			aMap(x.X, false)
		}
	}
}

// call records what a call of a function without source accesses.
func (l *locks) call(st *State, c *callCtx) {
	if !l.watch || counter(st, "go") == 0 || l.in.quiet > 0 {
		return
	}
	l.claim(thread(st), nil)
	object := func(v Value, write bool) {
		switch p := v.(type) {
		case VPtr:
			if p.Obj != 0 {
				l.access(st, p.Obj, p.Path, write, c.ins)
			}
		case VSlice:
			if p.Obj != 0 && !st.isNil(p.Nil) && !st.isEq(p.Cap, k0) {
				l.access(st, p.Obj, p.Path.index(k0), write, c.ins)
			}
		case VMap:
			if p.Obj != 0 {
				l.access(st, p.Obj, nil, write, c.ins)
			}
		}
	}
	switch {
	case c.name == "builtin.delete", c.name == "builtin.clear":
		object(c.args[0], true)
	case c.name == "builtin.len":
		if _, ok := c.args[0].(VMap); ok {
			object(c.args[0], false)
		}
	case c.name == "builtin.copy":
		object(c.args[0], true)
		object(c.args[1], false)
	case c.name == "builtin.append":
		object(c.args[0], true)
		if len(c.args) > 1 {
			object(c.args[1], false)
		}
	case strings.HasPrefix(c.name, "(*bufio."), strings.HasPrefix(c.name, "(*strings.Builder)."), strings.HasPrefix(c.name, "(*bytes.Buffer)."), strings.HasPrefix(c.name, "(*math/rand.Rand)."):
		object(c.args[0], true)
	}
}

func (l *locks) access(st *State, o ObjID, p Path, write bool, ins ssa.Instruction) {
	t := thread(st)
	h := held(st, t)
	o = l.in.root(o)
	if l.maker[o] == t && !l.shared[o] {
		if len(h) > 0 || !l.reach(st)[o] {
			return
		}
		l.shared[o] = true
	}
	l.x.count("accesses", 1)
	var path strings.Builder
	for _, s := range p {
		if s.Arr {
			path.WriteString("/[]")
		} else {
			fmt.Fprintf(&path, "/%d", s.F)
		}
	}
	where := "?"
	if ins != nil && ins.Parent() != nil {
		where = ins.Parent().RelString(nil)
	}
	a := access{path.String() + "/", write, t, strings.Join(h, " "), where, l.place(o, p)}
	k := fmt.Sprint(o, a)
	if !l.have[k] {
		l.have[k] = true
		l.acc[o] = append(l.acc[o], a)
	}
}

// common tells whether a mutex excludes two accesses from each other.
func common(a, b access) bool {
	for _, x := range strings.Fields(a.held) {
		for _, y := range strings.Fields(b.held) {
			if x[1:] == y[1:] && (x[0] == 'W' || y[0] == 'W') {
				return true
			}
		}
	}
	return false
}

// as makes a step run in a thread.
func as(t string, f step) step {
	return func(st *State) []*State {
		old := st.Mode["thread"]
		st.setMode("thread", t)
		r := f(st)
		for _, st := range r {
			st.setMode("thread", old)
		}
		return r
	}
}

// walk runs histories followed by commands, responses and commands.
func (l *locks) walk(after func(st *State, where string)) {
	s := l.sess
	commands := func() []step {
		var r []step
		for _, n := range commandNames {
			n := n
			r = append(r, as("caller", func(st *State) []*State {
				l.claim("receiver", nil)
				var r []*State
				for _, st := range s.do(n)(st) {
					if after != nil {
						after(st, n)
					}
					r = append(r, st)
				}
				l.claim("caller", nil)
				return r
			}))
		}
		return r
	}
	last := func(status int, rest func(st *State) []any) step {
		return event(func(st *State) {
			u := s.unanswered(st)
			if len(u) > 0 {
				s.reply(st, status, s.cseq(st, u[len(u)-1]), rest(st)...)
			}
		})
	}
	for _, proto := range allProtos {
		for _, p := range s.situations(proto, 2) {
			p := p
			s.x.count("histories", 1)
			// Commands of the history are those of the caller.
			var more []step
			more = append(more, commands()...)
			more = append(more, event(func(st *State) {
				_, text := s.frame(st, "frame")
				s.feed(st, text)
			}))
			more = append(more, last(401, func(st *State) []any { return []any{s.challenge(st, 8)} }))
			more = append(more, last(200, func(st *State) []any { return []any{"Session: other\r\n", "Public: A\r\n", s.transport(st, proto, 1)} }))
			more = append(more, commands()...)
			more = append(more, event(func(st *State) {
				u := s.unanswered(st)
				body := "v=0\r\nm=audio 0 RTP/AVP 96\r\n"
				for _, q := range u {
					if q.verb == "DESCRIBE" {
						s.reply(st, 200, s.cseq(st, q), pf("Content-Length: %d\r\n", len(body)))
						s.feed(st, body)
						return
					}
				}
			}))
			more = append(more, commands()...)
			s.play(p, more, func(st *State) {
				s.x.must(st.Mode["pc"] == fmt.Sprint(len(s.script)) || st.Mode["ended"] != "", "history "+p.name, "session does not get to the state: %s", p.name)
				if after != nil && st.Mode["ended"] != "" {
					after(st, "receiving")
				}
			})
		}
	}
}

func runC29(x *ctx) {
	l := x.locks()
	if l == nil {
		return
	}
	l.watch = true
	x.guard(l.in, "histories", func() {
		l.receiver()
		l.walk(nil)
	})
	x.count("locations", 0)
	for o, as := range l.acc {
		_ = o
		places := map[string]int{}
		for _, a := range as {
			if a.thread == "caller" {
				places[a.path] |= 1
			} else {
				places[a.path] |= 2
			}
		}
		for _, m := range places {
			x.count("locations", 1)
			if m == 3 {
				x.count("shared locations", 1)
			}
		}
		for i, a := range as {
			for _, b := range as[:i] {
				if a.thread == b.thread || !a.write && !b.write || !strings.HasPrefix(a.path, b.path) && !strings.HasPrefix(b.path, a.path) {
					continue
				}
				w, r := a, b
				if !w.write {
					w, r = b, a
				}
				x.must(common(a, b), "race on "+w.field+" "+w.where+" "+r.where, "%s is written by %s (thread of the %s) and accessed by %s (thread of the %s) without a common lock", w.field, w.where, w.thread, r.where, r.thread)
			}
		}
	}
	l.finish()
}

// receiver makes the receive loop run in its own thread.
func (l *locks) receiver() {
	call := l.in.h.Go
	l.in.h.Go = func(st *State, ins *ssa.Go, c *callCtx) {
		l.claim("caller", st)
		call(st, ins, c)
	}
	l.begin = func(st *State) { st.setMode("thread", "receiver") }
}

func runC30(x *ctx) {
	l := x.locks()
	if l == nil {
		return
	}
	name := func(k string) string { _, n, _ := strings.Cut(k, ":"); return n }
	guards := map[string]bool{} // mutexes that guard fields of the session
	slow := map[string]string{} // mutexes held while blocking
	order := map[string]string{}
	type blocked struct {
		what, where string
		held        []string
	}
	var events []blocked
	have := map[string]bool{}
	add := func(b blocked) {
		if k := fmt.Sprint(b); !have[k] {
			have[k] = true
			events = append(events, b)
		}
	}
	where := func(ins ssa.Instruction) string {
		if ins != nil && ins.Parent() != nil {
			return ins.Parent().RelString(nil)
		}
		return "?"
	}
	l.in.h.Instr = func(st *State, ins ssa.Instruction) {
		p, ok := st.Ghost["self"].(VPtr)
		if !ok || counter(st, "go") == 0 {
			return
		}
		h := held(st, thread(st))
		if len(h) == 0 {
			return
		}
		guard := func() {
			for _, k := range h {
				guards[name(k)] = true
			}
		}
		switch x := ins.(type) {
		case *ssa.Store:
			if q, ok := l.in.eval(st, x.Addr).(VPtr); ok && q.Obj == p.Obj {
				guard()
			}
		case *ssa.MapUpdate:
			guard()
		}
	}
	l.onLock = func(st *State, c *callCtx, op string, h []string) {
		if l.in.quiet > 0 {
			return
		}
		x.count("lock operations", 1)
		op, key, _ := strings.Cut(op, " ")
		same := false
		for _, k := range h {
			same = same || k == key
			if !strings.HasSuffix(op, "Unlock") {
				x.must(k[1:] != key[1:], "lock in "+where(c.ins), "%s takes %s that it holds already", where(c.ins), name(key))
				if k[1:] != key[1:] {
					order[name(k)+" "+name(key)] = where(c.ins)
					add(blocked{"lock " + name(key), where(c.ins), []string{name(k)}})
				}
			}
		}
		if strings.HasSuffix(op, "Unlock") {
			x.must(same, "unlock in "+where(c.ins), "%s releases %s that it does not hold", where(c.ins), name(key))
		}
	}
	l.onBlock = func(st *State, what string, ins ssa.Instruction, h []string) {
		if l.in.quiet > 0 {
			return
		}
		x.count("blocking operations", 1)
		for _, k := range h {
			slow[name(k)] = what + " in " + where(ins)
			add(blocked{what, where(ins), []string{name(k)}})
		}
	}
	idle := func(st *State, n string) {
		x.count("returns", 1)
		for _, t := range []string{"caller", "receiver"} {
			if t == "receiver" && n != "receiving" {
				continue
			}
			h := held(st, t)
			x.must(len(h) == 0, "return of "+n, "%s ends while it holds %s", n, strings.Join(h, ", "))
		}
	}
	x.guard(l.in, "histories", func() {
		l.receiver()
		l.walk(idle)
		// Receiving ends.
		ends := l.endings()
		for _, proto := range allProtos {
			for _, p := range l.situations(proto, 1) {
				for _, e := range ends {
					l.udp = true
					x.count("histories", 1)
					l.playAny(p, []step{e.step, event(func(st *State) { st.setMode("end", "eof") })}, func(st *State) {
						if st.Mode["ended"] != "" {
							idle(st, "receiving")
						}
					})
				}
			}
		}
		l.udp = true
		// Operations fail.
		for _, proto := range allProtos {
			for _, p := range l.situations(proto, 1) {
				for _, n := range append([]string{""}, commandNames...) {
					n := n
					x.count("histories", 1)
					more := []step{event(func(st *State) { st.setMode("failing", "1") })}
					if n == "" {
						more = append(more, event(func(st *State) {
							u := l.unanswered(st)
							if len(u) > 0 {
								l.reply(st, 401, l.cseq(st, u[0]), l.challenge(st, 8))
							}
							st.setMode("end", "eof")
						}))
					} else {
						more = append(more, as("caller", func(st *State) []*State {
							var r []*State
							for _, st := range l.do(n)(st) {
								idle(st, n)
								r = append(r, st)
							}
							return r
						}), event(func(st *State) { st.setMode("end", "eof") }))
					}
					l.play(p, more, func(st *State) {
						if st.Mode["ended"] != "" {
							idle(st, "receiving")
						}
					})
				}
			}
		}
	})
	for _, b := range events {
		for _, k := range b.held {
			if !guards[k] {
				continue
			}
			if m := strings.TrimPrefix(b.what, "lock "); m != b.what {
				x.must(slow[m] == "", "block in "+b.where, "%s acquires %s while it holds %s; it may be held during a %s", b.where, m, k, slow[m])
				continue
			}
			x.must(false, "block in "+b.where, "%s in %s while %s is held", b.what, b.where, k)
		}
	}
	for k, w := range order {
		a, b, _ := strings.Cut(k, " ")
		x.must(order[b+" "+a] == "" || a == b, "order in "+w, "%s acquires %s while it holds %s, %s does so the other way round", w, b, a, order[b+" "+a])
	}
	l.finish()
}
