package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// world stands for network, clock and users of a session.  Incoming text is a rope; what is written, sent to channels,
// logged or opened is recorded in the state, so every path has its own history.
type world struct {
	x       *ctx
	in      *Interp
	script  []func(st *State) []*State // what happens when the receiver waits for input
	fails   bool                       // operations may fail
	udp     bool                       // listening succeeds without choice
	secrets bool                       // text that contains the password is followed through formatting
	user    bool                       // URI has credentials
	full    bool                       // nobody receives packets
	stale   bool                       // deadlines expire while nothing arrives
	single  bool                       // nobody else uses channels
	dgrams  []string                   // what reading from a UDP socket yields
	ports   bool                       // URI may have no port
	now     int

	// Events; they are not told apart by quiet mode.
	onWrite func(st *State, c *callCtx, conn int, text VStr)
	onRead  func(st *State, c *callCtx, conn int)
	onLog   func(st *State, c *callCtx)
	onCall  func(st *State, c *callCtx)
	onFail  func(st *State, c *callCtx, idle bool)
	parked  func(st *State)
	connT   types.Type
	nolog   bool
}

const timeoutID, eofID = "timeout", "eof"

// newWorld attaches a world to an interpreter.
func (x *ctx) newWorld(in *Interp) *world {
	w := &world{x: x, in: in}
	in.noPanics = true
	in.mapOnce = true
	in.scripted = true
	in.unrolls = 220
	in.apart = 64
	in.h.Call = w.call
	in.h.Send = w.send
	in.h.Go = w.spawn
	in.h.Ready = w.ready
	return w
}

func counter(st *State, name string) int {
	n, _ := strconv.Atoi(st.Mode[name])
	return n
}

// push appends a value to a list kept in the state.
func push(st *State, list string, v Value) int {
	n := counter(st, list)
	st.setGhost(fmt.Sprintf("%s%d", list, n), v)
	st.setMode(list, strconv.Itoa(n+1))
	return n
}

func items(st *State, list string) []Value {
	var r []Value
	for i := 0; i < counter(st, list); i++ {
		r = append(r, st.Ghost[fmt.Sprintf("%s%d", list, i)])
	}
	return r
}

func (w *world) spawn(st *State, ins *ssa.Go, c *callCtx) {
	f := VFunc{Nil: k0, Fn: c.fn, Bind: c.bind}
	push(st, "go", VTuple{append([]Value{f}, c.args...)})
}

func (w *world) send(st *State, ins ssa.Instruction, ch VChan, v Value) {
	st.setMode("chsent:"+ch.ID, strconv.Itoa(counter(st, "chsent:"+ch.ID)+1))
	if s, ok := v.(VStruct); ok && fieldIndex(s.T, "Payload") >= 0 {
		push(st, "data", s)
		if p, ok := w.in.get(st, s, "Payload").(VSlice); ok && !st.isNil(p.Nil) && !st.isEq(p.Len, k0) {
			w.trace(st, "S", p)
		}
		return
	}
	if i, ok := v.(VInt); ok && ch.ID == st.Mode["stages"] {
		push(st, "state", i)
		return
	}
	push(st, "sent", v)
}

// trace records that memory is passed on (S) or read into (R).
func (w *world) trace(st *State, what string, s VSlice) {
	o := w.in.root(s.Obj)
	if what == "S" || strings.Contains(st.Mode["trace"]+" ", fmt.Sprintf(" S%d ", o)) {
		st.setMode("trace", st.Mode["trace"]+fmt.Sprintf(" %s%d", what, o))
	}
}

// ready tells whether a channel operation can proceed.
func (w *world) ready(st *State, ins ssa.Instruction, ch VChan, recv bool) int {
	if !strings.HasPrefix(ch.ID, "chan@") {
		return -1
	}
	if recv {
		switch {
		case st.Mode["chclosed:"+ch.ID] != "":
			return 1
		case st.Mode["chsent:"+ch.ID] != "":
			return -1
		}
		return 0
	}
	if w.full && ch.ID == st.Mode["datach"] {
		return 0
	}
	if w.single && counter(st, "chsent:"+ch.ID) >= counter(st, "chcap:"+ch.ID) {
		return 0
	}
	return -1
}

// datagram models reading from a UDP socket.
func (w *world) datagram(c *callCtx) []Outcome {
	in, st := w.in, c.st
	n := w.connOf(st, c.args[0])
	if w.onRead != nil {
		w.onRead(st, c, n)
	}
	results := func(st *State, cnt Lin, err VIface) []Outcome {
		var r []Value
		for i := 0; i < c.sig.Results().Len(); i++ {
			t := c.sig.Results().At(i).Type()
			switch {
			case i == 0:
				r = append(r, VInt{cnt})
			case i == c.sig.Results().Len()-1:
				r = append(r, err)
			default:
				r = append(r, in.freshVal(st, t, "from"))
			}
		}
		return one(st, r...)
	}
	k := counter(st, "dg")
	st.setMode("dg", strconv.Itoa(k+1))
	what := ""
	switch {
	case k < len(w.dgrams):
		what = w.dgrams[k]
	case counter(st, fmt.Sprintf("closed%d", n)) > 0:
		what = "closed"
	case st.Mode[fmt.Sprintf("rd%d", n)] == "1" && k < len(w.dgrams)+2:
		what = "timeout"
	}
	switch what {
	case "data":
		dst, ok := c.args[1].(VSlice)
		if !ok {
			in.giveUp(st, "datagram is read into unknown memory")
			return nil
		}
		w.trace(st, "R", dst)
		in.scramble(st, dst)
		cnt := in.freshInt("datagram", 0, maxLen)
		st.assumeLe(cnt, dst.Len)
		push(st, "dgram", VStr{in.bytesOf(st, VSlice{Nil: dst.Nil, Obj: dst.Obj, Path: dst.Path, Off: dst.Off, Len: cnt, Cap: dst.Cap})})
		return results(st, cnt, nilErr)
	case "timeout", "closed", "failure":
		return results(st, k0, w.netErr(what))
	}
	if w.parked != nil && in.quiet == 0 {
		w.parked(st)
	}
	return nil
}

// conn makes a connection.
func (w *world) conn(st *State, t types.Type, name string) VPtr {
	o := w.in.newObj(ObjInfo{T: t, Name: name})
	st.setHeap(o, VLazy{t, w.in.freshID(name)})
	p := VPtr{Nil: k0, Obj: o}
	n := push(st, "conn", p)
	st.setMode(fmt.Sprintf("closed%d", n), "0")
	st.setMode(fmt.Sprintf("kind%d", n), name)
	return p
}

// connOf returns the number of a connection.
func (w *world) connOf(st *State, v Value) int {
	p, ok := v.(VPtr)
	if !ok {
		return -1
	}
	for i, c := range items(st, "conn") {
		if q, ok := c.(VPtr); ok && q.Obj == p.Obj {
			return i
		}
	}
	return -1
}

func (w *world) netErr(id string) VIface {
	name, pkg := "OpError", "net"
	if id == eofID {
		name, pkg = "errorString", "errors"
	}
	for _, p := range w.in.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if t := p.Type(name); t != nil {
				o := w.in.newObj(ObjInfo{T: t.Type(), Name: id})
				return VIface{Nil: k0, Dyn: types.NewPointer(t.Type()), Val: VPtr{Nil: k0, Obj: o}, ID: id}
			}
		}
	}
	return VIface{Nil: k0, ID: id}
}

// either yields success and, if operations may fail, failure.
func (w *world) either(c *callCtx, ok func(st *State) []Value) []Outcome {
	if w.fails || c.st.Mode["failing"] != "" {
		outs := w.in.pair(c, ok, nil)
		for _, o := range outs {
			if o.St.Mode["failing"] == "timeout" && w.in.isErr(o) != 0 {
				o.Ret[len(o.Ret)-1] = w.netErr(timeoutID)
			}
		}
		if w.onFail != nil {
			for _, o := range outs {
				if w.in.isErr(o) != 0 {
					w.onFail(o.St, c, false)
				}
			}
		}
		return outs
	}
	return one(c.st, append(ok(c.st), nilErr)...)
}

func (w *world) newPtr(st *State, t types.Type, name string) VPtr {
	if p, ok := under(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	o := w.in.newObj(ObjInfo{T: t, Name: name})
	st.setHeap(o, VLazy{t, w.in.freshID(name)})
	return VPtr{Nil: k0, Obj: o}
}

// hostText is the text of URI without credentials.
func (w *world) hostText(st *State) VStr {
	return cat(w.in, st, "rtsp://", w.in.aWord(st, "host"), "/", w.in.aWord(st, "path"))
}

func (w *world) call(c *callCtx) ([]Outcome, bool) {
	in, st := w.in, c.st
	if w.onCall != nil {
		w.onCall(st, c)
		if st.C.bot {
			return nil, true
		}
	}
	if logs(c) && w.onLog != nil {
		w.onLog(st, c)
	}
	res := func(i int) types.Type { return c.sig.Results().At(i).Type() }
	switch c.name {
	case "net/url.Parse":
		t := res(0)
		return w.either(c, func(st *State) []Value {
			p := w.newPtr(st, t, "url")
			v := in.expand(st, in.contents(st, p.Obj)).(VStruct)
			f := append([]Value(nil), v.F...)
			for i := range f {
				f[i] = zero(under(v.T).(*types.Struct).Field(i).Type())
			}
			st.setHeap(p.Obj, VStruct{v.T, f})
			in.store(st, p.Obj, Path{}.field(fieldIndex(v.T, "Host")), in.aWord(st, "host"))
			in.store(st, p.Obj, Path{}.field(fieldIndex(v.T, "Path")), cat(in, st, "/", in.aWord(st, "path")))
			in.store(st, p.Obj, Path{}.field(fieldIndex(v.T, "Scheme")), strConst("rtsp"))
			ut := under(v.T).(*types.Struct).Field(fieldIndex(v.T, "User")).Type()
			u := Value(VPtr{Nil: k1})
			if w.user {
				u = w.newPtr(st, ut, "userinfo")
			}
			in.store(st, p.Obj, Path{}.field(fieldIndex(v.T, "User")), u)
			return []Value{p}
		}), true
	case "(*net/url.URL).String", "(*net/url.URL).Redacted", "(*net/url.URL).RequestURI":
		p, ok := c.args[0].(VPtr)
		if !ok {
			return nil, false
		}
		v := in.load(st, p.Obj, p.Path)
		if c.name == "(*net/url.URL).RequestURI" {
			return one(st, cat(in, st, "/", in.aWord(st, "path"))), true
		}
		u, _ := in.get(st, v, "User").(VPtr)
		if st.isNil(u.Nil) {
			return one(st, w.hostText(st)), true
		}
		pass := in.aWord(st, "password")
		if strings.HasSuffix(c.name, "Redacted") {
			pass = strConst("xxxxx")
		}
		return one(st, cat(in, st, "rtsp://", in.aWord(st, "user"), ":", pass, "@", in.aWord(st, "host"), "/", in.aWord(st, "path"))), true
	case "(*net/url.Userinfo).Username":
		return one(st, in.aWord(st, "user")), true
	case "(*net/url.Userinfo).Password":
		return one(st, in.aWord(st, "password"), boolv(true)), true
	case "(*net/url.Userinfo).String":
		return one(st, cat(in, st, in.aWord(st, "user"), ":", in.aWord(st, "password"))), true
	case "net.SplitHostPort":
		if !w.ports {
			return one(st, in.aWord(st, "host"), in.aWord(st, "port"), nilErr), true
		}
		return in.pair(c, func(st *State) []Value { return []Value{in.aWord(st, "host"), in.aWord(st, "port")} }, nil), true
	case "net.JoinHostPort":
		return one(st, cat(in, st, str(c.args[0]), ":", str(c.args[1]))), true
	case "net.ResolveTCPAddr", "net.ResolveUDPAddr":
		t := res(0)
		return w.either(c, func(st *State) []Value { return []Value{w.newPtr(st, t, "addr")} }), true
	case "net.DialTCP":
		t := under(res(0)).(*types.Pointer).Elem()
		return w.either(c, func(st *State) []Value { return []Value{w.conn(st, t, "tcp")} }), true
	case "net.Dial", "net.DialTimeout", "(*net.Dialer).Dial":
		for _, p := range in.prog.AllPackages() {
			if p.Pkg.Path() == "net" {
				t := p.Type("TCPConn").Type()
				return w.either(c, func(st *State) []Value {
					return []Value{VIface{Nil: k0, Dyn: types.NewPointer(t), Val: w.conn(st, t, "tcp"), ID: in.freshID("conn")}}
				}), true
			}
		}
	case "net.ListenUDP", "net.ListenMulticastUDP":
		t := under(res(0)).(*types.Pointer).Elem()
		mk := func(st *State) []Value {
			p := w.conn(st, t, "udp")
			a := c.args[len(c.args)-1]
			if port, ok := in.get(st, a, "Port").(VInt); ok {
				st.setGhost(fmt.Sprintf("port%d", counter(st, "conn")-1), port)
			}
			return []Value{p}
		}
		if w.udp {
			return one(st, append(mk(st), nilErr)...), true
		}
		return w.either(c, mk), true
	case "(*net.conn).LocalAddr", "(*net.TCPConn).LocalAddr", "(net.Conn).LocalAddr":
		for _, p := range in.prog.AllPackages() {
			if p.Pkg.Path() == "net" {
				t := p.Type("TCPAddr").Type()
				return one(st, VIface{Nil: k0, Dyn: types.NewPointer(t), Val: w.newPtr(st, t, "local"), ID: in.freshID("local")}), true
			}
		}
	case "(*net.conn).Close", "(*net.TCPConn).Close", "(*net.UDPConn).Close":
		n := w.connOf(st, c.args[0])
		if n >= 0 {
			st.setMode(fmt.Sprintf("closed%d", n), strconv.Itoa(counter(st, fmt.Sprintf("closed%d", n))+1))
		}
		return one(st, nilErr), true
	case "(*net.conn).SetReadDeadline", "(*net.conn).SetWriteDeadline", "(*net.conn).SetDeadline":
		n := w.connOf(st, c.args[0])
		v := "0"
		if w.isDeadline(st, c.args[1]) {
			v = "1"
		}
		if !strings.Contains(c.name, "Write") {
			st.setMode(fmt.Sprintf("rd%d", n), v)
		}
		if !strings.Contains(c.name, "Read") {
			st.setMode(fmt.Sprintf("wd%d", n), v)
		}
		return one(st, nilErr), true
	case "time.Now":
		return one(st, w.timeVal(st, res(0), "now")), true
	case "(time.Time).Add":
		base := in.valKey(st, c.args[0])
		return one(st, w.timeVal(st, res(0), "add("+base+","+in.valKey(st, c.args[1])+")")), true
	case "(*net.conn).Write", "(*net.TCPConn).Write":
		n := w.connOf(st, c.args[0])
		b := VStr{in.bytesOf(st, c.args[1])}
		if w.onWrite != nil {
			w.onWrite(st, c, n, b)
		}
		return w.either(c, func(st *State) []Value {
			push(st, "out", VTuple{[]Value{intk(int64(n)), b}})
			return []Value{VInt{segsLen(b.S)}}
		}), true
	case "encoding/base64.NewEncoder":
		o := in.newObj(ObjInfo{T: types.Typ[types.String], Name: "encoder"})
		st.setHeap(o, VStr{})
		st.setGhost(fmt.Sprintf("enc%d", o), c.args[1])
		return one(st, VIface{Nil: k0, ID: in.freshID("encoder"), Dyn: encoderType, Val: VPtr{Nil: k0, Obj: o}}), true
	case "(io.WriteCloser).Write", "(io.Writer).Write", "(io.WriteCloser).Close", "(io.Closer).Close":
		i, ok := c.recv.(VIface)
		if !ok || i.Dyn != encoderType {
			return nil, false
		}
		p := i.Val.(VPtr)
		to, _ := st.Ghost[fmt.Sprintf("enc%d", p.Obj)].(VIface)
		n := w.connOf(st, to.Val)
		if strings.HasSuffix(c.name, "Write") {
			// The encoder may write to the network at any time.
			b := VStr{in.bytesOf(st, c.args[0])}
			if w.onWrite != nil {
				w.onWrite(st, c, n, VStr{})
			}
			return w.either(c, func(st *State) []Value {
				in.store(st, p.Obj, p.Path, VStr{in.concat(st, str(in.load(st, p.Obj, p.Path)).S, b.S)})
				return []Value{VInt{segsLen(b.S)}}
			}), true
		}
		text := str(in.load(st, p.Obj, p.Path))
		enc := in.fnStr(st, "base64", k0, bigLen, text)
		if w.onWrite != nil {
			w.onWrite(st, c, n, enc)
		}
		return w.either(c, func(st *State) []Value {
			push(st, "out", VTuple{[]Value{intk(int64(n)), enc}})
			return nil
		}), true
	case "bufio.NewReaderSize", "bufio.NewReader":
		p := w.newPtr(st, res(0), "bufio")
		size := konst(4096)
		if len(c.args) > 1 {
			size = num(c.args[1])
		}
		st.setGhost("size", VInt{size})
		if i, ok := c.args[0].(VIface); ok {
			st.setMode("rdr", strconv.Itoa(w.connOf(st, i.Val)))
		}
		return one(st, p), true
	case "(net.Error).Timeout", "(*net.OpError).Timeout", "(net.Error).Temporary", "(*net.OpError).Temporary":
		id := ""
		if i, ok := c.recv.(VIface); ok {
			id = i.ID
		} else if len(c.args) > 0 {
			if p, ok := c.args[0].(VPtr); ok {
				id = in.objs[p.Obj].Name
			}
		}
		return one(st, boolv(id == timeoutID)), true
	case "builtin.copy", "builtin.append":
		if d, ok := c.args[0].(VSlice); ok && !st.isNil(d.Nil) && (c.name == "builtin.copy" || !st.isEq(d.Len, d.Cap)) {
			w.trace(st, "R", d)
		}
		return nil, false
	case "builtin.close":
		if ch, ok := c.args[0].(VChan); ok {
			k := "chclosed:" + ch.ID
			st.setMode(k, strconv.Itoa(counter(st, k)+1))
		}
		return nil, false
	case "(*net.UDPConn).ReadFromUDP", "(*net.UDPConn).ReadFrom", "(*net.UDPConn).ReadMsgUDP", "(*net.UDPConn).ReadFromUDPAddrPort", "(*net.conn).Read", "(*net.UDPConn).Read":
		if n := w.connOf(st, c.args[0]); n >= 0 && st.Mode[fmt.Sprintf("kind%d", n)] == "udp" {
			return w.datagram(c), true
		}
	case "errors.Is":
		if a, ok := c.args[0].(VIface); ok && a.ID == timeoutID {
			b, _ := c.args[1].(VIface)
			return one(st, boolv(strings.HasSuffix(b.ID, "ErrDeadlineExceeded"))), true
		}
	case "(*bufio.Reader).Peek", "(*bufio.Reader).ReadByte", "(*bufio.Reader).ReadString", "(*bufio.Reader).ReadBytes", "(*bufio.Reader).ReadSlice", "(*bufio.Reader).ReadLine",
		"(*bufio.Reader).Discard", "encoding/binary.Read", "io.ReadFull", "io.ReadAtLeast", "(*bufio.Reader).Read":
		return w.read(c)
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "fmt.Errorf":
		if w.secrets && w.hides(st, c.args) {
			if c.name == "fmt.Errorf" {
				return one(st, in.errVal("secret")), true
			}
			return one(st, in.fnStr(st, "format", k0, bigLen, in.aWord(st, "password"))), true
		}
		return nil, false
	case "(time.Time).Sub", "time.Since":
		return one(st, intk(0)), true
	case "(time.Time).IsZero":
		if v, ok := c.args[0].(VStruct); ok && in.sameVal(st, v, zero(v.T)) {
			return one(st, boolv(true)), true
		}
		return one(st, boolv(false)), true
	}
	return nil, false
}

var encoderType = types.NewPointer(types.NewNamed(types.NewTypeName(0, types.NewPackage("encoder", "encoder"), "base64", nil), types.NewStruct(nil, nil), nil))

// timeVal makes a point in time with an identity.
func (w *world) timeVal(st *State, t types.Type, id string) Value {
	return w.in.expand(st, VLazy{t, "time:" + id})
}

// isDeadline tells whether a time is that of the configured timeout.
func (w *world) isDeadline(st *State, v Value) bool {
	k := w.in.valKey(st, v)
	t, ok := st.Ghost["timeout"].(VInt)
	if !ok {
		return strings.Contains(k, "time:add(") && strings.Contains(k, "time:now")
	}
	want := w.timeVal(st, v.(VStruct).T, "add("+w.in.valKey(st, w.timeVal(st, v.(VStruct).T, "now"))+","+w.in.valKey(st, t)+")")
	return k == w.in.valKey(st, want)
}

// feed appends text to what can be read.
func (w *world) feed(st *State, parts ...any) {
	old, _ := st.Ghost["in"].(VStr)
	st.setGhost("in", cat(w.in, st, append([]any{old}, parts...)...))
}

// need makes states in which n bytes (or a line if n is nil) can be read; states of the second list cannot have them.
func (w *world) need(st *State, have func(st *State) (Lin, int)) (ok, short []*State) {
	work := []*State{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if s.C.bot {
			continue
		}
		_, r := have(s)
		if r == 1 {
			ok = append(ok, s)
			continue
		}
		if e := s.Mode["end"]; e != "" {
			short = append(short, s)
			continue
		}
		pc := counter(s, "pc")
		if pc >= len(w.script) {
			if w.parked != nil && w.in.quiet == 0 {
				w.parked(s)
			}
			continue
		}
		s.setMode("pc", strconv.Itoa(pc+1))
		work = append(work, w.script[pc](s)...)
	}
	return
}

// lineEnd finds the end of the first line.
func (w *world) lineEnd(st *State, delim string) (VStr, bool) {
	s, _ := st.Ghost["in"].(VStr)
	var r []Seg
	for _, g := range s.S {
		c, ok := w.in.constSegs(st, []Seg{g})
		if !ok {
			if !w.in.isWord(st, g) {
				return VStr{}, false
			}
			r = append(r, g)
			continue
		}
		if i := strings.Index(c, delim); i >= 0 {
			return cat(w.in, st, VStr{r}, c[:i+len(delim)]), true
		}
		r = append(r, strConst(c).S...)
	}
	return VStr{}, false
}

// advance consumes n bytes.
func (w *world) advance(st *State, n Lin) (VStr, bool) {
	s, _ := st.Ghost["in"].(VStr)
	a, ok1 := w.in.take(st, s.S, n)
	b, ok2 := w.in.drop(st, s.S, n)
	if !ok1 || !ok2 {
		w.in.giveUp(st, "reading of "+st.norm(n).String()+" bytes")
		return VStr{}, false
	}
	st.setGhost("in", VStr{b})
	if w.stale && st.isEq(segsLen(b), k0) {
		// What comes next may come at any time.
		for i := range items(st, "conn") {
			st.setMode(fmt.Sprintf("rd%d", i), "0")
			st.setMode(fmt.Sprintf("wd%d", i), "0")
		}
	}
	return VStr{a}, true
}

// drain consumes everything that is there.
func (w *world) drain(st *State) {
	st.setGhost("in", VStr{})
	w.stalled(st)
}

// stalled makes what comes after a stall available.
func (w *world) stalled(st *State) {
	st.setMode("stalls", strconv.Itoa(counter(st, "stalls")+1))
	if r, ok := st.Ghost["rest"].(VStr); ok && st.Mode["end"] == "stall" {
		old, _ := st.Ghost["in"].(VStr)
		st.setGhost("in", cat(w.in, st, old, r))
		st.setGhost("rest", nil)
		st.setMode("end", "")
		st.setMode("after", "1")
	}
}

func (w *world) readErr(st *State) VIface {
	if st.Mode["end"] == "eof" {
		return w.netErr(eofID)
	}
	return w.netErr(timeoutID)
}

// read models reading from the buffered stream.
func (w *world) read(c *callCtx) ([]Outcome, bool) {
	in := w.in
	st := c.st
	bytesT := types.Typ[types.Byte]
	var want Lin // bytes that are needed
	peek := false
	var dst VSlice
	var ptr VPtr
	line := ""
	switch c.name {
	case "(*bufio.Reader).Peek":
		want, peek = num(c.args[1]), true
	case "(*bufio.Reader).Discard":
		want = num(c.args[1])
	case "(*bufio.Reader).ReadByte":
		want = k1
	case "encoding/binary.Read":
		i, ok := c.args[2].(VIface)
		if !ok {
			return nil, false
		}
		if ptr, ok = i.Val.(VPtr); !ok {
			return nil, false
		}
		_, _, bits, _ := intRange(in.objType(ptr.Obj, ptr.Path))
		if bits == 0 {
			return nil, false
		}
		want = konst(int64(bits / 8))
		if o, ok := c.args[1].(VIface); !ok || o.Dyn == nil || !strings.Contains(o.Dyn.String(), "bigEndian") {
			st.setMode("little", "1")
		}
	case "io.ReadFull", "io.ReadAtLeast", "(*bufio.Reader).Read":
		var ok bool
		if dst, ok = c.args[1].(VSlice); !ok {
			return nil, false
		}
		want = dst.Len
		if st.isNil(dst.Nil) {
			want = k0
		}
		if c.name == "io.ReadAtLeast" {
			want = num(c.args[2])
		}
		if c.name == "(*bufio.Reader).Read" {
			return nil, false
		}
	case "(*bufio.Reader).ReadString", "(*bufio.Reader).ReadBytes", "(*bufio.Reader).ReadSlice":
		k, ok := st.konst(num(c.args[1]))
		if !ok {
			return nil, false
		}
		line = string([]byte{byte(k)})
	default:
		return nil, false
	}
	buffered, _ := st.Ghost["peeked"].(VInt)
	within := line == "" && !peek && st.Ghost["peeked"] != nil && st.isLe(want, buffered.L)
	if w.onRead != nil && !within {
		w.onRead(st, c, counter(st, "rdr"))
	}
	var outs []Outcome
	// Buffer may be too small.
	if size, ok := st.Ghost["size"].(VInt); ok && peek && !st.isLe(want, size.L) {
		t := st.clone()
		t.assumeLt(size.L, want)
		if !t.C.bot {
			if w.onFail != nil {
				w.onFail(t, c, false)
			}
			outs = append(outs, Outcome{t, []Value{in.newSlice(t, bytesT, nil, c.ins), in.errVal("bufio.ErrBufferFull")}})
		}
		st.assumeLe(want, size.L)
		if st.C.bot {
			return outs, true
		}
	}
	have := func(s *State) (Lin, int) {
		if line != "" {
			l, ok := w.lineEnd(s, line)
			if ok {
				return segsLen(l.S), 1
			}
			return k0, 0
		}
		a, _ := s.Ghost["in"].(VStr)
		if s.isLe(want, segsLen(a.S)) {
			return want, 1
		}
		if !s.isLt(segsLen(a.S), want) {
			in.giveUp(s, "number of bytes to read "+s.norm(want).String()+" of "+s.segsString(a.S))
		}
		return want, 0
	}
	good, short := w.need(st, have)
	for _, s := range good {
		n, _ := have(s)
		if s.Mode["after"] == "1" && !s.isEq(n, k0) {
			s.setMode("resumed", "1")
		}
		if !peek {
			s.setMode("consumed", "1")
		}
		if peek {
			a, _ := s.Ghost["in"].(VStr)
			b, ok := in.take(s, a.S, n)
			if !ok {
				in.giveUp(s, "peeking "+s.norm(n).String()+" bytes")
			}
			v := in.newSlice(s, bytesT, b, c.ins)
			in.objs[v.Obj].Name = "stream buffer"
			s.setGhost("peeked", VInt{n})
			outs = append(outs, Outcome{s, []Value{v, nilErr}})
			continue
		}
		if within {
			s.setGhost("peeked", VInt{sub(buffered.L, n)})
		} else {
			s.setGhost("peeked", nil)
		}
		b, ok := w.advance(s, n)
		if !ok {
			continue
		}
		switch c.name {
		case "(*bufio.Reader).Discard":
			outs = append(outs, Outcome{s, []Value{VInt{n}, nilErr}})
		case "(*bufio.Reader).ReadByte":
			v := in.newSlice(s, bytesT, b.S, nil)
			outs = append(outs, Outcome{s, []Value{VInt{in.byteAt(s, v, k0)}, nilErr}})
		case "(*bufio.Reader).ReadString":
			outs = append(outs, Outcome{s, []Value{b, nilErr}})
		case "(*bufio.Reader).ReadBytes", "(*bufio.Reader).ReadSlice":
			v := in.newSlice(s, bytesT, b.S, c.ins)
			if c.name == "(*bufio.Reader).ReadSlice" {
				in.objs[v.Obj].Name = "stream buffer"
			}
			outs = append(outs, Outcome{s, []Value{v, nilErr}})
		case "encoding/binary.Read":
			k, _ := s.konst(n)
			v := in.newSlice(s, bytesT, b.S, nil)
			r := in.word(s, v, k0, int(k))
			if s.Mode["little"] == "1" && k > 1 {
				s.setMode("little", "")
				r = k0
				for i := k - 1; i >= 0; i-- {
					r = lincomb(in.byteAt(s, v, konst(i)), 256, r)
				}
			}
			in.store(s, ptr.Obj, ptr.Path, VInt{r})
			outs = append(outs, Outcome{s, []Value{nilErr}})
		default:
			if !s.isEq(n, k0) {
				w.trace(s, "R", dst)
				src := in.newSlice(s, bytesT, b.S, nil)
				in.copyOp(&callCtx{in: in, st: s, ins: c.ins, name: "builtin.copy", args: []Value{dst, src}, sig: c.sig})
			}
			outs = append(outs, Outcome{s, []Value{VInt{n}, nilErr}})
		}
	}
	for _, s := range short {
		e := w.readErr(s)
		a, _ := s.Ghost["in"].(VStr)
		if w.onFail != nil {
			w.onFail(s, c, peek && e.ID == timeoutID && s.isEq(segsLen(a.S), k0))
		}
		switch {
		case peek:
			v := in.newSlice(s, bytesT, a.S, c.ins)
			w.stalled(s)
			outs = append(outs, Outcome{s, []Value{v, e}})
			continue
		case c.name == "encoding/binary.Read":
			w.drain(s)
			outs = append(outs, Outcome{s, []Value{e}})
			continue
		case c.name == "(*bufio.Reader).ReadByte":
			w.stalled(s)
			outs = append(outs, Outcome{s, []Value{intk(0), e}})
			continue
		case c.name == "(*bufio.Reader).ReadString":
			w.drain(s)
			outs = append(outs, Outcome{s, []Value{a, e}})
			continue
		case c.name == "(*bufio.Reader).ReadBytes", c.name == "(*bufio.Reader).ReadSlice":
			v := in.newSlice(s, bytesT, a.S, c.ins)
			w.drain(s)
			outs = append(outs, Outcome{s, []Value{v, e}})
			continue
		}
		n := segsLen(a.S)
		if dst.Obj != 0 {
			in.scramble(s, dst)
		}
		w.drain(s)
		outs = append(outs, Outcome{s, []Value{VInt{n}, e}})
	}
	return outs, true
}

// logs tells whether a call writes to the log or to standard output.
func logs(c *callCtx) bool {
	switch {
	case strings.HasPrefix(c.name, "log.Set"), strings.HasPrefix(c.name, "log.New"):
		return false
	case strings.HasPrefix(c.name, "log."), strings.HasPrefix(c.name, "(*log.Logger)."), strings.HasPrefix(c.name, "log/slog."), strings.HasPrefix(c.name, "(*log/slog.Logger)."),
		strings.HasPrefix(c.name, "fmt.Print"), strings.HasPrefix(c.name, "builtin.print"), strings.HasPrefix(c.name, "(*os.File).Write"):
		return true
	case strings.HasPrefix(c.name, "fmt.Fprint"), c.name == "io.WriteString":
		i, ok := c.args[0].(VIface)
		return !ok || i.Dyn == nil || i.Dyn.String() == "*os.File"
	}
	return false
}

// hides tells whether arguments of a call that formats them show something else than text that contains the password.
func (w *world) hides(st *State, args []Value) bool {
	for _, a := range args {
		for _, v := range w.elems(st, a) {
			if i, ok := v.(VIface); ok && i.Val != nil {
				if _, ok := i.Val.(VStr); ok {
					continue
				}
			}
			if w.secret(st, v, 0) {
				return true
			}
		}
	}
	return false
}

// elems lists variadic arguments.
func (w *world) elems(st *State, v Value) []Value {
	if s, ok := v.(VSlice); ok {
		if i, ok := sliceIface(w.in, s); ok && i {
			return w.in.varargs(st, v)
		}
	}
	return []Value{v}
}

func sliceIface(in *Interp, s VSlice) (bool, bool) {
	t := in.objs[s.Obj].T
	if t == nil {
		return false, false
	}
	switch u := under(t).(type) {
	case *types.Array:
		_, ok := under(u.Elem()).(*types.Interface)
		return ok, true
	case *types.Slice:
		_, ok := under(u.Elem()).(*types.Interface)
		return ok, true
	}
	_, ok := under(t).(*types.Interface)
	return ok, true
}

// secret tells whether formatting of a value shows the password.
func (w *world) secret(st *State, v Value, depth int) bool {
	in := w.in
	if depth > 6 {
		return false
	}
	text := func(v Value) bool { return strings.Contains(in.ropeText(st, v), "word:password") }
	switch x := v.(type) {
	case VStr:
		return text(x)
	case VSlice:
		if st.isNil(x.Nil) || st.isEq(x.Len, k0) {
			return false
		}
		if a, ok := in.load(st, x.Obj, x.Path).(*Arr); ok {
			if b, ok := under(a.Et).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return text(x)
			}
			for _, g := range in.window(st, x) {
				for _, e := range g.Vals {
					if w.secret(st, e, depth+1) {
						return true
					}
				}
			}
		}
	case VIface:
		if strings.Contains(x.ID, "secret") || strings.Contains(x.ID, "err:net/url.Parse") {
			return true
		}
		return x.Val != nil && w.secret(st, x.Val, depth)
	case VPtr:
		if st.isNil(x.Nil) || x.Obj == 0 {
			return false
		}
		switch n := types.TypeString(in.objType(x.Obj, x.Path), nil); {
		case n == "net/url.Userinfo":
			return true
		case n == "net/url.URL" || depth == 0:
			return w.secret(st, in.load(st, x.Obj, x.Path), depth+1)
		}
	case VStruct:
		for _, f := range x.F {
			if w.secret(st, f, depth+1) {
				return true
			}
		}
	case VLazy:
		return false
	case VTuple:
		for _, f := range x.V {
			if w.secret(st, f, depth+1) {
				return true
			}
		}
	}
	return false
}

func atoi(s string) int {
	n, _ := strconv.Atoi(s)
	return n
}
