package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The conversions between raw and encapsulated bytes run in product with the transducer of H.264 7.4.1: what they
// append is compared with what the transducer puts out for the same input.

func init() {
	register(&check{id: "C10", rule: "product of the conversion with a monitor of the last two bytes of its output: no byte that is appended after two zero bytes can be 0, 1 or 2; loops to fixpoint, states partitioned by zeros of output and classes of the next input bytes",
		min: map[string]int{"outputs": 3, "returns": 1}, run: func(x *ctx) { x.codec("RBSPToEncapsulated", encap, true) }})
	register(&check{id: "C43", rule: "product of both conversions with the transducers of H.264 7.4.1: every byte that is appended is the one the transducer puts out next for the same input, the input is used up at return; loops to fixpoint, states partitioned by state of the transducer and classes of the next input bytes; composition of the transducers is the identity (all states of their product)",
		min: map[string]int{"outputs": 6, "returns": 2}, run: func(x *ctx) {
			x.codec("RBSPToEncapsulated", encap, false)
			x.codec("EBSPToRaw", decap, false)
			x.inverse()
		}})
}

const (
	encap = iota
	decap
)

// transduce is the reference transducer: from a number of zeros (at most 2) and a byte to output and number of zeros.  Bytes
// above 4 behave like 4.
func transduce(kind, z, b int) (out []int, next int) {
	next = 0
	if b == 0 {
		next = min(z+1, 2)
	}
	if kind == encap && z == 2 && b <= 3 {
		if b == 0 {
			next = 1
		}
		return []int{3, b}, next
	}
	if kind == decap && z == 2 && b == 3 {
		return nil, 0
	}
	return []int{b}, next
}

// inverse checks that removal undoes insertion for every input: their product has no state with different output.
func (x *ctx) inverse() {
	type state struct{ e, d int }
	seen := map[state]bool{}
	work := []state{{0, 0}}
	for len(work) > 0 {
		s := work[0]
		work = work[1:]
		if seen[s] {
			continue
		}
		seen[s] = true
		for b := 0; b <= 4; b++ {
			mid, e := transduce(encap, s.e, b)
			var out []int
			d := s.d
			for _, m := range mid {
				var o []int
				o, d = transduce(decap, d, m)
				out = append(out, o...)
			}
			x.must(len(out) == 1 && out[0] == b, "inverse", "the transducers are not inverse")
			work = append(work, state{e, d})
		}
	}
	x.count("product states", len(seen))
}

// codec is a run of a conversion.
type codec struct {
	x     *ctx
	in    *Interp
	kind  int
	loose bool // only the bytes after zeros matter
	name  string
	buf   VSlice
	base  Seg // contents of the argument
}

func (x *ctx) codec(name string, kind int, loose bool) {
	fn := x.fn(nalPkg, name)
	if fn == nil {
		return
	}
	in := x.interp()
	in.noPanics = true
	in.apart = 64
	in.modes = 3000
	c := &codec{x: x, in: in, kind: kind, loose: loose, name: name}
	in.h.Call = c.call
	in.h.Divide = c.store
	in.h.Split = c.split
	in.h.Head = c.head
	x.guard(in, name, func() {
		st := in.enter()
		buf, ok := in.arg(st, fn.Params[0].Type(), name).(VSlice)
		if !x.must(ok, name, "%s does not take a slice", name) {
			return
		}
		st.assumeEq(buf.Nil, k0)
		c.buf = buf
		if w := in.window(st, buf); len(w) == 1 && w[0].Kind == SBase {
			c.base = w[0]
		}
		for _, s := range []string{"pos", "flushed", "outlen"} {
			st.setGhost(s, intk(0))
		}
		st.setMode("z", "0")
		outs := in.callFn(st, fn, []Value{buf}, nil)
		x.must(len(outs) > 0, name, "%s does not return", name)
		for _, o := range outs {
			x.count("returns", 1)
			r, ok := o.Ret[0].(VSlice)
			c.finish(o.St)
			x.must(ok && o.St.isEq(r.Len, c.ghost(o.St, "outlen")), name+":result", "the result is not what has been appended")
			if !loose {
				x.must(o.St.isEq(c.ghost(o.St, "flushed"), buf.Len), name+":rest", "the last bytes are not converted")
			}
		}
	})
	x.collect(in, nil)
}

func (c *codec) ghost(st *State, n string) Lin { return st.norm(st.Ghost[n].(VInt).L) }

// at is a byte of the argument.
func (c *codec) at(st *State, pos Lin) Lin { return c.in.byteAt(st, c.buf, pos) }

var byteClasses = []struct {
	name   byte
	lo, hi int64
}{{'0', 0, 0}, {'1', 1, 2}, {'3', 3, 3}, {'4', 4, 255}}

// classes are the classes that a byte may belong to.
func (c *codec) classes(st *State, b Lin) string {
	r := ""
	for _, k := range byteClasses {
		if k.lo == k.hi && st.isNe(b, konst(k.lo)) || st.isLt(b, konst(k.lo)) || st.isLt(konst(k.hi), b) {
			continue
		}
		r += string(k.name)
	}
	return r
}

func assumeClass(st *State, b Lin, name byte) {
	for _, k := range byteClasses {
		if k.name == name {
			st.assumeLe(konst(k.lo), b)
			st.assumeLe(b, konst(k.hi))
		}
	}
}

// fork divides a state by the class of a byte.
func (c *codec) fork(st *State, b Lin) []*State {
	cl := c.classes(st, b)
	if len(cl) == 1 {
		return []*State{st}
	}
	var r []*State
	for i := range cl {
		t := st.clone()
		assumeClass(t, b, cl[i])
		if !t.C.bot {
			r = append(r, t)
		}
	}
	return r
}

// advance lets the transducer read a byte whose class is known; what is said about output it does not check.
func (c *codec) advance(st *State, b Lin) {
	out, z := transduce(c.kind, int(st.Mode["z"][0]-'0'), int(c.classes(st, b)[0]-'0'))
	_ = out
	st.setMode("z", string(byte('0'+z)))
	st.setGhost("pos", VInt{addK(c.ghost(st, "pos"), 1)})
}

// next is what the transducer does with a byte of a class.
func (c *codec) next(st *State, b Lin) (insert, drop bool) {
	cl := c.classes(st, b)[0]
	two := st.Mode["z"] == "2"
	return c.kind == encap && two && cl <= '3', c.kind == decap && two && cl == '3'
}

// store handles a byte that is stored into memory which has been allocated for the output.
func (c *codec) store(st *State, ins *ssa.Store) []*State {
	p, ok := c.in.eval(st, ins.Addr).(VPtr)
	if !ok || len(p.Path) != 1 || !p.Path[0].Arr || !st.isNil(sub(k1, p.Nil)) {
		return []*State{st}
	}
	a, ok := c.in.load(st, p.Obj, nil).(*Arr)
	if !ok {
		return []*State{st}
	}
	v, ok := c.in.eval(st, ins.Val).(VInt)
	if !ok || !isByte(a.Et) {
		return []*State{st}
	}
	c.x.must(p.Obj != c.buf.Obj, c.name+":argument", "the argument is changed")
	if n, ok := c.in.objs[p.Obj].T.(*types.Array); !ok || n.Len() >= 0 {
		return []*State{st} // arguments of append
	}
	if !c.x.must(st.isEq(p.Path[0].Idx, c.ghost(st, "outlen")), c.name+":store", "a byte is stored elsewhere than after the output") {
		return []*State{st}
	}
	c.x.count("outputs", 1)
	states := c.emit(st, v.L)
	for _, t := range states {
		t.setGhost("outlen", VInt{addK(c.ghost(t, "outlen"), 1)})
	}
	return states
}

// copies handles bytes that are copied to memory which has been allocated for the output.
func (c *codec) copies(cc *callCtx) ([]Outcome, bool) {
	in, st := c.in, cc.st
	dst, ok := cc.args[0].(VSlice)
	src, ok2 := cc.args[1].(VSlice)
	if !ok || !ok2 {
		return nil, false
	}
	c.x.must(dst.Obj != c.buf.Obj, c.name+":argument", "the argument is changed")
	if !c.x.must(st.isEq(dst.Off, c.ghost(st, "outlen")) && st.isLe(src.Len, dst.Len), c.name+":store", "bytes are copied elsewhere than after the output") {
		return nil, false
	}
	c.x.count("outputs", 1)
	var r []Outcome
	for _, t := range c.all(st, in.window(st, src)) {
		t.setGhost("outlen", VInt{add(c.ghost(t, "outlen"), src.Len)})
		d := *cc
		d.st = t
		r = append(r, in.copyOp(&d)...)
	}
	return r, true
}

// all handles output.
func (c *codec) all(st *State, src []Seg) []*State {
	states := []*State{st}
	for _, s := range src {
		var next []*State
		for _, t := range states {
			next = append(next, c.consume(t, s)...)
		}
		states = next
	}
	return states
}

// call handles what is appended.
func (c *codec) call(cc *callCtx) ([]Outcome, bool) {
	if cc.name == "builtin.copy" {
		return c.copies(cc)
	}
	if cc.name != "builtin.append" || len(cc.args) != 2 {
		return nil, false
	}
	v, ok := cc.ins.(ssa.Value)
	if !ok {
		return nil, false
	}
	if e, ok := under(sliceElem(v.Type())).(*types.Basic); !ok || e.Kind() != types.Byte {
		return nil, false
	}
	in, st := c.in, cc.st
	dst, ok := cc.args[0].(VSlice)
	if !ok {
		return nil, false
	}
	var src []Seg
	switch t := cc.args[1].(type) {
	case VSlice:
		src = in.window(st, t)
	case VStr:
		src = t.S
	}
	n := dst.Len
	if st.isNil(dst.Nil) {
		n = k0
	}
	c.x.must(st.isEq(n, c.ghost(st, "outlen")), c.name+":append", "bytes are appended to something else than the output")
	c.x.count("outputs", 1)
	var r []Outcome
	for _, t := range c.all(st, src) {
		t.setGhost("outlen", VInt{add(c.ghost(t, "outlen"), segsLen(src))})
		d := *cc
		d.st = t
		r = append(r, in.appendOp(&d)...)
	}
	return r, true
}

func (c *codec) consume(st *State, s Seg) []*State {
	states := []*State{st}
	each := func(f func(t *State) []*State) {
		var next []*State
		for _, t := range states {
			next = append(next, f(t)...)
		}
		states = next
	}
	if s.Kind == SBase && s.ID == c.base.ID {
		return c.copied(st, st.norm(sub(s.Off, c.base.Off)), s.N)
	}
	n, ok := st.konst(s.N)
	if !c.x.must(ok && n <= 16, c.name+":bytes", "it is not known which bytes are appended: %s", st.segsString([]Seg{s})) {
		return states
	}
	for i := int64(0); i < n; i++ {
		i := i
		each(func(t *State) []*State {
			v, ok := c.in.oneElem(t, s, byteT, konst(i)).(VInt)
			if !c.x.must(ok, c.name+":bytes", "it is not known which bytes are appended") {
				return []*State{t}
			}
			return c.emit(t, v.L)
		})
	}
	return states
}

// copied handles a part of the input that is appended.
func (c *codec) copied(st *State, from, n Lin) []*State {
	if !c.x.must(st.isEq(from, c.ghost(st, "flushed")), c.name+":copied", "the part of the input that is appended starts at %s instead of %s", from, c.ghost(st, "flushed")) {
		return []*State{st}
	}
	to := st.norm(add(from, n))
	states := []*State{st}
	for i := 0; i < 5; i++ {
		var next []*State
		done := true
		for _, t := range states {
			pos := c.ghost(t, "pos")
			if t.isLe(to, pos) {
				next = append(next, t)
				continue
			}
			if !t.isLt(pos, to) {
				u := t.clone()
				u.assumeLe(to, pos)
				t.assumeLt(pos, to)
				if !u.C.bot {
					next = append(next, u)
				}
				if t.C.bot {
					continue
				}
			}
			done = false
			b := c.at(t, pos)
			for _, u := range c.fork(t, b) {
				insert, drop := c.next(u, b)
				c.x.must(!insert && !drop, c.name+":copied", "a part of the input that needs conversion is appended as it is")
				c.advance(u, b)
				next = append(next, u)
			}
		}
		states = next
		if done {
			for _, t := range states {
				t.setGhost("flushed", VInt{to})
			}
			return states
		}
	}
	c.x.must(false, c.name+":copied", "a part of the input is appended that has not been looked at")
	return states
}

// emit handles a byte that is appended.
func (c *codec) emit(st *State, v Lin) []*State {
	key := c.name + ":byte"
	pos, flushed := c.ghost(st, "pos"), c.ghost(st, "flushed")
	if c.loose {
		return c.guarded(st, v)
	}
	if st.isLt(flushed, pos) {
		c.x.must(st.isEq(v, c.at(st, flushed)), key, "%s is appended instead of byte %s of the input", st.norm(v), flushed)
		st.setGhost("flushed", VInt{addK(flushed, 1)})
		return []*State{st}
	}
	if !c.x.must(st.isEq(flushed, pos), key, "it is not known how far the input has been looked at") {
		return []*State{st}
	}
	if !c.x.must(st.isLt(pos, c.buf.Len), key, "%s is appended after the end of the input", st.norm(v)) {
		return []*State{st}
	}
	var r []*State
	b := c.at(st, pos)
	for _, t := range c.fork(st, b) {
		insert, drop := c.next(t, b)
		switch {
		case insert:
			c.x.must(t.isEq(v, konst(3)), key, "%s is appended where a byte has to be inserted", t.norm(v))
			t.setMode("z", "0")
			r = append(r, t)
		case drop:
			c.advance(t, b)
			t.setGhost("flushed", VInt{c.ghost(t, "pos")})
			r = append(r, c.emit(t, v)...)
		default:
			c.x.must(t.isEq(v, b), key, "%s is appended instead of byte %s of the input", t.norm(v), pos)
			c.advance(t, b)
			t.setGhost("flushed", VInt{c.ghost(t, "pos")})
			r = append(r, t)
		}
	}
	return r
}

// guarded handles a byte of which only matters whether it is allowed after the last ones.
func (c *codec) guarded(st *State, v Lin) []*State {
	var r []*State
	for _, t := range c.fork(st, v) {
		if t.Mode["z"] == "2" {
			c.x.must(t.isLe(konst(3), v), c.name+":zeros", "a byte below 3 may be appended after two zero bytes")
		}
		z := byte('0')
		if t.isEq(v, k0) {
			z = min(t.Mode["z"][0]+1, '2')
		}
		t.setMode("z", string(z))
		// Bytes of the input are used in order.
		for k := int64(0); k < 2; k++ {
			if pos := c.ghost(t, "pos"); eqLin(t.norm(v), t.norm(c.at(t, addK(pos, k)))) || t.isEq(v, c.at(t, addK(pos, k))) {
				t.setGhost("pos", VInt{addK(pos, k+1)})
				t.setGhost("flushed", VInt{addK(pos, k+1)})
				break
			}
		}
		r = append(r, t)
	}
	return r
}

const lookahead = 3

// split partitions states at the head of a loop.
func (c *codec) split(st *State, head *ssa.BasicBlock) []*State {
	if _, ok := st.Ghost["pos"]; !ok {
		return []*State{st}
	}
	states := []*State{st}
	// The transducer follows an index that the loop advances.
	for i := 0; i < 4; i++ {
		var next []*State
		more := false
		for _, t := range states {
			f, ok := c.follow(t, head)
			more = more || ok
			next = append(next, f...)
		}
		states = next
		if !more {
			break
		}
	}
	var r []*State
	for _, t := range states {
		r = append(r, c.partition(t, 0)...)
	}
	return r
}

func (c *codec) follow(st *State, head *ssa.BasicBlock) ([]*State, bool) {
	pos := c.ghost(st, "pos")
	if !st.isLt(pos, c.buf.Len) {
		return []*State{st}, false
	}
	behind := false
	for _, ins := range head.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var at Lin
		switch v := st.top().Env[phi].(type) {
		case VInt:
			if !isIntType(phi.Type()) {
				continue
			}
			at = v.L
			if nextOf(phi) {
				at = addK(at, 1)
			}
		case VSlice:
			if w := c.in.window(st, v); len(w) == 1 && w[0].Kind == SBase && w[0].ID == c.base.ID {
				at = sub(w[0].Off, c.base.Off)
			}
		}
		if st.isLt(pos, at) && st.isLe(at, c.buf.Len) {
			behind = true
		}
	}
	if !behind {
		return []*State{st}, false
	}
	b := c.at(st, pos)
	var r []*State
	more := false
	for _, t := range c.fork(st, b) {
		insert, drop := c.next(t, b)
		same := t.isEq(pos, c.ghost(t, "flushed"))
		if c.loose {
			insert, drop = false, false
			t.setGhost("pos", VInt{addK(pos, 1)})
			more = true
		} else if !insert && (!drop || same) {
			c.advance(t, b)
			if drop {
				t.setGhost("flushed", VInt{c.ghost(t, "pos")})
			}
			more = true
		}
		r = append(r, t)
	}
	return r, more
}

// nextOf reports whether a loop starts by advancing a variable, like loops over a range do.
func nextOf(phi *ssa.Phi) bool {
	for _, ins := range phi.Block().Instrs {
		if b, ok := ins.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == phi {
			k, ok := b.Y.(*ssa.Const)
			return ok && k.Int64() == 1
		}
	}
	return false
}

// finish lets the transducer read bytes at the end for which it puts nothing out.
func (c *codec) finish(st *State) {
	for i := 0; i < lookahead; i++ {
		pos := c.ghost(st, "pos")
		if c.loose || !st.isLt(pos, c.buf.Len) || !st.isEq(pos, c.ghost(st, "flushed")) {
			return
		}
		b := c.at(st, pos)
		if len(c.classes(st, b)) != 1 {
			return
		}
		if _, drop := c.next(st, b); !drop {
			return
		}
		c.advance(st, b)
		st.setGhost("flushed", VInt{c.ghost(st, "pos")})
	}
}

func isIntType(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Int
}

// partition sets the mode by classes of the next bytes of the input.
func (c *codec) partition(st *State, k int64) []*State {
	pos := c.ghost(st, "pos")
	if k == 0 {
		st.setMode("next", "")
		// Remaining length.
		rem := sub(c.buf.Len, pos)
		lo, hi := int64(0), int64(lookahead)
		for lo < lookahead && st.isLt(konst(lo), rem) {
			lo++
		}
		for hi > lo && st.isLt(rem, konst(hi)) {
			hi--
		}
		seen := 0
		for seen < 2 && st.isLt(konst(int64(seen)), pos) {
			seen++
		}
		st.setMode("seen", string(byte('0'+seen)))
		st.setMode("rem", string(byte('0'+lo))+string(byte('0'+hi)))
	}
	if k == lookahead {
		return []*State{st}
	}
	b := c.at(st, addK(pos, k))
	cl := c.classes(st, b)
	if len(cl) == len(byteClasses) {
		st.setMode("next", st.Mode["next"]+"?")
		return c.partition(st, k+1)
	}
	var r []*State
	for _, t := range c.fork(st, b) {
		t.setMode("next", t.Mode["next"]+c.classes(t, b)[:1])
		r = append(r, c.partition(t, k+1)...)
	}
	return r
}

// head restores what a mode tells.
func (c *codec) head(st *State) {
	m := st.Mode["next"]
	if m == "" {
		return
	}
	pos := c.ghost(st, "pos")
	rem := sub(c.buf.Len, pos)
	r := st.Mode["rem"]
	st.assumeLe(konst(int64(r[0]-'0')), rem)
	seen := st.Mode["seen"][0] - '0'
	st.assumeLe(konst(int64(seen)), pos)
	// The state of the transducer tells about the last bytes.
	if z := st.Mode["z"][0] - '0'; !c.loose {
		for k := byte(1); k <= seen && k <= z+1; k++ {
			b := c.at(st, addK(pos, -int64(k)))
			if k <= z {
				st.assumeEq(b, k0)
			} else if c.kind == decap && z < 2 {
				st.assumeLe(k1, b)
			}
		}
	}
	if r[1] < '0'+lookahead {
		st.assumeLe(rem, konst(int64(r[1]-'0')))
	}
	for k := range m {
		if m[k] != '?' {
			assumeClass(st, c.at(st, addK(pos, int64(k))), m[k])
		}
	}
}
