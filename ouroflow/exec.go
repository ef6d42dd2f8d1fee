package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Interp is an abstract interpreter of SSA form.
type Interp struct {
	prog     *ssa.Program
	objs     []ObjInfo
	lazyObjs map[string]ObjID
	counter  int
	globals  map[*ssa.Global]Value
	base     map[ObjID]Value // heap after initialization of packages
	globObj  map[*ssa.Global]ObjID
	mutable  map[*ssa.Global]bool // globals written outside of initialization
	lazyHook func(*State, VLazy) Value
	merging  int
	modes    int  // limit of steps of a fixpoint over modes
	alts     bool // there are arrays with alternatives
	keepSum  bool

	imprecise int
	fns       map[*ssa.Function]*fnInfo
	quiet     int  // obligations are not recorded while positive
	hard      bool // joins keep constraints, and look for no others
	obs       map[string]*Obligation
	order     []string
	prefix    string // distinguishes obligations of different analyses
	steps     int
	budget    int
	step      int
	pinned    map[Sym]int // symbols that joins keep
	tmpl      map[ObjID][]invTemplate
	depth     int
	undecided map[*ssa.BasicBlock]bool // headers whose condition is not decided
	stack     []*ssa.Function
	txn       []func()
	inTxn     int

	noPanics bool // panics are somebody else's obligation
	unrolls  int  // most iterations of loops with decided conditions
	mapOnce  bool // iteration over maps with known entries visits each of them once
	scripted bool // loops that wait for a finite script are unrolled
	apart    int  // states are kept apart outside of fixpoints while there are at most that many
	h        Hooks

	fnsSeen  map[*ssa.Function]bool
	sitesCnt map[string]int
	allBlks  map[*ssa.BasicBlock]bool
}

// Hooks lets rules observe and replace parts of execution.
type Hooks struct {
	// Call may replace a call.
	Call func(c *callCtx) ([]Outcome, bool)
	// After is told about results of each call of a function with a body that has been interpreted.
	After  func(fn *ssa.Function, args []Value, outs []Outcome)
	Store  func(st *State, ins *ssa.Store, p VPtr, v Value)
	Send   func(st *State, ins ssa.Instruction, ch VChan, v Value)
	Recv   func(st *State, ins ssa.Instruction, ch VChan, t types.Type) Value
	Ready  func(st *State, ins ssa.Instruction, ch VChan, recv bool) int // whether a channel operation can proceed: 1 yes, 0 no, -1 unknown
	Go     func(st *State, ins *ssa.Go, c *callCtx)
	Append func(st *State, ins ssa.Instruction, dst VSlice, src []Seg, et types.Type)
	// Return is called before a frame of a function is left.
	Return func(st *State, fn *ssa.Function, ret []Value)
	Join   func(a, b *State, fn *ssa.Function, at *ssa.BasicBlock)
	// Split divides states that arrive at the head of a loop, for instance by modes; Head tells what is known about
	// states of a mode at the head of a loop.
	Split func(st *State, l *ssa.BasicBlock) []*State
	Head  func(st *State)
	// Divide divides states before something is stored.
	Divide func(st *State, ins *ssa.Store) []*State
	// Instr is called before each instruction.
	Instr func(st *State, ins ssa.Instruction)
	// Loops is called with the states at loop head and the states at back edges.
	Loops func(f *fnInfo, l *loop, runs []loopRun)
	// Fatal is told about calls that end the program.
	Fatal func(st *State, c *callCtx)
	// NoInline makes calls of a function opaque.
	NoInline func(fn *ssa.Function) bool
}

// Outcome is a state after a call.
type Outcome struct {
	St  *State
	Ret []Value
}

// callCtx describes a call.
type callCtx struct {
	in   *Interp
	st   *State
	ins  ssa.Instruction
	fn   *ssa.Function // callee if known
	name string        // full name of callee
	args []Value
	bind []Value
	sig  *types.Signature
	recv Value // interface value of an invoke
}

// Obligation is a condition that has to hold.
type Obligation struct {
	Rule, Where, Pos, Msg string
	Checked               int
	Failed                bool
}

func newInterp(prog *ssa.Program) *Interp {
	in := &Interp{prog: prog, objs: make([]ObjInfo, 1), lazyObjs: map[string]ObjID{}, globals: map[*ssa.Global]Value{},
		globObj: map[*ssa.Global]ObjID{}, fns: map[*ssa.Function]*fnInfo{}, obs: map[string]*Obligation{},
		undecided: map[*ssa.BasicBlock]bool{}, mutable: map[*ssa.Global]bool{}, fnsSeen: map[*ssa.Function]bool{},
		sitesCnt: map[string]int{}, budget: 40000000, allBlks: map[*ssa.BasicBlock]bool{}, pinned: map[Sym]int{}, unrolls: defaultUnroll}
	tab, strSyms = newSymTab(), map[string][]Sym{}
	return in
}

func (in *Interp) pos(ins ssa.Instruction) string {
	if ins == nil {
		return "?"
	}
	p := in.prog.Fset.Position(posOf(ins))
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, repoDir+"/"), p.Line)
}

// oblige records whether a condition holds.
func (in *Interp) oblige(st *State, rule string, ins ssa.Instruction, ok bool, msg string) {
	if in.quiet > 0 || st != nil && st.C.bot {
		return
	}
	where := "?"
	pos := "?"
	if ins != nil {
		pos = in.pos(ins)
		if ins.Parent() != nil {
			where = ins.Parent().RelString(nil)
		}
		where += "/" + describeInstr(ins)
	}
	in.obligeAt(rule, where, pos, ok, msg)
}

func (in *Interp) obligeAt(rule, where, pos string, ok bool, msg string) {
	if in.quiet > 0 {
		return
	}
	if in.inTxn > 0 {
		in.txn = append(in.txn, func() { in.record(rule, where, pos, ok, msg) })
		return
	}
	in.record(rule, where, pos, ok, msg)
}

func (in *Interp) record(rule, where, pos string, ok bool, msg string) {
	key := in.prefix + rule + "@" + where + "@" + pos
	o := in.obs[key]
	if o == nil {
		o = &Obligation{Rule: rule, Where: in.prefix + where, Pos: pos}
		in.obs[key] = o
		in.order = append(in.order, key)
	}
	o.Checked++
	if !ok && !o.Failed {
		o.Failed = true
		o.Msg = msg
	}
}

func describeInstr(ins ssa.Instruction) string {
	s := fmt.Sprintf("%T", ins)
	s = strings.TrimPrefix(s, "*ssa.")
	if c, ok := ins.(ssa.CallInstruction); ok {
		s += ":" + calleeName(c.Common())
	}
	return s
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	switch f := c.Value.(type) {
	case *ssa.Function:
		return fnName(f)
	case *ssa.Builtin:
		return "builtin." + f.Name()
	case *ssa.MakeClosure:
		return fnName(f.Fn.(*ssa.Function))
	}
	return "dynamic"
}

func fnName(f *ssa.Function) string {
	if f.Origin() != nil {
		f = f.Origin()
	}
	return f.RelString(nil)
}

// giveUp records that the analysis could not follow the program.
func (in *Interp) giveUp(st *State, msg string) {
	in.imprecise++
	if in.quiet > 0 || st != nil && st.C != nil && st.C.bot {
		return
	}
	where := "?"
	if len(in.stack) > 0 {
		where = in.stack[len(in.stack)-1].RelString(nil)
	}
	in.obligeAt("analysable", where, where, false, "analysis could not follow: "+msg)
}

type tooLong struct{}

func isModule(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return p != nil && strings.HasPrefix(p.Path(), modulePath)
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if f.Origin() != nil && f.Origin().Pkg != nil {
			return f.Origin().Pkg.Pkg
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg()
		}
	}
	// Wrappers have neither; look at the receiver.
	if fn.Signature.Recv() != nil {
		t := fn.Signature.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg()
		}
	}
	return nil
}

var inlineStd = map[string]bool{
	"encoding/binary": true,
}

func (in *Interp) inlined(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	if in.h.NoInline != nil && in.h.NoInline(fn) {
		return false
	}
	if isModule(fn) {
		return true
	}
	p := fnPkg(fn)
	if p == nil {
		return fn.Synthetic != ""
	}
	if p.Path() == "encoding/binary" {
		n := fnName(fn)
		return strings.HasPrefix(n, "(encoding/binary.bigEndian)") || strings.HasPrefix(n, "(encoding/binary.littleEndian)")
	}
	return false
}

// callFn executes a function.
func (in *Interp) callFn(st *State, fn *ssa.Function, args, bind []Value) []Outcome {
	for _, f := range in.stack {
		if f == fn {
			in.giveUp(st, "recursion in "+fn.RelString(nil))
			return in.havocCall(st, fn.Signature, args)
		}
	}
	if len(in.stack) > 40 {
		in.giveUp(st, "call depth")
		return in.havocCall(st, fn.Signature, args)
	}
	in.stack = append(in.stack, fn)
	defer func() { in.stack = in.stack[:len(in.stack)-1] }()
	in.fnsSeen[fn] = true
	f := in.info(fn)
	if f.bad != "" {
		in.giveUp(st, f.bad+" in "+fn.RelString(nil))
		return in.havocCall(st, fn.Signature, args)
	}
	st = st.clone()
	env := make(map[ssa.Value]Value, len(args)+len(bind))
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		if i < len(bind) {
			env[p] = bind[i]
		}
	}
	st.Frames = append(st.Frames[:len(st.Frames):len(st.Frames)], &Frame{Fn: fn, Env: env})
	r := &runner{in: in, f: f}
	r.region(nil, map[*ssa.BasicBlock][]*State{fn.Blocks[0]: {st}})
	outs := in.mergeOutcomes(r.rets, fn)
	if in.h.After != nil {
		in.h.After(fn, args, outs)
	}
	return outs
}

func (in *Interp) mergeOutcomes(rets []Outcome, fn *ssa.Function) []Outcome {
	groups := map[string][]Outcome{}
	var order []string
	for i, o := range rets {
		if o.St.C.bot {
			continue
		}
		k := in.retKey(o)
		if len(rets) <= in.apart {
			k = fmt.Sprint(i)
		}
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], o)
	}
	var res []Outcome
	for _, k := range order {
		g := groups[k]
		o := g[0]
		for _, p := range g[1:] {
			o = in.joinOutcome(o, p, fn)
		}
		res = append(res, o)
	}
	return res
}

// joinOutcome joins states together with returned values.
func (in *Interp) joinOutcome(a, b Outcome, fn *ssa.Function) Outcome {
	in.gcWith(a.St, a.Ret)
	in.gcWith(b.St, b.Ret)
	sa, sb := a.St.clone(), b.St.clone()
	sa.setGhost("ret#", VTuple{a.Ret})
	sb.setGhost("ret#", VTuple{b.Ret})
	if in.h.Join != nil {
		in.h.Join(sa, sb, fn, nil)
	}
	r := in.join(sa, sb, false)
	t := r.Ghost["ret#"].(VTuple)
	r.setGhost("ret#", nil)
	return Outcome{r, t.V}
}

func (in *Interp) retKey(o Outcome) string {
	k := modeKey(o.St)
	for _, v := range o.Ret {
		k += "|" + in.shapeKey(o.St, v)
	}
	return k
}

func modeKey(st *State) string {
	if len(st.Mode) == 0 {
		return ""
	}
	var ks []string
	for k, v := range st.Mode {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// shapeKey tells apart values that paths are kept separate for.
func (in *Interp) shapeKey(st *State, v Value) string {
	n := func(l Lin) string {
		if k, ok := st.konst(l); ok {
			return fmt.Sprint(k)
		}
		return "?"
	}
	switch x := v.(type) {
	case VInt:
		if k, ok := st.konst(x.L); ok && k >= 0 && k <= 1 {
			return fmt.Sprint(k)
		}
		return "*"
	case VPtr:
		return n(x.Nil)
	case VIface:
		return n(x.Nil)
	case VFunc:
		s := n(x.Nil)
		if x.Fn != nil {
			s += x.Fn.String()
		}
		return s
	}
	return "*"
}

// havocCall returns arbitrary results.
func (in *Interp) havocCall(st *State, sig *types.Signature, args []Value) []Outcome {
	st = st.clone()
	var ret []Value
	for i := 0; i < sig.Results().Len(); i++ {
		ret = append(ret, in.freshVal(st, sig.Results().At(i).Type(), "havoc"))
	}
	return []Outcome{{st, ret}}
}

// runner executes the body of a function.
type runner struct {
	in   *Interp
	f    *fnInfo
	rets []Outcome
}

type edge struct {
	to *ssa.BasicBlock
	st *State
}

// region executes blocks of a loop (or of the whole function) once.  It returns states that reach the
// loop header again and states that leave the loop.
func (r *runner) region(l *loop, pending map[*ssa.BasicBlock][]*State) (back []*State, exits []edge) {
	in, f := r.in, r.f
	for _, b := range f.rpo {
		states := pending[b]
		if len(states) == 0 {
			continue
		}
		if l != nil && !l.blocks[b] {
			continue
		}
		delete(pending, b)
		var out []edge
		if il := f.loopAt[b]; il != nil && il != l {
			out = r.loop(il, states)
		} else {
			if len(states) > 1 {
				states = in.merge(f, b, states)
			}
			for _, st := range states {
				out = append(out, r.block(b, st)...)
			}
		}
		for _, e := range out {
			if e.st.C.bot {
				continue
			}
			switch {
			case l != nil && e.to == l.head:
				back = append(back, e.st)
			case l == nil || l.blocks[e.to]:
				pending[e.to] = append(pending[e.to], e.st)
			default:
				exits = append(exits, e)
			}
		}
	}
	return
}

// merge joins states at a block keeping those apart that differ in decisive values.
func (in *Interp) merge(f *fnInfo, b *ssa.BasicBlock, states []*State) []*State {
	live := f.liveIn[b]
	for _, s := range states {
		prune(s, live)
	}
	if len(states) <= in.apart {
		var res []*State
		for _, s := range states {
			if !s.C.bot {
				res = append(res, s)
			}
		}
		return res
	}
	key := func(s *State, fine int) string {
		k := modeKey(s)
		if fine == 0 {
			return k
		}
		for _, v := range sortedEnv(s.top().Env) {
			x := s.top().Env[v]
			t := under(v.Type())
			bt, basic := t.(*types.Basic)
			switch {
			case basic && bt.Info()&types.IsBoolean != 0:
				k += "|" + v.Name() + in.shapeKey(s, x)
			case basic && bt.Info()&types.IsInteger != 0 && fine > 1:
				if p, ok := v.(*ssa.Phi); ok && p.Block() == b || onlyConst(v) {
					if c, ok := s.konst(x.(VInt).L); ok && c >= -64 && c <= 64 {
						k += fmt.Sprintf("|%s%d", v.Name(), c)
					}
				}
			case basic:
			default:
				switch x.(type) {
				case VPtr, VIface, VFunc:
					k += "|" + v.Name() + in.shapeKey(s, x)
				}
			}
		}
		return k
	}
	for fine := 2; ; fine-- {
		groups := map[string][]*State{}
		var order []string
		for _, s := range states {
			if s.C.bot {
				continue
			}
			k := key(s, fine)
			if _, ok := groups[k]; !ok {
				order = append(order, k)
			}
			groups[k] = append(groups[k], s)
		}
		if len(order) > 12 && fine > 0 {
			continue
		}
		var res []*State
		for _, k := range order {
			res = append(res, in.joinAll(groups[k], f.fn, b))
		}
		return res
	}
}

// onlyConst tells whether a value is a phi of constants.
func onlyConst(v ssa.Value) bool {
	p, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, e := range p.Edges {
		if _, ok := e.(*ssa.Const); !ok {
			if q, ok := e.(*ssa.Phi); !ok || q == p {
				return false
			}
		}
	}
	return true
}

func (in *Interp) joinAll(g []*State, fn *ssa.Function, at *ssa.BasicBlock) *State {
	s := g[0]
	for _, x := range g[1:] {
		in.gc(s)
		in.gc(x)
		if in.h.Join != nil {
			in.h.Join(s, x, fn, at)
		}
		s = in.join(s, x, false)
	}
	return s
}

func (in *Interp) gc(st *State) { in.gcWith(st, nil) }

// gcWith drops objects that cannot be reached.
func (in *Interp) gcWith(st *State, extra []Value) {
	seen := map[ObjID]bool{}
	for _, f := range st.Frames {
		for _, v := range f.Env {
			in.reachVal(st, v, seen)
		}
		for _, d := range f.Defers {
			in.reachVal(st, d.fn, seen)
			for _, v := range d.args {
				in.reachVal(st, v, seen)
			}
		}
	}
	for _, v := range st.Ghost {
		in.reachVal(st, v, seen)
	}
	for _, v := range extra {
		in.reachVal(st, v, seen)
	}
	for o := range st.Heap {
		i := in.objs[o]
		if len(st.Frames) == 0 && strings.Contains(i.Lazy, transient) {
			continue
		}
		if i.Global != nil || i.Lazy != "" || i.Escaped {
			in.reachObj(st, o, seen)
		}
	}
	n := 0
	for o := range st.Heap {
		if !seen[o] {
			n++
		}
	}
	if n == 0 {
		return
	}
	h := make(map[ObjID]Value, len(st.Heap)-n)
	for o, v := range st.Heap {
		if seen[o] {
			h[o] = v
		}
	}
	st.Heap = h
	st.heapSh = false
}

const defaultUnroll = 13

// loop executes a loop to its fixpoint.
func (r *runner) loop(l *loop, entry []*State) []edge {
	in, f := r.in, r.f
	entry = in.merge(f, l.head, entry)
	var out []edge
	for _, st := range entry {
		if st.C.bot {
			continue
		}
		if e, ok := r.unroll(l, st); ok {
			out = append(out, e...)
			continue
		}
		out = append(out, r.fixpoint(l, st)...)
	}
	return out
}

func headerExits(l *loop) bool {
	for _, s := range l.head.Succs {
		if !l.blocks[s] {
			return true
		}
	}
	return false
}

// callsIn tells whether a block calls a function that is interpreted.
func callsIn(b *ssa.BasicBlock) bool {
	for _, ins := range b.Instrs {
		if c, ok := ins.(*ssa.Call); ok && c.Call.StaticCallee() != nil && isModule(c.Call.StaticCallee()) {
			return true
		}
	}
	return false
}

// unroll executes loops with constant number of iterations.
func (r *runner) unroll(l *loop, st *State) ([]edge, bool) {
	in := r.in
	scripted := in.scripted && (!headerExits(l) || callsIn(l.head))
	if !headerExits(l) && !scripted {
		return nil, false
	}
	// Obligations are recorded only when it works out.
	save := in.undecided[l.head]
	mark := len(in.txn)
	in.inTxn++
	nrets := len(r.rets)
	var out []edge
	ok := func() bool {
		cur := []*State{st.clone()}
		for n := 0; n <= in.unrolls; n++ {
			in.undecided[l.head] = false
			// Only the decision matters here.
			if !scripted {
				in.quiet++
				for _, s := range cur {
					(&runner{in: in, f: r.f}).block(l.head, s.clone())
				}
				in.quiet--
				if in.undecided[l.head] {
					return false
				}
			}
			back, exits := r.region(l, map[*ssa.BasicBlock][]*State{l.head: cur})
			out = append(out, exits...)
			if len(back) == 0 {
				return true
			}
			cur = in.merge(r.f, l.head, back)
		}
		return false
	}()
	in.inTxn--
	in.undecided[l.head] = save
	if !ok {
		in.txn = in.txn[:mark]
		r.rets = r.rets[:nrets]
		return nil, false
	}
	if in.inTxn == 0 {
		t := in.txn
		in.txn = nil
		for _, f := range t {
			f()
		}
	}
	return out, true
}

func (in *Interp) splitHeads(l *loop, states []*State) []*State {
	if in.h.Split == nil {
		return states
	}
	var r []*State
	for _, s := range states {
		if !s.C.bot {
			r = append(r, in.h.Split(s, l.head)...)
		}
	}
	return r
}

// fixpoint computes loop invariant and executes the loop once from it.
func (r *runner) fixpoint(l *loop, st *State) []edge {
	in, f := r.in, r.f
	live := f.liveIn[l.head]
	prune(st, live)
	in.gc(st)
	// What the loop changes is related to what was there before.
	var pinned []Sym
	for s := range in.valueSyms(st) {
		pinned = append(pinned, s)
		in.pinned[s]++
	}
	defer func() {
		for _, s := range pinned {
			if in.pinned[s]--; in.pinned[s] == 0 {
				delete(in.pinned, s)
			}
		}
	}()
	heads := map[string]*State{}
	var order []string
	iters := map[string]int{}
	key := func(s *State) string { return modeKey(s) }
	add := func(s *State) (string, bool) {
		k := key(s)
		h, ok := heads[k]
		if !ok {
			heads[k] = s
			order = append(order, k)
			return k, true
		}
		if in.covers(h, s) {
			return k, false
		}
		iters[k]++
		if in.h.Join != nil {
			in.h.Join(h, s, f.fn, l.head)
		}
		// Late, only what is known already may stay.
		was := in.hard
		in.hard = in.hard || iters[k] > 9
		heads[k] = in.join(h, s, iters[k] > 2)
		in.hard = was
		in.gc(heads[k])
		return k, true
	}
	start := func(k string) map[*ssa.BasicBlock][]*State {
		h := heads[k].clone()
		if in.h.Head != nil {
			in.h.Head(h)
		}
		return map[*ssa.BasicBlock][]*State{l.head: {h}}
	}
	work := []string{}
	for _, s := range in.splitHeads(l, []*State{st}) {
		k, _ := add(s)
		work = append(work, k)
	}
	in.quiet++
	fail := false
	for n := 0; len(work) > 0; n++ {
		k := work[0]
		work = work[1:]
		if n > max(60, in.modes) || iters[k] > 30 {
			fail = true
			break
		}
		sub := &runner{in: in, f: f}
		back, _ := sub.region(l, start(k))
		back = in.splitHeads(l, back)
		for _, b := range back {
			prune(b, live)
			in.gc(b)
		}
		back = in.mergeMode(back, f, l.head)
		for _, b := range back {
			if nk, ch := add(b); ch {
				dup := false
				for _, w := range work {
					if w == nk {
						dup = true
					}
				}
				if !dup {
					work = append(work, nk)
				}
			}
		}
	}
	in.quiet--
	if fail {
		in.giveUp(st, fmt.Sprintf("loop at %s has no fixpoint", in.pos(l.head.Instrs[0])))
	}
	if debugLoops {
		for _, k := range order {
			fmt.Printf("LOOP %s %s iters=%d\n", f.fn, in.pos(l.head.Instrs[0]), iters[k])
			h := heads[k]
			for _, v := range sortedEnv(h.top().Env) {
				fmt.Printf("   %s %s = %s\n", v.Name(), v.Type(), h.describe(h.top().Env[v]))
			}
			for o, v := range h.Heap {
				fmt.Printf("   obj%d = %s\n", o, h.describe(v))
			}
			fmt.Printf("   %s\n", h.C)
		}
	}
	var out []edge
	var runs []loopRun
	for _, k := range order {
		h := heads[k]
		// Values at the end of an iteration are related to those at its start.
		hs := in.valueSyms(h)
		for s := range hs {
			in.pinned[s]++
		}
		back, exits := r.region(l, start(k))
		for s := range hs {
			if in.pinned[s]--; in.pinned[s] == 0 {
				delete(in.pinned, s)
			}
		}
		runs = append(runs, loopRun{h, back, func(s *State) []*State {
			in.quiet++
			defer func() { in.quiet-- }()
			b, _ := (&runner{in: in, f: f}).region(l, map[*ssa.BasicBlock][]*State{l.head: {s.clone()}})
			return b
		}, map[*State]bool{}})
		out = append(out, exits...)
	}
	if in.h.Loops != nil && in.quiet == 0 {
		in.h.Loops(f, l, runs)
	}
	return out
}

var debugLoops bool

func (in *Interp) mergeMode(states []*State, f *fnInfo, b *ssa.BasicBlock) []*State {
	groups := map[string][]*State{}
	var order []string
	for _, s := range states {
		if s.C.bot {
			continue
		}
		k := modeKey(s)
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], s)
	}
	var res []*State
	for _, k := range order {
		res = append(res, in.joinAll(groups[k], f.fn, b))
	}
	return res
}

// block executes a block and returns states at outgoing edges.
func (r *runner) block(b *ssa.BasicBlock, st *State) []edge {
	var out []edge
	r.instrs(b, 0, st, &out)
	return out
}

func (r *runner) instrs(b *ssa.BasicBlock, i int, st *State, out *[]edge) {
	in := r.in
	for ; i < len(b.Instrs); i++ {
		if st.C.bot {
			return
		}
		in.steps++
		if in.steps > in.budget {
			panic(tooLong{})
		}
		if in.quiet == 0 {
			in.allBlks[b] = true
		}
		ins := b.Instrs[i]
		if in.h.Instr != nil {
			in.h.Instr(st, ins)
		}
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			r.edge(b, b.Succs[0], 0, st, out)
			return
		case *ssa.If:
			c := in.eval(st, x.Cond).(VInt).L
			if k, ok := st.konst(c); ok {
				if k == 1 {
					in.assumeCond(st, c, true)
					r.edge(b, b.Succs[0], 0, st, out)
				} else {
					in.assumeCond(st, c, false)
					r.edge(b, b.Succs[1], 1, st, out)
				}
				return
			}
			t := st.clone()
			in.assumeCond(t, c, true)
			in.assumeCond(st, c, false)
			in.nilLen(t, x.Cond)
			in.nilLen(st, x.Cond)
			if !t.C.bot && !st.C.bot {
				in.undecided[b] = true
			}
			if !t.C.bot {
				r.edge(b, b.Succs[0], 0, t, out)
			}
			if !st.C.bot {
				r.edge(b, b.Succs[1], 1, st, out)
			}
			return
		case *ssa.Return:
			ret := make([]Value, len(x.Results))
			for k, v := range x.Results {
				ret[k] = in.eval(st, v)
			}
			if in.h.Return != nil {
				in.h.Return(st, r.f.fn, ret)
			}
			st.Frames = st.Frames[: len(st.Frames)-1 : len(st.Frames)-1]
			r.rets = append(r.rets, Outcome{st, ret})
			return
		case *ssa.Panic:
			in.panicAt(st, "panic", x, false, "explicit panic is reachable")
			return
		case *ssa.Call, *ssa.RunDefers, *ssa.Select, *ssa.Next, *ssa.TypeAssert, *ssa.Lookup, *ssa.BinOp, *ssa.Convert:
			states := in.fork(st, ins, r.f)
			for k, s := range states {
				if k == len(states)-1 {
					st = s
					continue
				}
				r.instrs(b, i+1, s, out)
			}
			if len(states) == 0 {
				return
			}
			continue
		case *ssa.Store:
			if in.h.Divide != nil {
				states := in.h.Divide(st, x)
				for _, s := range states[1:] {
					in.simple(s, ins)
					r.instrs(b, i+1, s, out)
				}
				st = states[0]
			}
			in.simple(st, ins)
		default:
			in.simple(st, ins)
		}
	}
}

// panicAt records an obligation whose failure makes the program panic.
func (in *Interp) panicAt(st *State, rule string, ins ssa.Instruction, ok bool, msg string) {
	if in.quiet == 0 {
		in.sitesCnt[rule]++
	}
	if in.noPanics {
		return
	}
	if !ok && debugOb && in.quiet == 0 {
		fmt.Printf("FAIL %s %s %s: %s\n", rule, in.pos(ins), ins, msg)
		for _, fr := range st.Frames {
			fmt.Printf("  in %s\n", fr.Fn)
			for _, v := range sortedEnv(fr.Env) {
				fmt.Printf("    %s = %s\n", v.Name(), st.describe(fr.Env[v]))
			}
		}
		fmt.Println("  ", st.C)
	}
	in.oblige(st, rule, ins, ok, msg)
}

var debugOb bool

// edge evaluates phis of the target.
func (r *runner) edge(from, to *ssa.BasicBlock, succ int, st *State, out *[]edge) {
	in := r.in
	k := -1
	for i, p := range to.Preds {
		if p == from {
			// Both edges of a condition may lead to the same block.
			if from.Succs[0] == to && len(from.Succs) > 1 && from.Succs[1] == to && succ == 1 && k < 0 {
				k = -2
				continue
			}
			k = i
			break
		}
	}
	if k < 0 {
		for i, p := range to.Preds {
			if p == from {
				k = i
			}
		}
	}
	var vals []Value
	var phis []*ssa.Phi
	for _, ins := range to.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, in.eval(st, p.Edges[k]))
	}
	for i, p := range phis {
		st.set(p, vals[i])
	}
	*out = append(*out, edge{to, st})
}

// nilLen notes that a slice which turned out to be nil has no elements.
func (in *Interp) nilLen(st *State, cond ssa.Value) {
	b, ok := cond.(*ssa.BinOp)
	if !ok || st.C.bot || b.Op != token.EQL && b.Op != token.NEQ {
		return
	}
	if c, ok := b.Y.(*ssa.Const); !ok || c.Value != nil {
		return
	}
	if v, ok := st.top().Env[b.X].(VSlice); ok && st.isEq(v.Nil, k1) {
		st.assumeEq(v.Len, k0)
		st.assumeEq(v.Cap, k0)
	}
}

// condDef says that a symbol is 1 exactly when L <= 0 (or == 0).
type condDef struct {
	L  Lin
	Eq bool
}

// strDef says that a symbol is 1 exactly when the string equals the constant.
type strDef struct {
	Key string
	Len Lin
	C   string
	V   VStr
}

// andDef says that a symbol is the conjunction of others.
type andDef struct{ A, B Lin }

// assumeCond assumes that condition is true or false.
func (in *Interp) assumeCond(st *State, c Lin, t bool) {
	c0 := c
	if t {
		st.assumeEq(c, k1)
	} else {
		st.assumeEq(c, k0)
	}
	if st.C.bot {
		return
	}
	// Symbols that were decided.
	for _, tm := range c0.T {
		in.condFacts(st, tm.S)
	}
	n := st.norm(c0)
	_ = n
}

// condFacts applies the definition of a symbol whose value is known.
func (in *Interp) condFacts(st *State, s Sym) {
	k, ok := st.konst(symL(s))
	if !ok {
		return
	}
	switch d := tab.info[s].Def.(type) {
	case condDef:
		switch {
		case d.Eq && k == 1:
			st.assumeEq(d.L, k0)
		case d.Eq:
			st.assumeNe(d.L, k0)
		case k == 1:
			st.assumeLe(d.L, k0)
		default:
			st.assumeLt(k0, d.L)
		}
	case strDef:
		if k == 1 {
			st.assumeEq(d.Len, konst(int64(len(d.C))))
			// Equal to no other constant.
			for _, o := range strSyms[d.Key] {
				if o != s {
					st.assumeEq(symL(o), k0)
				}
			}
		} else if d.C == "" {
			st.assumeLt(k0, d.Len)
		}
	case andDef:
		if k == 1 {
			in.assumeCond(st, d.A, true)
			in.assumeCond(st, d.B, true)
		}
	}
}

var strSyms = map[string][]Sym{}

// eval returns the value of an operand.
func (in *Interp) eval(st *State, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return in.constVal(st, x)
	case *ssa.Global:
		return VPtr{Nil: k0, Obj: in.globalObj(x)}
	case *ssa.Function:
		return VFunc{Nil: k0, Fn: x}
	case *ssa.Builtin:
		return VFunc{Nil: k0, ID: "builtin." + x.Name()}
	}
	r, ok := st.top().Env[v]
	if !ok {
		in.giveUp(st, fmt.Sprintf("no value of %s in %s", v.Name(), v.Parent()))
		r = in.freshVal(st, v.Type(), "lost")
		st.set(v, r)
	}
	switch r.(type) {
	case VLazy, VPat, patSlice:
		r = in.expand(st, r)
		st.set(v, r)
	}
	return r
}

func (in *Interp) globalObj(g *ssa.Global) ObjID {
	if o, ok := in.globObj[g]; ok {
		return o
	}
	t := g.Type().(*types.Pointer).Elem()
	o := in.newObj(ObjInfo{T: t, Lazy: g.String(), Name: g.String(), Global: g})
	in.globObj[g] = o
	return o
}

func (in *Interp) constVal(st *State, c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolv(constant.BoolVal(c.Value))
	case constant.String:
		return strConst(constant.StringVal(c.Value))
	case constant.Int, constant.Float:
		if isFloat(t) {
			f, _ := constant.Float64Val(c.Value)
			return VFloat{Known: true, V: f}
		}
		if k, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return intk(k)
		}
		// Large unsigned constant.
		return VInt{symL(tab.named("const:"+c.Value.ExactString(), 0, posInf, nil))}
	}
	return in.freshVal(st, t, "const")
}

// simple executes instructions that yield one state.
func (in *Interp) simple(st *State, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		o := in.newObj(ObjInfo{T: t, Site: x, Name: x.Comment})
		st.setHeap(o, zero(t))
		st.set(x, VPtr{Nil: k0, Obj: o})
	case *ssa.UnOp:
		in.unop(st, x)
	case *ssa.Store:
		p, ok := in.eval(st, x.Addr).(VPtr)
		v := in.eval(st, x.Val)
		if !ok {
			in.giveUp(st, "store through unknown pointer")
			return
		}
		if !in.deref(st, p.Nil, x, "store") {
			return
		}
		if in.h.Store != nil {
			in.h.Store(st, x, p, v)
		}
		in.store(st, p.Obj, p.Path, v)
	case *ssa.FieldAddr:
		p, ok := in.eval(st, x.X).(VPtr)
		if !ok {
			in.giveUp(st, "field of unknown pointer")
			st.set(x, in.freshVal(st, x.Type(), "fa"))
			return
		}
		if !in.deref(st, p.Nil, x, "field") {
			return
		}
		st.set(x, VPtr{Nil: k0, Obj: p.Obj, Path: p.Path.field(x.Field)})
	case *ssa.Field:
		v, ok := in.eval(st, x.X).(VStruct)
		if !ok {
			in.giveUp(st, "field of unknown struct")
			st.set(x, in.freshVal(st, x.Type(), "f"))
			return
		}
		st.set(x, in.expand(st, v.F[x.Field]))
	case *ssa.IndexAddr:
		idx := in.eval(st, x.Index).(VInt).L
		switch b := in.eval(st, x.X).(type) {
		case VSlice:
			in.inBounds(st, x, idx, b.Len)
			if st.C.bot {
				return
			}
			st.set(x, VPtr{Nil: k0, Obj: b.Obj, Path: b.Path.index(add(b.Off, idx))})
		case VPtr:
			if !in.deref(st, b.Nil, x, "index") {
				return
			}
			n := under(under(x.X.Type()).(*types.Pointer).Elem()).(*types.Array).Len()
			in.inBounds(st, x, idx, konst(n))
			if st.C.bot {
				return
			}
			st.set(x, VPtr{Nil: k0, Obj: b.Obj, Path: b.Path.index(idx)})
		default:
			in.giveUp(st, "index of unknown value")
			st.set(x, in.freshVal(st, x.Type(), "ia"))
		}
	case *ssa.Index:
		idx := in.eval(st, x.Index).(VInt).L
		switch b := in.eval(st, x.X).(type) {
		case *Arr:
			in.inBounds(st, x, idx, b.size())
			if !st.C.bot {
				st.set(x, in.elem(st, b, idx))
			}
		case VStr:
			in.inBounds(st, x, idx, segsLen(b.S))
			if !st.C.bot {
				st.set(x, in.segElem(st, b.S, types.Typ[types.Uint8], idx))
			}
		default:
			in.giveUp(st, "index of unknown array")
			st.set(x, in.freshVal(st, x.Type(), "ix"))
		}
	case *ssa.Slice:
		in.sliceOp(st, x)
	case *ssa.MakeSlice:
		n := in.eval(st, x.Len).(VInt).L
		c := in.eval(st, x.Cap).(VInt).L
		et := under(x.Type()).(*types.Slice).Elem()
		ok := st.isLe(k0, n) && st.isLe(n, c)
		in.panicAt(st, "makeslice", x, ok, fmt.Sprintf("make: length %s may be negative or above capacity", st.norm(n)))
		st.assumeLe(k0, n)
		st.assumeLe(n, c)
		st.assumeLe(c, konst(maxLen))
		if in.h.Instr != nil {
			// Allocation size is of interest to rules; they look at the instruction.
			_ = ok
		}
		o := in.newArray(st, et, []Seg{{Kind: SZero, N: c}}, x)
		st.set(x, VSlice{Nil: k0, Obj: o, Off: k0, Len: n, Cap: c})
	case *ssa.MakeMap:
		m := under(x.Type()).(*types.Map)
		o := in.newObj(ObjInfo{T: x.Type(), Site: x, Name: "map"})
		st.setHeap(o, &MapC{Key: m.Key(), Elem: m.Elem()})
		st.set(x, VMap{Nil: k0, Obj: o})
	case *ssa.MakeChan:
		if n, ok := in.eval(st, x.Size).(VInt); ok {
			in.panicAt(st, "makechan", x, st.isLe(k0, n.L), "make: channel size may be negative")
		}
		ch := VChan{Nil: k0, ID: in.freshID("chan@" + in.pos(x))}
		if in.h.Ready != nil {
			if n, ok := st.konst(num(in.eval(st, x.Size))); ok {
				st.setMode("chcap:"+ch.ID, strconv.FormatInt(n, 10))
			}
		}
		st.set(x, ch)
	case *ssa.MakeClosure:
		var b []Value
		for _, v := range x.Bindings {
			b = append(b, in.eval(st, v))
		}
		st.set(x, VFunc{Nil: k0, Fn: x.Fn.(*ssa.Function), Bind: b})
	case *ssa.MakeInterface:
		st.set(x, VIface{Nil: k0, Dyn: x.X.Type(), Val: in.eval(st, x.X), ID: in.freshID("iface")})
	case *ssa.ChangeInterface:
		st.set(x, in.eval(st, x.X))
	case *ssa.ChangeType:
		v := in.eval(st, x.X)
		if s, ok := v.(VStruct); ok {
			s.T = x.Type()
			v = s
		}
		st.set(x, v)
	case *ssa.Extract:
		t, ok := in.eval(st, x.Tuple).(VTuple)
		if !ok || x.Index >= len(t.V) {
			in.giveUp(st, "extract from unknown tuple")
			st.set(x, in.freshVal(st, x.Type(), "ex"))
			return
		}
		st.set(x, in.expand(st, t.V[x.Index]))
	case *ssa.Range:
		v := in.eval(st, x.X)
		st.set(x, VIter{X: v, ID: in.freshID("iter")})
	case *ssa.MapUpdate:
		m, ok := in.eval(st, x.Map).(VMap)
		if !ok {
			in.giveUp(st, "update of unknown map")
			return
		}
		in.panicAt(st, "nilmap", x, st.notNil(m.Nil), "assignment to entry in map that may be nil")
		st.assumeEq(m.Nil, k0)
		in.mapUpdate(st, m, in.eval(st, x.Key), in.eval(st, x.Value))
	case *ssa.Send:
		ch, _ := in.eval(st, x.Chan).(VChan)
		v := in.eval(st, x.X)
		if in.h.Ready != nil && in.h.Ready(st, x, ch, false) == 0 {
			st.assumeEq(k0, k1)
			return
		}
		if in.h.Send != nil {
			in.h.Send(st, x, ch, v)
		}
	case *ssa.Defer:
		f := st.ownTop()
		d := deferred{call: x}
		cc := x.Common()
		if cc.IsInvoke() {
			d.fn = in.eval(st, cc.Value)
		} else if cc.StaticCallee() == nil {
			d.fn = in.eval(st, cc.Value)
		} else if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			d.fn = in.eval(st, mc)
		} else {
			d.fn = VFunc{Nil: k0, Fn: cc.StaticCallee()}
		}
		for _, a := range cc.Args {
			d.args = append(d.args, in.eval(st, a))
		}
		f = st.ownTop()
		f.Defers = append(f.Defers[:len(f.Defers):len(f.Defers)], d)
	case *ssa.Go:
		c := in.callCtx(st, x)
		if in.h.Go != nil {
			in.h.Go(st, x, c)
		}
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		in.giveUp(st, fmt.Sprintf("%T", x))
		v := ins.(ssa.Value)
		st.set(v, in.freshVal(st, v.Type(), "conv"))
	default:
		in.giveUp(st, fmt.Sprintf("instruction %T", ins))
		if v, ok := ins.(ssa.Value); ok {
			st.set(v, in.freshVal(st, v.Type(), "unk"))
		}
	}
}

// deref checks that a pointer is not nil; it returns false when it certainly is.
func (in *Interp) deref(st *State, nl Lin, ins ssa.Instruction, what string) bool {
	ok := st.notNil(nl)
	in.panicAt(st, "nilderef", ins, ok, what+" through pointer that may be nil")
	st.assumeEq(nl, k0)
	return !st.C.bot
}

func (in *Interp) inBounds(st *State, ins ssa.Instruction, idx, n Lin) {
	ok := st.isLe(k0, idx) && st.isLt(idx, n)
	in.panicAt(st, "index", ins, ok, fmt.Sprintf("index %s may be outside of length %s", st.norm(idx), st.norm(n)))
	st.assumeLe(k0, idx)
	st.assumeLt(idx, n)
}

func (in *Interp) sliceOp(st *State, x *ssa.Slice) {
	get := func(v ssa.Value, def Lin) Lin {
		if v == nil {
			return def
		}
		return in.eval(st, v).(VInt).L
	}
	switch b := in.eval(st, x.X).(type) {
	case VStr:
		n := segsLen(b.S)
		lo, hi := get(x.Low, k0), get(x.High, n)
		ok := st.isLe(k0, lo) && st.isLe(lo, hi) && st.isLe(hi, n)
		in.panicAt(st, "slice", x, ok, fmt.Sprintf("string slice [%s:%s] may be outside of length %s", st.norm(lo), st.norm(hi), st.norm(n)))
		st.assumeLe(k0, lo)
		st.assumeLe(lo, hi)
		st.assumeLe(hi, n)
		if st.C.bot {
			return
		}
		st.set(x, VStr{in.slice(st, b.S, lo, sub(hi, lo), types.Typ[types.Uint8])})
	case VSlice:
		lo, hi := get(x.Low, k0), get(x.High, b.Len)
		mx := get(x.Max, b.Cap)
		ok := st.isLe(k0, lo) && st.isLe(lo, hi) && st.isLe(hi, mx) && st.isLe(mx, b.Cap)
		in.panicAt(st, "slice", x, ok, fmt.Sprintf("slice [%s:%s:%s] may be outside of capacity %s", st.norm(lo), st.norm(hi), st.norm(mx), st.norm(b.Cap)))
		st.assumeLe(k0, lo)
		st.assumeLe(lo, hi)
		st.assumeLe(hi, mx)
		st.assumeLe(mx, b.Cap)
		if st.C.bot {
			return
		}
		st.set(x, VSlice{Nil: b.Nil, Obj: b.Obj, Path: b.Path, Off: add(b.Off, lo), Len: sub(hi, lo), Cap: sub(mx, lo)})
	case VPtr:
		if !in.deref(st, b.Nil, x, "slice") {
			return
		}
		n := konst(under(under(x.X.Type()).(*types.Pointer).Elem()).(*types.Array).Len())
		lo, hi := get(x.Low, k0), get(x.High, n)
		mx := get(x.Max, n)
		ok := st.isLe(k0, lo) && st.isLe(lo, hi) && st.isLe(hi, mx) && st.isLe(mx, n)
		in.panicAt(st, "slice", x, ok, "slice of array may be outside of its length")
		st.assumeLe(k0, lo)
		st.assumeLe(lo, hi)
		st.assumeLe(hi, mx)
		st.assumeLe(mx, n)
		if st.C.bot {
			return
		}
		st.set(x, VSlice{Nil: k0, Obj: b.Obj, Path: b.Path, Off: lo, Len: sub(hi, lo), Cap: sub(mx, lo)})
	default:
		in.giveUp(st, "slice of unknown value")
		st.set(x, in.freshVal(st, x.Type(), "sl"))
	}
}

func (in *Interp) unop(st *State, x *ssa.UnOp) {
	switch x.Op {
	case token.MUL:
		p, ok := in.eval(st, x.X).(VPtr)
		if !ok {
			in.giveUp(st, "load through unknown pointer")
			st.set(x, in.freshVal(st, x.Type(), "ld"))
			return
		}
		if !in.deref(st, p.Nil, x, "load") {
			return
		}
		v := in.load(st, p.Obj, p.Path)
		if v == nil {
			v = in.freshVal(st, x.Type(), "ld")
		}
		st.set(x, v)
	case token.NOT:
		l := in.eval(st, x.X).(VInt).L
		st.set(x, VInt{sub(k1, l)})
	case token.SUB:
		switch v := in.eval(st, x.X).(type) {
		case VInt:
			st.set(x, VInt{in.wrap(st, neg(v.L), x.Type())})
		case VFloat:
			if v.Known {
				st.set(x, VFloat{Known: true, V: -v.V})
			} else {
				st.set(x, VFloat{ID: "neg(" + v.ID + ")"})
			}
		}
	case token.XOR:
		v := in.eval(st, x.X).(VInt)
		_, hi, bits, signed := intRange(x.Type())
		if signed || hi == posInf {
			if signed {
				st.set(x, VInt{in.wrap(st, addK(neg(v.L), -1), x.Type())})
			} else {
				st.set(x, VInt{in.freshInt("not", 0, posInf)})
			}
			_ = bits
			return
		}
		st.set(x, VInt{sub(konst(hi), v.L)})
	case token.ARROW:
		ch, _ := in.eval(st, x.X).(VChan)
		t := under(x.X.Type()).(*types.Chan).Elem()
		var v Value
		if in.h.Ready != nil && in.h.Ready(st, x, ch, true) == 0 {
			st.assumeEq(k0, k1)
			return
		}
		if in.h.Recv != nil {
			v = in.h.Recv(st, x, ch, t)
		}
		if v == nil {
			v = in.freshVal(st, t, "recv")
		}
		if x.CommaOk {
			v = VTuple{[]Value{v, VInt{in.freshInt("ok", 0, 1)}}}
		}
		st.set(x, v)
	}
}

// fork executes instructions that may yield several states.
func (in *Interp) fork(st *State, ins ssa.Instruction, f *fnInfo) []*State {
	switch x := ins.(type) {
	case *ssa.Call:
		prune(st, withOperands(f.liveAfter(x), x))
		c := in.callCtx(st, x)
		outs := in.doCall(c)
		var res []*State
		for _, o := range outs {
			if o.St.C.bot {
				continue
			}
			switch n := c.sig.Results().Len(); {
			case n == 1 && len(o.Ret) == 1:
				o.St.set(x, o.Ret[0])
			case n > 1:
				o.St.set(x, VTuple{o.Ret})
			}
			res = append(res, o.St)
		}
		return res
	case *ssa.RunDefers:
		states := []*State{st}
		for {
			var next []*State
			more := false
			for _, s := range states {
				fr := s.ownTop()
				n := len(fr.Defers)
				if n == 0 {
					next = append(next, s)
					continue
				}
				more = true
				d := fr.Defers[n-1]
				fr.Defers = fr.Defers[: n-1 : n-1]
				c := in.deferCtx(s, d)
				for _, o := range in.doCall(c) {
					if !o.St.C.bot {
						next = append(next, o.St)
					}
				}
			}
			states = next
			if !more {
				return states
			}
		}
	case *ssa.BinOp:
		return in.binop(st, x)
	case *ssa.Convert:
		return in.convert(st, x)
	case *ssa.TypeAssert:
		return in.typeAssert(st, x)
	case *ssa.Lookup:
		return in.lookup(st, x)
	case *ssa.Next:
		return in.next(st, x)
	case *ssa.Select:
		return in.selectOp(st, x)
	}
	return []*State{st}
}

func withOperands(live map[ssa.Value]bool, ins ssa.Instruction) map[ssa.Value]bool {
	r := make(map[ssa.Value]bool, len(live)+4)
	for v := range live {
		r[v] = true
	}
	var ops [16]*ssa.Value
	for _, o := range ins.Operands(ops[:0]) {
		if *o != nil {
			r[*o] = true
		}
	}
	return r
}

func (in *Interp) callCtx(st *State, ins ssa.CallInstruction) *callCtx {
	cc := ins.Common()
	c := &callCtx{in: in, st: st, ins: ins, sig: cc.Signature()}
	if cc.IsInvoke() {
		c.recv = in.eval(st, cc.Value)
		c.name = cc.Method.FullName()
		for _, a := range cc.Args {
			c.args = append(c.args, in.eval(st, a))
		}
		in.resolveInvoke(c, cc.Method)
		return c
	}
	for _, a := range cc.Args {
		c.args = append(c.args, in.eval(st, a))
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		c.name = "builtin." + v.Name()
	case *ssa.Function:
		c.fn = v
		c.name = fnName(v)
	default:
		c.setFunc(in.eval(st, v))
	}
	return c
}

func (c *callCtx) setFunc(v Value) {
	f, ok := v.(VFunc)
	if !ok {
		c.in.giveUp(c.st, "call of unknown value")
		c.name = "dynamic"
		return
	}
	c.in.panicAt(c.st, "nilfunc", c.ins, c.st.notNil(f.Nil), "call of function that may be nil")
	c.st.assumeEq(f.Nil, k0)
	c.fn = f.Fn
	c.bind = f.Bind
	if f.Fn != nil {
		c.name = fnName(f.Fn)
	} else {
		c.name = "dynamic:" + f.ID
	}
}

func (in *Interp) deferCtx(st *State, d deferred) *callCtx {
	cc := d.call.Common()
	c := &callCtx{in: in, st: st, ins: d.call, sig: cc.Signature(), args: d.args}
	if cc.IsInvoke() {
		c.recv = d.fn
		c.name = cc.Method.FullName()
		in.resolveInvoke(c, cc.Method)
		return c
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		c.name = "builtin." + b.Name()
		return c
	}
	c.setFunc(d.fn)
	return c
}

// resolveInvoke finds the method of a known dynamic type.
func (in *Interp) resolveInvoke(c *callCtx, m *types.Func) {
	v, ok := c.recv.(VIface)
	if !ok {
		in.giveUp(c.st, "invoke on unknown value")
		return
	}
	in.panicAt(c.st, "nilderef", c.ins, c.st.notNil(v.Nil), "method call on interface that may be nil")
	c.st.assumeEq(v.Nil, k0)
	if v.Dyn == nil || v.Val == nil {
		return
	}
	sel := in.prog.MethodSets.MethodSet(v.Dyn).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return
	}
	if fn := in.prog.MethodValue(sel); fn != nil {
		c.fn = fn
		c.name = fnName(fn)
		c.args = append([]Value{v.Val}, c.args...)
	}
}

func (in *Interp) doCall(c *callCtx) []Outcome {
	if c.st.C.bot {
		return nil
	}
	if in.h.Call != nil {
		if o, ok := in.h.Call(c); ok {
			return o
		}
	}
	if strings.HasPrefix(c.name, "builtin.") {
		return in.builtin(c)
	}
	if c.fn != nil && in.inlined(c.fn) {
		return in.callFn(c.st, c.fn, c.args, c.bind)
	}
	return in.model(c)
}

// callValue calls a function value.
func (in *Interp) callValue(st *State, f VFunc, args []Value, ins ssa.Instruction, sig *types.Signature) []Outcome {
	c := &callCtx{in: in, st: st, ins: ins, sig: sig, args: args}
	c.setFunc(f)
	return in.doCall(c)
}
