package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is an abstract value.
type Value interface{}

type (
	// VInt is an integer or a boolean (0 or 1).
	VInt struct{ L Lin }
	// VFloat is a floating point number, either constant or opaque.
	VFloat struct {
		Known bool
		V     float64
		ID    string
	}
	// VStr is a string made of segments.
	VStr struct{ S []Seg }
	// VPtr is a pointer to a part of an object.
	VPtr struct {
		Nil  Lin
		Obj  ObjID
		Path Path
	}
	// VSlice is a window into an array that is (a part of) an object.
	VSlice struct {
		Nil           Lin
		Obj           ObjID
		Path          Path
		Off, Len, Cap Lin
	}
	// VMap is a reference to a map object.
	VMap struct {
		Nil Lin
		Obj ObjID
	}
	// VChan is a channel.
	VChan struct {
		Nil Lin
		ID  string
	}
	// VFunc is a function value.
	VFunc struct {
		Nil  Lin
		Fn   *ssa.Function
		Bind []Value
		ID   string
	}
	// VIface is an interface value.
	VIface struct {
		Nil Lin
		Dyn types.Type
		Val Value
		ID  string
	}
	// VStruct is a struct.
	VStruct struct {
		T types.Type
		F []Value
	}
	// VTuple is a list of results.
	VTuple struct{ V []Value }
	// VLazy is an arbitrary value of a type with an identity, it is expanded on demand.
	VLazy struct {
		T  types.Type
		ID string
	}
	// VPat describes values by type and range; each read yields a new value.
	VPat struct {
		T      types.Type
		Lo, Hi int64
	}
	// VIter is a state of iteration over string or map.
	VIter struct {
		X   Value
		ID  string
		Pos int // number of entries already visited
	}
)

// ObjID identifies an object in the heap.
type ObjID int32

// ObjInfo is static information on an object.
type ObjInfo struct {
	T       types.Type // type of contents
	Lazy    string     // identity of initial contents for objects that existed before
	Name    string
	Summary bool // stands for several objects
	Site    ssa.Instruction
	Global  *ssa.Global
	Escaped bool
	Root    ObjID // object whose memory it may share
	Arg     bool  // may be memory of an argument of one step
}

// Step is a step from an object to its part.
type Step struct {
	F   int
	Idx Lin
	Arr bool
}

// Path leads to a part of an object.
type Path []Step

func (p Path) key() string {
	var b strings.Builder
	for _, s := range p {
		if s.Arr {
			b.WriteString("[" + s.Idx.key() + "]")
		} else {
			b.WriteString("." + strconv.Itoa(s.F))
		}
	}
	return b.String()
}

func (p Path) field(i int) Path {
	return append(p[:len(p):len(p)], Step{F: i})
}

func (p Path) index(l Lin) Path {
	return append(p[:len(p):len(p)], Step{Arr: true, Idx: l})
}

// Arr is contents of an array: consecutive segments overlaid with single element writes.
type Arr struct {
	Et   types.Type
	S    []Seg
	Over []Write
	Pre  Lin // number of leading elements written after allocation
}

// Write is a write of a single element.
type Write struct {
	Idx Lin
	Val Value
}

// SegKind is a kind of segment.
type SegKind int

const (
	// SBase is a part of contents with identity ID, from offset Off on.
	SBase SegKind = iota
	// SZero consists of zero values.
	SZero
	// SConst consists of constant bytes.
	SConst
	// SVals consists of listed values.
	SVals
	// SSum consists of values described by a pattern.
	SSum
	// SFn is a result of a function of other values: decimal number, digest, encoding and such.
	SFn
)

// Seg is a segment of a sequence of bytes or elements.
type Seg struct {
	Kind SegKind
	N    Lin
	ID   string
	Off  Lin
	C    string
	Vals []Value
	Pat  Value
	Args []Value
	Tags string // labels of contents that rules propagate
}

func (a *Arr) size() Lin { return segsLen(a.S) }

func segsLen(s []Seg) Lin {
	n := konst(0)
	for _, x := range s {
		n = add(n, x.N)
	}
	return n
}

type elemDef struct {
	Base string
	Idx  Lin
}

type modDef struct {
	L    Lin
	Bits int
}

type bitDef struct {
	X Sym
	I int
}

var (
	k0 = konst(0)
	k1 = konst(1)
)

const maxLen = int64(1) << 48

func intv(l Lin) VInt   { return VInt{l} }
func intk(k int64) VInt { return VInt{konst(k)} }
func boolv(b bool) VInt {
	if b {
		return VInt{k1}
	}
	return VInt{k0}
}

func under(t types.Type) types.Type { return t.Underlying() }

// intRange returns range of integer type; bits is 0 if it is not an integer.
func intRange(t types.Type) (lo, hi int64, bits int, signed bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 0, 0, 0, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, 1, 1, false
	case types.Uint8:
		return 0, 255, 8, false
	case types.Uint16:
		return 0, 65535, 16, false
	case types.Uint32:
		return 0, 1<<32 - 1, 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 0, posInf, 64, false
	case types.Int8:
		return -128, 127, 8, true
	case types.Int16:
		return -32768, 32767, 16, true
	case types.Int32, types.UntypedRune:
		return -1 << 31, 1<<31 - 1, 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return negInf, posInf, 64, true
	}
	return 0, 0, 0, false
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// zero returns zero value of a type.
func zero(t types.Type) Value {
	if isBuf(t) {
		return VStr{}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return VStr{}
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return VFloat{Known: true}
		case u.Kind() == types.UnsafePointer:
			return VPtr{Nil: k1}
		}
		return intk(0)
	case *types.Pointer:
		return VPtr{Nil: k1}
	case *types.Slice:
		return VSlice{Nil: k1}
	case *types.Map:
		return VMap{Nil: k1}
	case *types.Chan:
		return VChan{Nil: k1}
	case *types.Signature:
		return VFunc{Nil: k1}
	case *types.Interface:
		return VIface{Nil: k1}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = zero(u.Field(i).Type())
		}
		return VStruct{t, f}
	case *types.Array:
		return &Arr{Et: u.Elem(), S: []Seg{{Kind: SZero, N: konst(u.Len())}}}
	case *types.Tuple:
		f := make([]Value, u.Len())
		for i := range f {
			f[i] = zero(u.At(i).Type())
		}
		return VTuple{f}
	}
	return VLazy{t, "zero"}
}

// State is an abstract state: a conjunction of constraints with values of variables and heap.
type State struct {
	C      *Store
	Heap   map[ObjID]Value
	Frames []*Frame
	Ghost  map[string]Value  // joined like variables
	Mode   map[string]string // states that differ in it are never joined
	heapSh bool
	ghSh   bool
}

// Frame is an activation of a function.
type Frame struct {
	Fn     *ssa.Function
	Env    map[ssa.Value]Value
	Defers []deferred
	shared bool
}

type deferred struct {
	call *ssa.Defer
	fn   Value
	args []Value
}

func newState() *State {
	return &State{C: newStore(), Heap: map[ObjID]Value{}, Ghost: map[string]Value{}, Mode: map[string]string{}}
}

func (s *State) clone() *State {
	s.heapSh = true
	s.ghSh = true
	for _, f := range s.Frames {
		f.shared = true
	}
	d := *s
	d.C = s.C.clone()
	d.Frames = append([]*Frame(nil), s.Frames...)
	return &d
}

func (s *State) ownHeap() {
	if s.heapSh {
		h := make(map[ObjID]Value, len(s.Heap)+1)
		for k, v := range s.Heap {
			h[k] = v
		}
		s.Heap = h
		s.heapSh = false
	}
}

func (s *State) ownGhost() {
	if s.ghSh {
		g := make(map[string]Value, len(s.Ghost)+1)
		for k, v := range s.Ghost {
			g[k] = v
		}
		m := make(map[string]string, len(s.Mode)+1)
		for k, v := range s.Mode {
			m[k] = v
		}
		s.Ghost, s.Mode = g, m
		s.ghSh = false
	}
}

func (s *State) setGhost(k string, v Value) {
	s.ownGhost()
	if v == nil {
		delete(s.Ghost, k)
	} else {
		s.Ghost[k] = v
	}
}

func (s *State) setMode(k, v string) {
	if s.Mode[k] == v {
		return
	}
	s.ownGhost()
	if v == "" {
		delete(s.Mode, k)
	} else {
		s.Mode[k] = v
	}
}

func (s *State) top() *Frame { return s.Frames[len(s.Frames)-1] }

// ownTop makes the top frame modifiable.
func (s *State) ownTop() *Frame {
	f := s.top()
	if f.shared {
		e := make(map[ssa.Value]Value, len(f.Env)+4)
		for k, v := range f.Env {
			e[k] = v
		}
		f = &Frame{Fn: f.Fn, Env: e, Defers: f.Defers[:len(f.Defers):len(f.Defers)]}
		s.Frames[len(s.Frames)-1] = f
	}
	return f
}

func (s *State) set(v ssa.Value, x Value) {
	s.ownTop().Env[v] = x
}

func (s *State) setHeap(o ObjID, v Value) {
	s.ownHeap()
	s.Heap[o] = v
}

func (s *State) assumeEq(a, b Lin) {
	try(func() { s.C.addEq(sub(a, b)) })
}

// assumeLe assumes a <= b.
func (s *State) assumeLe(a, b Lin) {
	try(func() { s.C.addLe(sub(a, b)) })
}

// assumeLt assumes a < b.
func (s *State) assumeLt(a, b Lin) {
	try(func() { s.C.addLe(addK(sub(a, b), 1)) })
}

func (s *State) assumeNe(a, b Lin) {
	try(func() { s.C.addNe(sub(a, b)) })
}

func (s *State) isEq(a, b Lin) (r bool) {
	try(func() { r = s.C.entailsEq(sub(a, b)) })
	return
}

func (s *State) isNe(a, b Lin) (r bool) {
	try(func() { r = s.C.entailsNe(sub(a, b)) })
	return
}

func (s *State) isLe(a, b Lin) (r bool) {
	try(func() { r = s.C.entailsLe(sub(a, b)) })
	return
}

func (s *State) isLt(a, b Lin) (r bool) {
	try(func() { r = s.C.entailsLe(addK(sub(a, b), 1)) })
	return
}

func (s *State) norm(l Lin) Lin { return s.C.norm(l) }

// konst returns the value of l if it is known.
func (s *State) konst(l Lin) (int64, bool) { return s.C.constOf(l) }

func (s *State) isNil(l Lin) bool {
	k, ok := s.konst(l)
	return ok && k == 1
}

func (s *State) notNil(l Lin) bool {
	k, ok := s.konst(l)
	return ok && k == 0
}

// describe renders a value for messages.
func (s *State) describe(v Value) string {
	switch x := v.(type) {
	case nil:
		return "?"
	case VInt:
		return s.norm(x.L).String()
	case VStr:
		return "string" + s.segsString(x.S)
	case VPtr:
		if s.isNil(x.Nil) {
			return "nil"
		}
		return fmt.Sprintf("&obj%d%s(nil=%s)", x.Obj, x.Path.key(), s.norm(x.Nil))
	case VSlice:
		if s.isNil(x.Nil) {
			return "nil slice"
		}
		return fmt.Sprintf("obj%d%s[%s:+%s cap %s]", x.Obj, x.Path.key(), s.norm(x.Off), s.norm(x.Len), s.norm(x.Cap))
	case VStruct:
		var b []string
		for _, f := range x.F {
			b = append(b, s.describe(f))
		}
		return "{" + strings.Join(b, ", ") + "}"
	case VTuple:
		var b []string
		for _, f := range x.V {
			b = append(b, s.describe(f))
		}
		return "(" + strings.Join(b, ", ") + ")"
	case *Arr:
		r := "array" + s.segsString(x.S)
		for _, w := range x.Over {
			r += "{" + s.norm(w.Idx).String() + ": " + s.describe(w.Val) + "}"
		}
		return r
	case VLazy:
		return "lazy(" + x.ID + ")"
	case VIface:
		return fmt.Sprintf("iface(nil=%s %v %s)", s.norm(x.Nil), x.Dyn, x.ID)
	case VFunc:
		return fmt.Sprintf("func(%v %s)", x.Fn, x.ID)
	}
	return fmt.Sprintf("%T%v", v, v)
}

func (s *State) segsString(segs []Seg) string {
	var b []string
	for _, x := range segs {
		n := s.norm(x.N).String()
		switch x.Kind {
		case SBase:
			b = append(b, fmt.Sprintf("%s[%s:+%s]", x.ID, s.norm(x.Off), n))
		case SZero:
			b = append(b, "zero*"+n)
		case SConst:
			b = append(b, strconv.Quote(x.C))
		case SVals:
			var c []string
			for _, v := range x.Vals {
				c = append(c, s.describe(v))
			}
			b = append(b, "<"+strings.Join(c, ", ")+">")
		case SSum:
			b = append(b, "any("+fmt.Sprint(x.Pat)+")*"+n)
		case SFn:
			var c []string
			for _, v := range x.Args {
				c = append(c, s.describe(v))
			}
			b = append(b, x.ID+"("+strings.Join(c, ", ")+")")
		}
	}
	return "[" + strings.Join(b, " ") + "]"
}
