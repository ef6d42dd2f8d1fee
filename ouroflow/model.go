package main

import (
	"errors"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"path"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func one(st *State, v ...Value) []Outcome { return []Outcome{{st, v}} }

// builtin executes a builtin function.
func (in *Interp) builtin(c *callCtx) []Outcome {
	st := c.st
	name := strings.TrimPrefix(c.name, "builtin.")
	switch name {
	case "len", "cap":
		switch x := c.args[0].(type) {
		case VStr:
			return one(st, VInt{segsLen(x.S)})
		case VSlice:
			if name == "cap" {
				return one(st, VInt{x.Cap})
			}
			return one(st, VInt{x.Len})
		case *Arr:
			return one(st, VInt{x.size()})
		case VMap:
			n := in.freshInt("maplen", 0, maxLen)
			if st.isNil(x.Nil) {
				n = k0
			}
			return one(st, VInt{n})
		case VPtr:
			if a, ok := under(under(c.sig.Params().At(0).Type()).(*types.Pointer).Elem()).(*types.Array); ok {
				return one(st, intk(a.Len()))
			}
		}
		return one(st, VInt{in.freshInt(name, 0, maxLen)})
	case "append":
		return in.appendOp(c)
	case "copy":
		return in.copyOp(c)
	case "delete":
		if m, ok := c.args[0].(VMap); ok && !st.isNil(m.Nil) {
			if st.notNil(m.Nil) {
				in.mapUpdate(st, m, c.args[1], nil)
				return one(st)
			}
			t := st.clone()
			t.assumeEq(m.Nil, k1)
			st.assumeEq(m.Nil, k0)
			in.mapUpdate(st, m, c.args[1], nil)
			return []Outcome{{st, nil}, {t, nil}}
		}
		return one(st)
	case "close":
		if x, ok := c.args[0].(VChan); ok {
			in.panicAt(st, "close", c.ins, st.notNil(x.Nil), "close of channel that may be nil")
			st.assumeEq(x.Nil, k0)
		}
		return one(st)
	case "print", "println":
		return one(st)
	case "recover":
		return one(st, in.freshVal(st, types.NewInterfaceType(nil, nil), "recover"))
	case "min", "max":
		r := c.args[0]
		for _, a := range c.args[1:] {
			x, ok1 := r.(VInt)
			y, ok2 := a.(VInt)
			if !ok1 || !ok2 {
				return in.havocCall(st, c.sig, c.args)
			}
			le, ge := st.isLe(x.L, y.L), st.isLe(y.L, x.L)
			if name == "max" {
				le, ge = ge, le
			}
			switch {
			case le:
			case ge:
				r = y
			default:
				l := in.freshInt(name, negInf, posInf)
				if name == "min" {
					st.assumeLe(l, x.L)
					st.assumeLe(l, y.L)
				} else {
					st.assumeLe(x.L, l)
					st.assumeLe(y.L, l)
				}
				r = VInt{l}
			}
		}
		return one(st, r)
	case "ssa:wrapnilchk":
		if p, ok := c.args[0].(VPtr); ok {
			in.deref(st, p.Nil, c.ins, "method call")
			if st.C.bot {
				return nil
			}
		}
		return one(st, c.args[0])
	}
	in.giveUp(st, "builtin "+name)
	return in.havocCall(st, c.sig, c.args)
}

func sliceElem(t types.Type) types.Type {
	if s, ok := under(t).(*types.Slice); ok {
		return s.Elem()
	}
	return types.Typ[types.Byte]
}

func (in *Interp) appendOp(c *callCtx) []Outcome {
	st := c.st
	s, ok := c.args[0].(VSlice)
	if !ok {
		in.giveUp(st, "append to unknown slice")
		return in.havocCall(st, c.sig, c.args)
	}
	et := sliceElem(c.ins.(ssa.Value).Type())
	var src []Seg
	switch t := c.args[1].(type) {
	case VSlice:
		src = in.window(st, t)
	case VStr:
		src = t.S
	}
	if in.h.Append != nil {
		in.h.Append(st, c.ins, s, src, et)
	}
	n := segsLen(src)
	if st.isEq(n, k0) {
		return one(st, s)
	}
	dst := in.window(st, s)
	total := add(s.Len, n)
	st.assumeLe(total, konst(maxLen))
	segs := in.concat(st, dst, src)
	if !st.isEq(s.Len, s.Cap) && !st.isNil(s.Nil) {
		// Elements after the end may be overwritten in place.
		if _, known := st.Heap[s.Obj]; known || in.objs[s.Obj].Lazy != "" {
			if a, ok := in.load(st, s.Obj, s.Path).(*Arr); ok {
				end := add(s.Off, s.Len)
				if !st.isLe(a.size(), end) {
					if pre, ok := in.take(st, in.flatten(st, a, s), end); ok {
						rest := sub(a.size(), end)
						if st.isLe(k0, rest) {
							ns := append(append([]Seg(nil), pre...), Seg{Kind: SSum, N: rest, ID: in.freshID("sum"),
								Pat: in.overwritten(st, s, a, src)})
							in.store(st, s.Obj, s.Path, &Arr{Et: a.Et, S: ns, Pre: a.Pre})
						}
					}
				}
			}
		}
	}
	r := in.newSlice(st, et, segs, c.ins)
	r.Len = total
	if !st.isEq(s.Len, s.Cap) && !st.isNil(s.Nil) {
		in.objs[r.Obj].Root = in.root(s.Obj)
	}
	cp := in.freshInt("cap", 0, maxLen)
	st.assumeLe(total, cp)
	r.Cap = cp
	r.Nil = k0
	if !st.isLt(k0, n) {
		// Nothing may have been appended to nil.
		if !st.notNil(s.Nil) {
			nl := in.freshInt("nil", 0, 1)
			try(func() { st.C.addLe(addK(lincomb(total, maxLen, nl), -maxLen)) })
			r.Nil = nl
		}
	}
	return one(st, r)
}

// root is the object whose memory an object may share.
func (in *Interp) root(o ObjID) ObjID {
	if i := in.objs[o]; i.Root != 0 {
		return i.Root
	}
	return o
}

func (in *Interp) copyOp(c *callCtx) []Outcome {
	st := c.st
	d, ok := c.args[0].(VSlice)
	if !ok {
		in.giveUp(st, "copy to unknown slice")
		return in.havocCall(st, c.sig, c.args)
	}
	var src []Seg
	var n Lin
	switch t := c.args[1].(type) {
	case VSlice:
		src, n = in.window(st, t), t.Len
	case VStr:
		src, n = t.S, segsLen(t.S)
	}
	var res []Outcome
	do := func(st *State, n Lin) {
		if st.C.bot {
			return
		}
		if !st.isEq(n, k0) {
			a, ok := in.load(st, d.Obj, d.Path).(*Arr)
			if !ok {
				in.giveUp(st, "copy to unknown array")
			} else {
				part := in.slice(st, src, k0, n, a.Et)
				base := a.S
				if len(a.Over) > 0 {
					base = in.flatten(st, a, VSlice{Off: k0, Len: a.size()})
				}
				pre, ok1 := in.take(st, base, d.Off)
				post, ok2 := in.drop(st, base, add(d.Off, n))
				ns := &Arr{Et: a.Et, Pre: a.Pre}
				if st.isLe(d.Off, a.Pre) && st.isLe(a.Pre, add(d.Off, n)) {
					ns.Pre = add(d.Off, n)
				}
				if ok1 && ok2 {
					ns.S = in.concat(st, in.concat(st, pre, part), post)
				} else {
					p := in.arrPattern(st, a)
					p = in.patJoin(st, p, in.segsPattern(st, part, a.Et))
					ns.S = []Seg{{Kind: SSum, N: a.size(), ID: in.freshID("sum"), Pat: p}}
				}
				in.store(st, d.Obj, d.Path, ns)
			}
		}
		res = append(res, Outcome{st, []Value{VInt{n}}})
	}
	switch {
	case st.isLe(n, d.Len):
		do(st, n)
	case st.isLe(d.Len, n):
		do(st, d.Len)
	default:
		t := st.clone()
		t.assumeLe(n, d.Len)
		st.assumeLt(d.Len, n)
		do(t, n)
		do(st, d.Len)
	}
	return res
}

// sorted orders a slice: exactly if all elements are known, otherwise every order is possible.
func (in *Interp) sorted(c *callCtx) []Outcome {
	st := c.st
	d, ok := c.args[0].(VSlice)
	if i, is := c.args[0].(VIface); is {
		d, ok = in.expand(st, i.Val).(VSlice)
	}
	if !ok {
		in.giveUp(st, "sorting of unknown slice")
		return in.havocCall(st, c.sig, c.args)
	}
	if n, ok := st.konst(d.Len); ok && n <= 1 || st.isLe(d.Len, konst(1)) {
		return one(st)
	}
	vals := in.varargs(st, d)
	write := func(st *State, vals []Value) bool {
		a, ok := in.load(st, d.Obj, d.Path).(*Arr)
		if !ok {
			return false
		}
		for i, v := range vals {
			a = in.setElem(st, a, addK(d.Off, int64(i)), v)
		}
		in.store(st, d.Obj, d.Path, a)
		return true
	}
	known := vals != nil && c.name == "sort.Strings"
	for i := range vals {
		vals[i] = in.expand(st, vals[i])
		if _, ok := in.constStr(st, vals[i]); !ok {
			known = false
		}
	}
	if known {
		sort.SliceStable(vals, func(i, j int) bool {
			a, _ := in.constStr(st, vals[i])
			b, _ := in.constStr(st, vals[j])
			return a < b
		})
		if write(st, vals) {
			return one(st)
		}
	}
	if len(vals) > 0 && len(vals) <= 4 {
		var res []Outcome
		var perm func(pre, rest []Value)
		perm = func(pre, rest []Value) {
			if len(rest) == 0 {
				t := st.clone()
				if write(t, pre) {
					res = append(res, Outcome{t, nil})
				}
				return
			}
			for i := range rest {
				r := append(append([]Value(nil), rest[:i]...), rest[i+1:]...)
				perm(append(append([]Value(nil), pre...), rest[i]), r)
			}
		}
		perm(nil, vals)
		if len(res) > 0 {
			return res
		}
	}
	a, ok := in.load(st, d.Obj, d.Path).(*Arr)
	if !ok {
		in.giveUp(st, "sorting of unknown array")
		return one(st)
	}
	in.store(st, d.Obj, d.Path, &Arr{Et: a.Et, Pre: a.Pre, S: []Seg{{Kind: SSum, N: a.size(), ID: in.freshID("sum"), Pat: in.arrPattern(st, a)}}})
	return one(st)
}

// ---- models of library functions

var bufTypes = map[string]bool{"strings.Builder": true, "bytes.Buffer": true}

func isBuf(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && bufTypes[n.Obj().Pkg().Path()+"."+n.Obj().Name()]
}

// fn makes a string that is a function of arguments.
func (in *Interp) fnStr(st *State, name string, lo, hi Lin, args ...Value) VStr {
	k := name + "("
	for i, a := range args {
		if i > 0 {
			k += ","
		}
		k += in.valKey(st, a)
	}
	k += ")"
	n := symL(tab.named(k+".len", 0, maxLen, nil))
	st.assumeLe(lo, n)
	st.assumeLe(n, hi)
	return VStr{[]Seg{{Kind: SFn, ID: name, Args: args, N: n, Tags: in.argTags(args)}}}
}

func (in *Interp) argTags(args []Value) string {
	var s []Seg
	for _, a := range args {
		if x, ok := a.(VStr); ok {
			s = append(s, x.S...)
		}
	}
	return in.joinTags(s, nil)
}

func (in *Interp) freshStr(st *State, what string) VStr {
	return in.freshVal(st, types.Typ[types.String], what).(VStr)
}

var bigLen = konst(maxLen)

// errVal is an error that is not nil.
func (in *Interp) errVal(what string) VIface { return VIface{Nil: k0, ID: in.freshID(what)} }

var nilErr = VIface{Nil: k1}

// pair yields success and failure of a function.
func (in *Interp) pair(c *callCtx, ok func(st *State) []Value, fail func(st *State) []Value) []Outcome {
	st := c.st
	t := st.clone()
	var res []Outcome
	if v := ok(st); v != nil && !st.C.bot {
		res = append(res, Outcome{st, append(v, nilErr)})
	}
	var fv []Value
	if fail != nil {
		fv = fail(t)
	} else {
		n := c.sig.Results().Len() - 1
		for i := 0; i < n; i++ {
			fv = append(fv, zero(c.sig.Results().At(i).Type()))
		}
	}
	return append(res, Outcome{t, append(fv, in.errVal("err:"+c.name))})
}

// bitLen splits small values by the number of bits in them.
func (in *Interp) bitLen(st *State, l Lin) []Outcome {
	lo, hi := st.C.bounds(l)
	if lo < 0 || hi >= 1<<10 {
		return nil
	}
	var r []Outcome
	for n := bits.Len64(uint64(lo)); n <= bits.Len64(uint64(hi)); n++ {
		t := st.clone()
		if n == 0 {
			t.assumeEq(l, k0)
		} else {
			t.assumeLe(konst(1<<uint(n-1)), l)
			t.assumeLt(l, konst(1<<uint(n)))
		}
		if !t.C.bot {
			r = append(r, Outcome{t, []Value{intk(int64(n))}})
		}
	}
	return r
}

// bufOf returns contents of a builder or buffer.
func (in *Interp) bufOf(st *State, v Value) (VPtr, VStr, bool) {
	p, ok := v.(VPtr)
	if !ok || p.Obj == 0 {
		return p, VStr{}, false
	}
	x := in.load(st, p.Obj, p.Path)
	if s, ok := x.(VStr); ok {
		return p, s, true
	}
	return p, VStr{}, false
}

func (in *Interp) bufWrite(c *callCtx, segs []Seg) bool {
	p, s, ok := in.bufOf(c.st, c.args[0])
	if !ok {
		in.giveUp(c.st, "write to unknown buffer")
		return false
	}
	in.store(c.st, p.Obj, p.Path, VStr{in.concat(c.st, s.S, segs)})
	return true
}

func str(v Value) VStr {
	s, _ := v.(VStr)
	return s
}

func num(v Value) Lin {
	if i, ok := v.(VInt); ok {
		return i.L
	}
	return k0
}

// bytesOf returns contents of a string or byte slice.
func (in *Interp) bytesOf(st *State, v Value) []Seg {
	switch x := v.(type) {
	case VStr:
		return x.S
	case VSlice:
		return in.window(st, x)
	}
	return nil
}

// strSlice makes a slice of strings.
func (in *Interp) strSlice(c *callCtx, vals []string) VSlice {
	var v []Value
	for _, s := range vals {
		v = append(v, strConst(s))
	}
	if len(v) == 0 {
		return VSlice{Nil: k0, Obj: in.newArray(c.st, types.Typ[types.String], nil, c.ins)}
	}
	return in.newSlice(c.st, types.Typ[types.String], []Seg{{Kind: SVals, N: konst(int64(len(v))), Vals: v}}, c.ins)
}

var pureStr = map[string]func(string) string{
	"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.TrimSpace": strings.TrimSpace,
	"path/filepath.Base": path.Base,
}

func (in *Interp) model(c *callCtx) []Outcome {
	st := c.st
	if strings.HasPrefix(c.name, "strings.") {
		if r, ok := in.wordFn(c); ok {
			return r
		}
	}
	if r, ok := in.bytesFn(c); ok {
		return r
	}
	switch c.name {
	case "errors.New", "fmt.Errorf":
		return one(st, in.errVal("error"))
	case "log.Fatal", "log.Fatalln", "log.Fatalf", "os.Exit", "(*log.Logger).Fatal", "runtime.Goexit":
		if in.h.Fatal != nil {
			in.h.Fatal(st, c)
		}
		return nil
	case "log.Panic", "log.Panicf", "log.Panicln":
		in.panicAt(st, "panic", c.ins, false, "explicit panic is reachable")
		return nil
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "io.WriteString":
		var text VStr
		switch c.name {
		case "io.WriteString":
			text = str(c.args[1])
		case "fmt.Fprintf":
			d := *c
			d.args = c.args[1:]
			text = str(in.sprintf(&d))
		default:
			text = in.sprint(st, c.args[1], c.name == "fmt.Fprintln")
		}
		if w, ok := c.args[0].(VIface); ok && w.Val != nil {
			if _, _, ok := in.bufOf(st, w.Val); ok {
				d := *c
				d.args = []Value{w.Val, text}
				in.bufWrite(&d, text.S)
				return one(st, VInt{segsLen(text.S)}, nilErr)
			}
		}
		if r, ok := in.hash(&callCtx{in: in, st: st, ins: c.ins, name: "(io.Writer).Write", args: []Value{text}, recv: c.args[0], sig: c.sig}); ok {
			return r
		}
		return one(st, VInt{in.freshInt("n", 0, maxLen)}, in.freshVal(st, c.sig.Results().At(1).Type(), "err"))
	case "log.Print", "log.Printf", "log.Println", "fmt.Print", "fmt.Printf", "fmt.Println":
		if c.sig.Results().Len() == 0 {
			return one(st)
		}
		return one(st, VInt{in.freshInt("n", 0, maxLen)}, in.freshVal(st, c.sig.Results().At(1).Type(), "err"))
	case "fmt.Sprintf":
		return one(st, in.sprintf(c))
	case "fmt.Sprint", "fmt.Sprintln":
		return one(st, in.sprint(st, c.args[0], c.name == "fmt.Sprintln"))
	case "strconv.Itoa":
		return one(st, in.decimal(st, num(c.args[0])))
	case "strconv.FormatInt", "strconv.FormatUint":
		if k, ok := st.konst(num(c.args[1])); ok && k == 10 {
			return one(st, in.decimal(st, num(c.args[0])))
		} else if ok {
			return one(st, in.fnStr(st, fmt.Sprintf("base%d", k), k1, konst(65), c.args[0]))
		}
		return one(st, in.freshStr(st, "format"))
	case "strconv.FormatFloat":
		return one(st, in.fnStr(st, "float", k1, konst(400), c.args...))
	case "strconv.FormatBool":
		return one(st, in.freshStr(st, "bool"))
	case "strconv.Quote":
		return one(st, in.fnStr(st, "quote", konst(2), bigLen, c.args[0]))
	case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint":
		return in.parseNum(c)
	case "strconv.ParseFloat":
		return in.pair(c, func(st *State) []Value { return []Value{VFloat{ID: in.freshID("parsed")}} },
			func(st *State) []Value { return []Value{VFloat{ID: in.freshID("parsed")}} })

	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "path/filepath.Base":
		s := str(c.args[0])
		if k, ok := in.constStr(st, s); ok {
			return one(st, strConst(pureStr[c.name](k)))
		}
		lo, hi := k0, bigLen
		if c.name == "strings.TrimSpace" {
			hi = segsLen(s.S)
		}
		if c.name == "path/filepath.Base" {
			lo = k1
		}
		return one(st, in.fnStr(st, c.name, lo, hi, s))
	case "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix":
		s := str(c.args[0])
		return one(st, in.fnStr(st, c.name, k0, segsLen(s.S), s, c.args[1]))
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.EqualFold":
		return in.strTest(c)
	case "bytes.Equal":
		a, b := in.bytesOf(st, c.args[0]), in.bytesOf(st, c.args[1])
		return one(st, VInt{in.strEq(st, VStr{a}, VStr{b})})
	case "strings.Index", "strings.IndexByte", "strings.LastIndex", "strings.LastIndexByte", "strings.IndexRune",
		"strings.IndexAny":
		return in.index(c)
	case "strings.Split", "strings.SplitN", "strings.Fields", "strings.SplitAfter":
		return in.split(c)
	case "strings.Cut":
		return in.cut(c)
	case "strings.Join":
		if l, ok := c.args[0].(VSlice); ok {
			if parts := in.varargs(st, l); parts != nil || st.isEq(l.Len, k0) {
				var r []Seg
				for i, p := range parts {
					if i > 0 {
						r = in.concat(st, r, str(c.args[1]).S)
					}
					r = in.concat(st, r, str(in.expand(st, p)).S)
				}
				return one(st, VStr{r})
			}
		}
		return one(st, in.freshStr(st, "join"))
	case "sort.Strings", "sort.Ints", "sort.Float64s", "sort.Slice", "sort.SliceStable":
		return in.sorted(c)
	case "strings.Repeat":
		n := num(c.args[1])
		in.panicAt(st, "panic", c.ins, st.isLe(k0, n), "strings.Repeat with count that may be negative")
		st.assumeLe(k0, n)
		return one(st, in.freshStr(st, "repeat"))
	case "strings.Replace", "strings.ReplaceAll", "strings.Title", "strings.Map":
		return one(st, in.freshStr(st, "replace"))

	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString":
		s := str(c.args[1])
		in.bufWrite(c, s.S)
		return one(st, VInt{segsLen(s.S)}, nilErr)
	case "(*strings.Builder).Write", "(*bytes.Buffer).Write":
		b := in.bytesOf(st, c.args[1])
		in.bufWrite(c, b)
		return one(st, VInt{segsLen(b)}, nilErr)
	case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte":
		in.bufWrite(c, []Seg{in.byteSeg(st, num(c.args[1]))})
		return one(st, nilErr)
	case "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		if k, ok := st.konst(num(c.args[1])); ok {
			s := strConst(string(rune(k)))
			in.bufWrite(c, s.S)
			return one(st, VInt{segsLen(s.S)}, nilErr)
		}
		s := in.fnStr(st, "rune", k1, konst(4), c.args[1])
		in.bufWrite(c, s.S)
		return one(st, VInt{segsLen(s.S)}, nilErr)
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		_, s, ok := in.bufOf(st, c.args[0])
		if !ok {
			return one(st, in.freshStr(st, "buf"))
		}
		return one(st, s)
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		_, s, ok := in.bufOf(st, c.args[0])
		if !ok {
			return one(st, VInt{in.freshInt("len", 0, maxLen)})
		}
		return one(st, VInt{segsLen(s.S)})
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		n := num(c.args[1])
		in.panicAt(st, "panic", c.ins, st.isLe(k0, n), "Grow with count that may be negative")
		st.assumeLe(k0, n)
		return one(st)
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		if p, ok := c.args[0].(VPtr); ok {
			in.store(st, p.Obj, p.Path, VStr{})
		}
		return one(st)
	case "(*bytes.Buffer).Bytes":
		_, s, ok := in.bufOf(st, c.args[0])
		if !ok {
			return in.havocCall(st, c.sig, c.args)
		}
		if len(s.S) == 0 {
			return one(st, VSlice{Nil: in.freshInt("nil", 0, 1)})
		}
		r := in.newSlice(st, types.Typ[types.Byte], s.S, c.ins)
		return one(st, r)

	case "net/textproto.CanonicalMIMEHeaderKey":
		s := str(c.args[0])
		if k, ok := in.constStr(st, s); ok {
			return one(st, strConst(canonicalMIME(k)))
		}
		return one(st, in.fnStr(st, "canonical", segsLen(s.S), segsLen(s.S), s))
	case "encoding/hex.EncodeToString":
		b := in.bytesOf(st, c.args[0])
		n := segsLen(b)
		return one(st, in.fnStr(st, "hex", scale(n, 2), scale(n, 2), VStr{b}))
	case "(*encoding/base64.Encoding).EncodeToString":
		b := in.bytesOf(st, c.args[1])
		return one(st, in.fnStr(st, "base64", k0, bigLen, VStr{b}))
	case "encoding/hex.DecodeString", "(*encoding/base64.Encoding).DecodeString":
		what := "unhex"
		s := c.args[0]
		if strings.Contains(c.name, "base64") {
			what, s = "unbase64", c.args[1]
		}
		src := str(s)
		return in.pair(c, func(st *State) []Value {
			r := in.fnStr(st, what, k0, segsLen(src.S), src)
			if what == "unhex" {
				try(func() { st.C.addEq(sub(scale(segsLen(r.S), 2), segsLen(src.S))) })
			}
			return []Value{in.newSlice(st, types.Typ[types.Byte], r.S, c.ins)}
		}, func(st *State) []Value {
			r := in.freshStr(st, what)
			return []Value{in.newSlice(st, types.Typ[types.Byte], r.S, c.ins)}
		})
	case "crypto/md5.New", "crypto/sha1.New", "crypto/sha256.New":
		o := in.newObj(ObjInfo{T: types.Typ[types.String], Site: c.ins, Name: "hash"})
		st.setHeap(o, VStr{})
		return one(st, VIface{Nil: k0, ID: in.freshID("hash"), Dyn: hashType, Val: VPtr{Nil: k0, Obj: o}})
	case "crypto/md5.Sum":
		b := in.bytesOf(st, c.args[0])
		r := in.fnStr(st, "md5", konst(16), konst(16), VStr{b})
		return one(st, &Arr{Et: types.Typ[types.Byte], S: r.S})
	case "(hash.Hash).Write", "(io.Writer).Write", "(hash.Hash).Sum", "(hash.Hash).Reset", "(io.StringWriter).WriteString":
		if r, ok := in.hash(c); ok {
			return r
		}
	case "math.Log2", "math.Ceil", "math.Floor", "math.Sqrt", "math.Abs", "math.Pow":
		if v, ok := mathConst(c.name, c.args); ok {
			return one(st, v)
		}
		return one(st, VFloat{ID: in.freshID(c.name)})
	case "math/bits.Len", "math/bits.Len8", "math/bits.Len16", "math/bits.Len32", "math/bits.Len64":
		if r := in.bitLen(st, num(c.args[0])); r != nil {
			return r
		}
		return one(st, VInt{in.freshInt("bits", 0, 64)})
	case "math/bits.TrailingZeros8":
		return one(st, VInt{in.freshInt("tz", 0, 8)})
	case "math/bits.LeadingZeros64", "math/bits.TrailingZeros64", "math/bits.OnesCount64":
		return one(st, VInt{in.freshInt("bits", 0, 64)})
	case "math/bits.LeadingZeros8", "math/bits.OnesCount8":
		return one(st, VInt{in.freshInt("bits", 0, 8)})
	case "math/bits.LeadingZeros32", "math/bits.TrailingZeros32", "math/bits.OnesCount32":
		return one(st, VInt{in.freshInt("bits", 0, 32)})
	case "math/bits.LeadingZeros16", "math/bits.TrailingZeros16", "math/bits.OnesCount16":
		return one(st, VInt{in.freshInt("bits", 0, 16)})

	case "(*bufio.Reader).ReadString", "(*bufio.Reader).ReadBytes":
		return in.pair(c, func(st *State) []Value {
			s := in.freshStr(st, "line")
			st.assumeLe(k1, segsLen(s.S))
			if c.name == "(*bufio.Reader).ReadBytes" {
				return []Value{in.newSlice(st, types.Typ[types.Byte], s.S, c.ins)}
			}
			return []Value{s}
		}, func(st *State) []Value {
			return []Value{in.freshVal(st, c.sig.Results().At(0).Type(), "line")}
		})
	case "(*bufio.Reader).Peek":
		n := num(c.args[1])
		return in.pair(c, func(st *State) []Value {
			st.assumeLe(k0, n)
			s := in.freshVal(st, c.sig.Results().At(0).Type(), "peek").(VSlice)
			st.assumeEq(s.Len, n)
			st.assumeEq(s.Nil, k0)
			return []Value{s}
		}, func(st *State) []Value {
			s := in.freshVal(st, c.sig.Results().At(0).Type(), "peek").(VSlice)
			if st.isLe(k0, n) {
				st.assumeLe(s.Len, n)
			}
			return []Value{s}
		})
	case "(*bufio.Reader).Discard":
		n := num(c.args[1])
		return in.pair(c, func(st *State) []Value { return []Value{VInt{n}} },
			func(st *State) []Value { return []Value{VInt{in.freshInt("n", 0, maxLen)}} })
	case "(*net.conn).Write", "(*net.conn).Read", "(io.Reader).Read", "(net.Conn).Write", "(net.Conn).Read", "(*bufio.Reader).Read", "io.ReadFull",
		"crypto/rand.Read", "(*net.UDPConn).ReadFromUDP", "(*net.UDPConn).Read", "(*net.UDPConn).Write":
		return in.readWrite(c)
	case "encoding/binary.Read":
		// Results are stored through the pointer.
		if i, ok := c.args[2].(VIface); ok {
			if p, ok := i.Val.(VPtr); ok && p.Obj != 0 {
				in.store(st, p.Obj, p.Path, VLazy{in.objType(p.Obj, p.Path), in.freshID("read")})
			}
		}
		return one(st, in.freshVal(st, c.sig.Results().At(0).Type(), "err"))
	case "net/url.Parse":
		return in.pair(c, func(st *State) []Value {
			o := in.newObj(ObjInfo{T: under(c.sig.Results().At(0).Type()).(*types.Pointer).Elem(), Site: c.ins, Name: "url"})
			st.setHeap(o, VLazy{in.objs[o].T, "url(" + in.valKey(st, c.args[0]) + ")"})
			return []Value{VPtr{Nil: k0, Obj: o}}
		}, nil)
	case "(*net/url.URL).String":
		if p, ok := c.args[0].(VPtr); ok && p.Obj != 0 {
			return one(st, in.fnStr(st, "urlstring", k0, bigLen, in.load(st, p.Obj, p.Path)))
		}
	case "(*sync.Once).Do", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait":
		if c.name == "(*sync.Once).Do" {
			if f, ok := c.args[1].(VFunc); ok {
				t := st.clone()
				return append(in.callValue(st, f, nil, c.ins, types.NewSignatureType(nil, nil, nil, nil, nil, false)), Outcome{t, nil})
			}
		}
		return one(st)
	case "(*net/url.Userinfo).Username":
		return one(st, in.field(st, c.args[0], "username"))
	case "(*net/url.Userinfo).Password":
		return one(st, in.field(st, c.args[0], "password"), VInt{in.freshInt("set", 0, 1)})
	}
	return in.defaultCall(c)
}

// field makes a string that is a part of an opaque object.
func (in *Interp) field(st *State, v Value, name string) Value {
	if p, ok := v.(VPtr); ok {
		return in.fnStr(st, name, k0, bigLen, VPtr{Nil: k0, Obj: p.Obj, Path: p.Path})
	}
	return in.freshStr(st, name)
}

var hashType = types.NewPointer(types.NewNamed(types.NewTypeName(0, types.NewPackage("hash", "hash"), "md", nil), types.NewStruct(nil, nil), nil))

func (in *Interp) hash(c *callCtx) ([]Outcome, bool) {
	i, ok := c.recv.(VIface)
	if !ok || i.Dyn != hashType {
		return nil, false
	}
	p := i.Val.(VPtr)
	old := str(in.load(c.st, p.Obj, p.Path))
	switch c.name {
	case "(io.Writer).Write", "(hash.Hash).Write", "(io.StringWriter).WriteString":
		b := in.bytesOf(c.st, c.args[0])
		in.store(c.st, p.Obj, p.Path, VStr{in.concat(c.st, old.S, b)})
		return one(c.st, VInt{segsLen(b)}, nilErr), true
	case "(hash.Hash).Sum":
		r := in.fnStr(c.st, "md5", konst(16), konst(16), old)
		pre := in.bytesOf(c.st, c.args[0])
		return one(c.st, in.newSlice(c.st, types.Typ[types.Byte], in.concat(c.st, pre, r.S), c.ins)), true
	case "(hash.Hash).Reset":
		in.store(c.st, p.Obj, p.Path, VStr{})
		return one(c.st), true
	}
	return nil, false
}

func (in *Interp) byteSeg(st *State, l Lin) Seg {
	if k, ok := st.konst(l); ok && k >= 0 && k <= 255 {
		return Seg{Kind: SConst, C: string([]byte{byte(k)}), N: k1}
	}
	return Seg{Kind: SVals, Vals: []Value{VInt{l}}, N: k1}
}

func (in *Interp) decimal(st *State, l Lin) VStr {
	if k, ok := st.konst(l); ok {
		return strConst(strconv.FormatInt(k, 10))
	}
	return in.fnStr(st, "dec", k1, konst(20), VInt{l})
}

func canonicalMIME(k string) string {
	b := []byte(strings.ToLower(k))
	up := true
	for i, c := range b {
		if up && c >= 'a' && c <= 'z' {
			b[i] = c - 'a' + 'A'
		}
		up = c == '-'
	}
	return string(b)
}

func (in *Interp) parseNum(c *callCtx) []Outcome {
	st := c.st
	s := str(c.args[0])
	bits := int64(64)
	if len(c.args) == 3 {
		if k, ok := st.konst(num(c.args[2])); ok && k > 0 {
			bits = k
		}
	}
	lo, hi := int64(negInf), int64(posInf)
	if bits < 64 {
		lo, hi = -1<<(bits-1), 1<<(bits-1)-1
	}
	if c.name == "strconv.ParseUint" {
		lo = 0
		if bits < 63 {
			hi = 1<<bits - 1
		}
	}
	base := ""
	if len(c.args) == 3 {
		base = st.norm(num(c.args[1])).key()
	}
	if k, ok := in.constStr(st, s); ok {
		if n, err := strconv.ParseInt(k, 10, 64); err == nil && (base == "" || base == konst(10).key()) && n >= lo && n <= hi {
			return one(st, intk(n), nilErr)
		} else if err != nil && (base == "" || base == konst(10).key()) {
			if errors.Is(err, strconv.ErrSyntax) {
				return one(st, intk(0), in.errVal("number"))
			}
			return one(st, VInt{in.freshInt("badnum", lo, hi)}, in.errVal("number"))
		}
	}
	if len(s.S) == 1 && s.S[0].Kind == SFn && s.S[0].ID == "dec" {
		if v, ok := s.S[0].Args[0].(VInt); ok && (base == "" || base == konst(10).key()) && (lo == negInf || st.isLe(konst(lo), v.L)) && (hi == posInf || st.isLe(v.L, konst(hi))) {
			return one(st, v, nilErr)
		}
	}
	return in.pair(c, func(st *State) []Value {
		st.assumeLe(k1, segsLen(s.S))
		return []Value{VInt{symL(tab.named(fmt.Sprintf("num%s_%d(%s)", base, bits, in.valKey(st, s)), lo, hi, nil))}}
	}, func(st *State) []Value {
		return []Value{VInt{in.freshInt("badnum", lo, hi)}}
	})
}

func (in *Interp) strTest(c *callCtx) []Outcome {
	st := c.st
	a, b := VStr{in.bytesOf(st, c.args[0])}, VStr{in.bytesOf(st, c.args[1])}
	x, ok1 := in.constStr(st, a)
	y, ok2 := in.constStr(st, b)
	if ok1 && ok2 {
		var r bool
		switch c.name {
		case "strings.HasPrefix":
			r = strings.HasPrefix(x, y)
		case "strings.HasSuffix":
			r = strings.HasSuffix(x, y)
		case "strings.Contains":
			r = strings.Contains(x, y)
		default:
			r = strings.EqualFold(x, y)
		}
		return one(st, boolv(r))
	}
	if c.name == "strings.EqualFold" {
		return one(st, VInt{symL(tab.named("fold("+in.valKey(st, a)+","+in.valKey(st, b)+")", 0, 1, nil))})
	}
	if ok2 && strings.HasSuffix(c.name, "HasPrefix") && len(a.S) > 0 && a.S[0].Kind == SConst {
		if p := a.S[0].C; len(p) >= len(y) {
			return one(st, boolv(strings.HasPrefix(p, y)))
		} else if !strings.HasPrefix(y, p) {
			return one(st, boolv(false))
		}
	}
	r := symL(tab.named(c.name+"("+in.valKey(st, a)+","+in.valKey(st, b)+")", 0, 1, nil))
	t := st.clone()
	st.assumeEq(r, k1)
	st.assumeLe(segsLen(b.S), segsLen(a.S))
	t.assumeEq(r, k0)
	var res []Outcome
	if !st.C.bot {
		res = append(res, Outcome{st, []Value{boolv(true)}})
	}
	if !t.C.bot {
		res = append(res, Outcome{t, []Value{boolv(false)}})
	}
	return res
}

func (in *Interp) index(c *callCtx) []Outcome {
	st := c.st
	a := VStr{in.bytesOf(st, c.args[0])}
	n := k1
	var key string
	switch x := c.args[1].(type) {
	case VInt:
		key = st.norm(x.L).key()
	default:
		b := VStr{in.bytesOf(st, x)}
		n = segsLen(b.S)
		key = in.valKey(st, b)
	}
	if c.name == "strings.IndexAny" {
		n = k1
	}
	r := symL(tab.named(c.name+"("+in.valKey(st, a)+","+key+")", -1, maxLen, nil))
	t := st.clone()
	st.assumeLe(k0, r)
	st.assumeLe(add(r, n), segsLen(a.S))
	t.assumeEq(r, konst(-1))
	var res []Outcome
	if !st.C.bot {
		res = append(res, Outcome{st, []Value{VInt{r}}})
	}
	if !t.C.bot {
		res = append(res, Outcome{t, []Value{VInt{r}}})
	}
	return res
}

func (in *Interp) split(c *callCtx) []Outcome {
	st := c.st
	s := str(c.args[0])
	sep := ","
	sepOk := true
	if len(c.args) > 1 {
		sep, sepOk = in.constStr(st, c.args[1])
	}
	limit := int64(-1)
	if c.name == "strings.SplitN" {
		k, ok := st.konst(num(c.args[2]))
		if !ok {
			sepOk = false
		}
		limit = k
	}
	if k, ok := in.constStr(st, s); ok && sepOk {
		switch c.name {
		case "strings.Fields":
			return one(st, in.strSlice(c, strings.Fields(k)))
		case "strings.SplitAfter":
			return one(st, in.strSlice(c, strings.SplitAfter(k, sep)))
		}
		return one(st, in.strSlice(c, strings.SplitN(k, sep, int(limit))))
	}
	id := fmt.Sprintf("%s(%s,%q,%d)", c.name, in.valKey(st, s), sep, limit)
	if !sepOk {
		id = in.freshID("split")
	}
	n := symL(tab.named(id+".len", 0, maxLen, nil))
	if sepOk && sep != "" && limit != 0 && c.name != "strings.Fields" {
		st.assumeLe(k1, n)
	}
	if limit > 0 {
		st.assumeLe(n, konst(limit))
	}
	if limit == 0 {
		st.assumeEq(n, k0)
	}
	o := in.newArray(st, types.Typ[types.String], []Seg{{Kind: SBase, ID: id, Off: k0, N: n, Tags: in.joinTags(s.S, nil)}}, c.ins)
	return one(st, VSlice{Nil: k0, Obj: o, Off: k0, Len: n, Cap: n})
}

func (in *Interp) cut(c *callCtx) []Outcome {
	st := c.st
	s, sep := str(c.args[0]), str(c.args[1])
	t := st.clone()
	a := in.fnStr(st, "before", k0, segsLen(s.S), s, sep)
	b := in.fnStr(st, "after", k0, segsLen(s.S), s, sep)
	st.assumeEq(add(add(segsLen(a.S), segsLen(b.S)), segsLen(sep.S)), segsLen(s.S))
	return []Outcome{{st, []Value{a, b, boolv(true)}}, {t, []Value{s, VStr{}, boolv(false)}}}
}

// readWrite models functions that transfer bytes of a slice.
func (in *Interp) readWrite(c *callCtx) []Outcome {
	st := c.st
	i := len(c.args) - 1
	s, ok := c.args[i].(VSlice)
	if !ok {
		return in.defaultCall(c)
	}
	write := strings.HasSuffix(c.name, "Write")
	full := write || c.name == "io.ReadFull" || c.name == "crypto/rand.Read"
	if !write {
		in.scramble(st, s)
	}
	nres := c.sig.Results().Len()
	mk := func(st *State, n Lin) []Value {
		v := []Value{VInt{n}}
		for k := 1; k < nres-1; k++ {
			v = append(v, in.freshVal(st, c.sig.Results().At(k).Type(), "addr"))
		}
		return v
	}
	return in.pair(c, func(st *State) []Value {
		n := s.Len
		if !full {
			n = in.freshInt("n", 0, maxLen)
			st.assumeLe(n, s.Len)
		}
		return mk(st, n)
	}, func(st *State) []Value {
		n := in.freshInt("n", 0, maxLen)
		st.assumeLe(n, s.Len)
		return mk(st, n)
	})
}

// scramble overwrites a window with arbitrary bytes.
func (in *Interp) scramble(st *State, s VSlice) {
	if st.isNil(s.Nil) || st.isEq(s.Len, k0) {
		return
	}
	a, ok := in.load(st, s.Obj, s.Path).(*Arr)
	if !ok {
		in.giveUp(st, "read into unknown array")
		return
	}
	base := a.S
	if len(a.Over) > 0 {
		base = in.flatten(st, a, VSlice{Off: k0, Len: a.size()})
	}
	mid := []Seg{{Kind: SBase, ID: in.freshID("input"), Off: k0, N: s.Len}}
	pre, ok1 := in.take(st, base, s.Off)
	post, ok2 := in.drop(st, base, add(s.Off, s.Len))
	r := &Arr{Et: a.Et, Pre: a.Pre}
	if ok1 && ok2 {
		r.S = in.concat(st, in.concat(st, pre, mid), post)
	} else {
		r.S = []Seg{{Kind: SBase, ID: in.freshID("input"), Off: k0, N: a.size()}}
	}
	in.store(st, s.Obj, s.Path, r)
}

func (in *Interp) varargs(st *State, v Value) []Value {
	s, ok := v.(VSlice)
	if !ok {
		return nil
	}
	var r []Value
	for _, g := range in.window(st, s) {
		if g.Kind != SVals {
			return nil
		}
		r = append(r, g.Vals...)
	}
	return r
}

// sprintf formats with a constant format.
func (in *Interp) sprintf(c *callCtx) Value {
	st := c.st
	f, ok := in.constStr(st, c.args[0])
	if !ok {
		return in.freshStr(st, "sprintf")
	}
	args := in.varargs(st, c.args[1])
	var segs []Seg
	k := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			segs = in.concat(st, segs, strConst(f[i:]).S)
			break
		}
		segs = in.concat(st, segs, strConst(f[i:i+j]).S)
		i += j + 1
		spec := ""
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			spec += f[i : i+1]
			i++
		}
		if i >= len(f) {
			return in.freshStr(st, "sprintf")
		}
		verb := f[i]
		i++
		if verb == '%' {
			segs = in.concat(st, segs, strConst("%").S)
			continue
		}
		if k >= len(args) {
			return in.freshStr(st, "sprintf")
		}
		v := args[k]
		k++
		if spec != "" {
			x, ok := v.(VIface)
			if !ok || x.Val == nil {
				return in.freshStr(st, "sprintf")
			}
			if i, ok := x.Val.(VInt); ok && strings.IndexByte("dxXob", verb) >= 0 {
				if _, _, bits, _ := intRange(x.Dyn); bits > 1 {
					if n, ok := st.konst(i.L); ok {
						segs = in.concat(st, segs, strConst(fmt.Sprintf("%"+spec+string(verb), n)).S)
						continue
					}
				}
			}
			segs = in.concat(st, segs, in.fnStr(st, "%"+spec+string(verb), k0, bigLen, x.Val).S)
			continue
		}
		segs = in.concat(st, segs, in.format(st, verb, v).S)
	}
	return VStr{segs}
}

func (in *Interp) format(st *State, verb byte, v Value) VStr {
	i, ok := v.(VIface)
	if !ok || i.Val == nil {
		return in.freshStr(st, "format")
	}
	if i.Dyn != nil {
		if _, basic := i.Dyn.(*types.Basic); !basic {
			// Might have String method.
			ms := in.prog.MethodSets.MethodSet(i.Dyn)
			for k := 0; k < ms.Len(); k++ {
				if n := ms.At(k).Obj().Name(); n == "String" || n == "Error" || n == "Format" {
					return in.freshStr(st, "format")
				}
			}
		}
	}
	switch x := i.Val.(type) {
	case VStr:
		if verb == 's' || verb == 'v' {
			return x
		}
		return in.fnStr(st, "%"+string(verb), k0, bigLen, x)
	case VInt:
		b, ok := under(i.Dyn).(*types.Basic)
		if ok && b.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v') {
			return in.decimal(st, x.L)
		}
		if ok && b.Info()&types.IsBoolean != 0 {
			return in.freshStr(st, "bool")
		}
		return in.fnStr(st, "%"+string(verb), k1, konst(70), x)
	}
	return in.freshStr(st, "format")
}

// pureCall tells functions that do not change anything reachable from arguments.
func pureCall(name string) bool {
	for _, p := range []string{"strings.", "strconv.", "math.", "math/", "path.", "path/", "time.", "(time.", "unicode.", "unicode/",
		"errors.", "bytes.", "net.", "net/url.", "(*net/url.", "os.", "flag.", "log.", "fmt.", "sort.Search", "net/textproto.", "html.", "reflect.DeepEqual",
		"(error).", "(net.", "(*net.", "(*time.", "(hash.", "encoding/", "(*encoding/", "bufio.New", "bytes.New", "(fmt.", "(*log.", "mime.", "context.", "(context.", "runtime.", "(reflect.", "(*regexp.", "regexp.", "crypto/", "hash/", "(*sync.", "sync/"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// defaultCall models a function of which only the signature is known.
func (in *Interp) defaultCall(c *callCtx) []Outcome {
	st := c.st
	for _, a := range c.args {
		if f, ok := a.(VFunc); ok && f.Fn != nil && isModule(f.Fn) {
			// The function may be called by the library.
			var args []Value
			for i := 0; i < f.Fn.Signature.Params().Len(); i++ {
				args = append(args, in.freshVal(st, f.Fn.Signature.Params().At(i).Type(), "cb"))
			}
			t := st.clone()
			outs := in.callValue(t, f, args, c.ins, f.Fn.Signature)
			for _, o := range outs {
				st = in.joinOutcome(Outcome{st, nil}, Outcome{o.St, nil}, f.Fn).St
			}
			c.st = st
		}
	}
	if !pureCall(c.name) && c.recv == nil {
		for _, a := range c.args {
			switch x := a.(type) {
			case VSlice:
				if !st.isNil(x.Nil) {
					in.scramble(st, x)
				}
			case VPtr:
				if !st.isNil(x.Nil) && x.Obj != 0 {
					in.store(st, x.Obj, x.Path, VLazy{in.objType(x.Obj, x.Path), in.freshID("changed")})
				}
			}
		}
	}
	res := c.sig.Results()
	n := res.Len()
	mk := func(st *State, k int) []Value {
		var v []Value
		for i := 0; i < k; i++ {
			t := res.At(i).Type()
			x := in.freshVal(st, t, c.name)
			if !strings.HasPrefix(c.name, "dynamic") && c.recv == nil {
				switch y := x.(type) {
				case VPtr:
					st.assumeEq(y.Nil, k0)
				case VIface:
					if !isErrorType(t) {
						st.assumeEq(y.Nil, k0)
					}
				}
			}
			v = append(v, x)
		}
		return v
	}
	if n >= 2 && isErrorType(res.At(n-1).Type()) && !strings.HasPrefix(c.name, "dynamic") {
		return in.pair(c, func(st *State) []Value { return mk(st, n-1) }, nil)
	}
	return one(st, mk(st, n)...)
}

// mathConst folds a function of constants.
func mathConst(name string, args []Value) (VFloat, bool) {
	var a []float64
	for _, v := range args {
		f, ok := v.(VFloat)
		if !ok || !f.Known {
			return VFloat{}, false
		}
		a = append(a, f.V)
	}
	switch {
	case name == "math.Log2" && len(a) == 1:
		return VFloat{Known: true, V: math.Log2(a[0])}, true
	case name == "math.Ceil" && len(a) == 1:
		return VFloat{Known: true, V: math.Ceil(a[0])}, true
	case name == "math.Floor" && len(a) == 1:
		return VFloat{Known: true, V: math.Floor(a[0])}, true
	case name == "math.Pow" && len(a) == 2:
		return VFloat{Known: true, V: math.Pow(a[0], a[1])}, true
	}
	return VFloat{}, false
}

// sprint formats operands in default formats.
func (in *Interp) sprint(st *State, list Value, line bool) VStr {
	a := in.varargs(st, list)
	if a == nil {
		return in.freshStr(st, "sprint")
	}
	isStr := func(v Value) bool {
		i, ok := v.(VIface)
		if !ok {
			return false
		}
		_, ok = i.Val.(VStr)
		return ok
	}
	var segs []Seg
	for i, v := range a {
		if x, ok := v.(VIface); !ok || x.Val == nil {
			return in.freshStr(st, "sprint")
		}
		if i > 0 && (line || !isStr(v) && !isStr(a[i-1])) {
			segs = in.concat(st, segs, strConst(" ").S)
		}
		segs = in.concat(st, segs, in.format(st, 'v', v).S)
	}
	if line {
		segs = in.concat(st, segs, strConst("\n").S)
	}
	return VStr{segs}
}
