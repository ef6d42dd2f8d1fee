package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// elemAt returns an element of a slice.
func (in *Interp) elemAt(st *State, s VSlice, i Lin) Value {
	return in.load(st, s.Obj, s.Path.index(add(s.Off, i)))
}

// byteAt returns a byte of a slice.
func (in *Interp) byteAt(st *State, s VSlice, i Lin) Lin {
	v, ok := in.elemAt(st, s, i).(VInt)
	if !ok {
		return in.freshInt("byte", 0, 255)
	}
	return v.L
}

// word returns n bytes of a slice as a big endian number.
func (in *Interp) word(st *State, s VSlice, off Lin, n int) Lin {
	r := k0
	for i := 0; i < n; i++ {
		r = lincomb(in.byteAt(st, s, addK(off, int64(i))), 256, r)
	}
	return r
}

// get reads a field of a struct or of what a pointer leads to; names are separated by dots.
func (in *Interp) get(st *State, v Value, path string) Value {
	for _, name := range strings.Split(path, ".") {
		v = in.expand(st, v)
		switch p := v.(type) {
		case VPtr:
			i := fieldIndex(in.objType(p.Obj, p.Path), name)
			if i < 0 {
				return nil
			}
			v = in.load(st, p.Obj, p.Path.field(i))
		case VStruct:
			i := fieldIndex(p.T, name)
			if i < 0 {
				return nil
			}
			v = in.expand(st, p.F[i])
		default:
			return nil
		}
	}
	return v
}

func fieldIndex(t types.Type, name string) int {
	if t == nil {
		return -1
	}
	u, ok := under(t).(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// isErr tells whether the last result is an error: 1 yes, 0 no, -1 unknown.
func (in *Interp) isErr(o Outcome) int {
	if len(o.Ret) == 0 {
		return 0
	}
	e, ok := o.Ret[len(o.Ret)-1].(VIface)
	if !ok {
		return 0
	}
	if k, ok := o.St.konst(e.Nil); ok {
		return int(1 - k)
	}
	return -1
}

// splitErr splits outcomes by whether an error is returned.
func (in *Interp) splitErr(outs []Outcome) (ok, bad []Outcome) {
	for _, o := range outs {
		switch in.isErr(o) {
		case 0:
			ok = append(ok, o)
		case 1:
			bad = append(bad, o)
		default:
			e := o.Ret[len(o.Ret)-1].(VIface)
			a, b := o.St.clone(), o.St.clone()
			a.assumeEq(e.Nil, k1)
			b.assumeEq(e.Nil, k0)
			if !a.C.bot {
				ok = append(ok, Outcome{a, o.Ret})
			}
			if !b.C.bot {
				bad = append(bad, Outcome{b, o.Ret})
			}
		}
	}
	return
}

// sameInt checks that v equals l.
func (x *ctx) sameInt(st *State, v Value, l Lin, key, what string) bool {
	i, ok := v.(VInt)
	if !ok {
		return x.must(false, key, "%s cannot be determined", what)
	}
	return x.must(st.isEq(i.L, l), key, "%s is %s, it should be %s", what, st.norm(i.L), st.norm(l))
}

// sameBytes checks that a slice holds n bytes of another slice from off on.
func (x *ctx) sameBytes(in *Interp, st *State, v Value, src VSlice, off, n Lin, key, what string) bool {
	s, ok := v.(VSlice)
	if !ok {
		return x.must(false, key, "%s cannot be determined", what)
	}
	if st.isEq(n, k0) {
		return x.must(st.isNil(s.Nil) || st.isEq(s.Len, k0), key, "%s has %s bytes, it should be empty", what, st.norm(s.Len))
	}
	if !x.must(st.isEq(s.Len, n), key, "length of %s is %s, it should be %s", what, st.norm(s.Len), st.norm(n)) {
		return false
	}
	w := src
	w.Off, w.Len = add(src.Off, off), n
	a, b := in.window(st, s), in.window(st, w)
	return x.must(in.sameVal(st, VStr{a}, VStr{b}), key, "%s holds %s, it should hold %s", what, st.segsString(a), st.segsString(b))
}

// call runs a function, pointers to receivers are not nil.
func (in *Interp) callM(st *State, fn *ssa.Function, recv Value, args ...Value) []Outcome {
	if p, ok := recv.(VPtr); ok {
		if _, ptr := under(fn.Params[0].Type()).(*types.Pointer); !ptr {
			recv = in.load(st, p.Obj, p.Path)
		}
	}
	return in.callFn(st, fn, append([]Value{recv}, args...), nil)
}

func pf(f string, a ...any) string { return fmt.Sprintf(f, a...) }
