package main

import (
	"go/types"
	"strings"
)

// Functions of package bytes are those of package strings on contents of slices.

var bytesFns = map[string]bool{"Split": true, "SplitN": true, "SplitAfter": true, "Fields": true, "Index": true, "IndexByte": true, "IndexRune": true,
	"IndexAny": true, "LastIndex": true, "LastIndexByte": true, "Contains": true, "ContainsAny": true, "ContainsRune": true, "Count": true, "HasPrefix": true,
	"HasSuffix": true, "EqualFold": true, "Trim": true, "TrimSpace": true, "TrimLeft": true, "TrimRight": true, "TrimPrefix": true, "TrimSuffix": true,
	"ToLower": true, "ToUpper": true, "Cut": true}

var bytesType = types.NewSlice(types.Typ[types.Byte])

func isBytes(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	return ok && isByte(s.Elem())
}

// stringly converts types of a signature.
func stringly(t *types.Tuple) *types.Tuple {
	var v []*types.Var
	for i := 0; i < t.Len(); i++ {
		x := t.At(i).Type()
		if isBytes(x) {
			x = types.Typ[types.String]
		} else if s, ok := under(x).(*types.Slice); ok && isBytes(s.Elem()) {
			x = types.NewSlice(types.Typ[types.String])
		}
		v = append(v, types.NewVar(t.At(i).Pos(), t.At(i).Pkg(), t.At(i).Name(), x))
	}
	return types.NewTuple(v...)
}

func (in *Interp) bytesFn(c *callCtx) ([]Outcome, bool) {
	name := strings.TrimPrefix(c.name, "bytes.")
	if name == c.name || !bytesFns[name] {
		return nil, false
	}
	d := *c
	d.name = "strings." + name
	d.args = append([]Value(nil), c.args...)
	var root ObjID
	for i, a := range d.args {
		if s, ok := a.(VSlice); ok {
			d.args[i] = VStr{in.bytesOf(c.st, s)}
			if i == 0 && s.Obj != 0 {
				root = in.root(s.Obj)
			}
		}
	}
	if name == "ToLower" || name == "ToUpper" {
		root = 0
	}
	d.sig = types.NewSignatureType(nil, nil, nil, stringly(c.sig.Params()), stringly(c.sig.Results()), false)
	outs := in.model(&d)
	for i, o := range outs {
		ret := append([]Value(nil), o.Ret...)
		for k := range ret {
			switch t := c.sig.Results().At(k).Type(); {
			case isBytes(t):
				ret[k] = in.sliceOf(o.St, ret[k], root, c)
			default:
				if s, ok := ret[k].(VSlice); ok {
					ret[k] = in.slicesOf(o.St, s, root, c)
				}
			}
		}
		outs[i].Ret = ret
	}
	return outs, true
}

// sliceOf makes a slice with contents of a string that is a part of an object.
func (in *Interp) sliceOf(st *State, v Value, root ObjID, c *callCtx) VSlice {
	s := in.newSlice(st, types.Typ[types.Byte], str(in.expand(st, v)).S, c.ins)
	in.objs[s.Obj].Root = root
	if !st.isLe(k1, s.Len) {
		s.Nil = in.freshInt("nil", 0, 1)
	}
	return s
}

// slicesOf converts a slice of strings.
func (in *Interp) slicesOf(st *State, s VSlice, root ObjID, c *callCtx) VSlice {
	if n, ok := st.konst(s.Len); ok && n < 1000 && s.Obj != 0 {
		var vals []Value
		for i := int64(0); i < n; i++ {
			vals = append(vals, in.sliceOf(st, in.elemAt(st, s, konst(i)), root, c))
		}
		if n == 0 {
			return VSlice{Nil: s.Nil, Obj: in.newArray(st, bytesType, nil, c.ins)}
		}
		return in.newSlice(st, bytesType, []Seg{{Kind: SVals, N: s.Len, Vals: vals}}, c.ins)
	}
	o := in.newArray(st, bytesType, []Seg{{Kind: SBase, ID: in.freshID("parts"), Off: k0, N: s.Len}}, c.ins)
	return VSlice{Nil: k0, Obj: o, Off: k0, Len: s.Len, Cap: s.Len}
}
