package main

import (
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// invTemplate is a candidate constraint on the fields of an object: the sum of coefficients times fields plus a
// constant is not positive.  Joins keep those that hold on both sides.
type invTemplate struct {
	obj ObjID
	t   []invTerm
	k   int64
}

type invTerm struct {
	field string
	c     int64
}

// fields lists integers that a struct object holds directly.
func structInts(st *State, v Value, prefix string, out map[string]Lin) {
	switch v := v.(type) {
	case VInt:
		out[prefix] = st.norm(v.L)
	case VSlice:
		out[prefix+".len"] = st.norm(v.Len)
		out[prefix+".cap"] = st.norm(v.Cap)
		out[prefix+".off"] = st.norm(v.Off)
	case VStruct:
		for i, f := range v.F {
			structInts(st, f, prefix+"."+strconv.Itoa(i), out)
		}
	}
}

// invTemplates turns what a state knows about the fields of an object into templates.
func (in *Interp) invTemplates(st *State, o ObjID) []invTemplate {
	v, ok := in.contents(st, o).(VStruct)
	if !ok {
		return nil
	}
	cells := map[string]Lin{}
	structInts(st, v, "", cells)
	var names []string
	for n := range cells {
		names = append(names, n)
	}
	sort.Strings(names)
	type inv struct {
		field string
		c, k  int64
	}
	of := map[Sym]inv{}
	for _, n := range names {
		l := cells[n]
		if len(l.T) == 1 && (l.T[0].C == 1 || l.T[0].C == -1) {
			if _, ok := of[l.T[0].S]; !ok {
				of[l.T[0].S] = inv{n, l.T[0].C, l.K} // symbol = c * (field - k)
			}
		}
	}
	var r []invTemplate
	add := func(l Lin) {
		t := invTemplate{obj: o, k: l.K}
		for _, x := range l.T {
			i, ok := of[x.S]
			if !ok {
				return
			}
			t.t = append(t.t, invTerm{i.field, x.C * i.c})
			t.k -= x.C * i.c * i.k
		}
		if len(t.t) > 0 {
			r = append(r, t)
		}
	}
	for _, l := range st.C.list() {
		add(l)
	}
	for _, n := range names {
		l := cells[n]
		if l.isConst() {
			r = append(r, invTemplate{o, []invTerm{{n, 1}}, -l.K}, invTemplate{o, []invTerm{{n, -1}}, l.K})
			continue
		}
		lo, hi := st.C.interval(l)
		if lo != negInf {
			r = append(r, invTemplate{o, []invTerm{{n, -1}}, lo})
		}
		if hi != posInf {
			r = append(r, invTemplate{o, []invTerm{{n, 1}}, -hi})
		}
		// Fields that are expressions over others.
		if len(l.T) > 1 {
			t := invTemplate{obj: o, k: l.K}
			ok := true
			for _, x := range l.T {
				i, is := of[x.S]
				if !is {
					ok = false
					break
				}
				t.t = append(t.t, invTerm{i.field, x.C * i.c})
				t.k -= x.C * i.c * i.k
			}
			if ok {
				t.t = append(t.t, invTerm{n, -1})
				u := invTemplate{obj: o, k: -t.k}
				for _, x := range t.t {
					u.t = append(u.t, invTerm{x.field, -x.c})
				}
				r = append(r, t, u)
			}
		}
	}
	return r
}

func (t invTemplate) at(cells map[string]Lin) (Lin, bool) {
	l := konst(t.k)
	for _, x := range t.t {
		f, ok := cells[x.field]
		if !ok {
			return l, false
		}
		l = lincomb(l, x.c, f)
	}
	return l, true
}

// keepTemplates adds the templates that hold in both joined states to the result.
func (j *joiner) keepTemplates() {
	in := j.in
	for o, ts := range in.tmpl {
		rv, ok := j.r.Heap[o]
		if !ok {
			continue
		}
		a, b, r := map[string]Lin{}, map[string]Lin{}, map[string]Lin{}
		structInts(j.a, in.contents(j.a, o), "", a)
		structInts(j.b, in.contents(j.b, o), "", b)
		structInts(j.r, rv, "", r)
		for _, t := range ts {
			la, ok1 := t.at(a)
			lb, ok2 := t.at(b)
			lr, ok3 := t.at(r)
			if !ok1 || !ok2 || !ok3 {
				continue
			}
			try(func() {
				if j.a.C.entailsLe(la) && j.b.C.entailsLe(lb) && !j.r.C.entailsLe(lr) {
					j.r.C.addLe(lr)
				}
			})
		}
	}
}

// byCalls orders methods so that those which call others come after them.
func byCalls(ms []*ssa.Function) []*ssa.Function {
	is := map[*ssa.Function]bool{}
	for _, m := range ms {
		is[m] = true
	}
	memo := map[*ssa.Function]int{}
	var reach func(f *ssa.Function, seen map[*ssa.Function]bool) int
	reach = func(f *ssa.Function, seen map[*ssa.Function]bool) int {
		n := 0
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || seen[g] || !isModule(g) {
					continue
				}
				seen[g] = true
				if is[g] {
					n++
				}
				n += reach(g, seen)
			}
		}
		return n
	}
	for _, m := range ms {
		memo[m] = reach(m, map[*ssa.Function]bool{m: true})
	}
	r := append([]*ssa.Function(nil), ms...)
	sort.SliceStable(r, func(i, k int) bool { return memo[r[i]] < memo[r[k]] })
	return r
}
