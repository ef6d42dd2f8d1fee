package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// check is a decision procedure of one property.
type check struct {
	id    string
	rule  string // the rule applied, for evidence
	level string
	min   map[string]int // smallest counts confirmed by hand
	run   func(x *ctx)
}

var checks = map[string]*check{}

func register(c *check) { checks[c.id] = c }

// finding is a violation of a property.
type finding struct{ key, msg string }

// ctx is a run of a check.
type ctx struct {
	p        *program
	c        *check
	findings []finding
	obl      int
	ok       int
	counts   map[string]int
	notes    []string
	samples  []string
	fns      map[string]bool
	keys     map[string]bool

	visit     func(w *walk, st *State)  // see the state a parser starts in
	visitOuts func(good, bad []Outcome) // see outcomes of a parser
}

// must records an obligation keyed by rule and construct.
func (x *ctx) must(ok bool, key, format string, args ...any) bool {
	x.obl++
	if ok {
		x.ok++
		if len(x.samples) < 12 {
			x.samples = append(x.samples, key)
		}
		return true
	}
	if !x.keys[key] {
		x.keys[key] = true
		x.findings = append(x.findings, finding{key, fmt.Sprintf(format, args...)})
	}
	return false
}

func (x *ctx) count(name string, n int) { x.counts[name] += n }

// pkg returns a package of the module.
func (x *ctx) pkg(path string) *ssa.Package {
	p := x.p.pkgs[path]
	if p == nil {
		x.must(false, "anchor:"+path, "package %s does not exist", path)
	}
	return p
}

// fn returns an exported function of a package.
func (x *ctx) fn(path, name string) *ssa.Function {
	p := x.pkg(path)
	if p == nil {
		return nil
	}
	f := p.Func(name)
	if f == nil {
		x.must(false, "anchor:"+path+"."+name, "function %s.%s does not exist", path, name)
	}
	return f
}

// method returns a method of a named type; it may be declared with value or pointer receiver.
func (x *ctx) method(path, typ, name string) *ssa.Function {
	f := x.tryMethod(path, typ, name)
	if f == nil {
		x.must(false, "anchor:"+path+"."+typ+"."+name, "method %s.%s.%s does not exist", path, typ, name)
	}
	return f
}

func (x *ctx) tryMethod(path, typ, name string) *ssa.Function {
	p := x.p.pkgs[path]
	if p == nil {
		return nil
	}
	t := p.Type(typ)
	if t == nil {
		return nil
	}
	for _, ty := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
		if s := x.p.prog.MethodSets.MethodSet(ty).Lookup(p.Pkg, name); s != nil {
			if f, ok := s.Obj().(*types.Func); ok {
				if g := x.p.prog.FuncValue(f); g != nil {
					return g
				}
			}
		}
	}
	return nil
}

func (x *ctx) typ(path, name string) types.Type {
	p := x.pkg(path)
	if p == nil {
		return nil
	}
	t := p.Type(name)
	if t == nil {
		x.must(false, "anchor:"+path+"."+name, "type %s.%s does not exist", path, name)
		return nil
	}
	return t.Type()
}

// methods lists exported methods of a type in order of names.
func (x *ctx) methods(path, typ string) []*ssa.Function {
	t := x.typ(path, typ)
	if t == nil {
		return nil
	}
	var r []*ssa.Function
	ms := x.p.prog.MethodSets.MethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		f, ok := ms.At(i).Obj().(*types.Func)
		if !ok || !f.Exported() {
			continue
		}
		if g := x.p.prog.FuncValue(f); g != nil && len(g.Blocks) > 0 {
			r = append(r, g)
		}
	}
	return r
}

func (x *ctx) pos(p token.Pos) string {
	q := x.p.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, repoDir+"/"), q.Line)
}

// interp makes an interpreter with initialized globals.
func (x *ctx) interp() *Interp {
	in := newInterp(x.p.prog)
	in.initGlobals(x.p)
	return in
}

// initGlobals executes initialization of the packages of the module.
func (in *Interp) initGlobals(p *program) {
	for _, f := range p.srcs {
		if f.Synthetic == "package initializer" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var ops [8]*ssa.Value
				for _, o := range ins.Operands(ops[:0]) {
					if g, ok := (*o).(*ssa.Global); ok && changes(ins, g, 0) {
						in.mutable[g] = true
					}
				}
			}
		}
	}
	st := newState()
	in.quiet++
	var ks []string
	for k := range p.pkgs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		for _, m := range p.pkgs[k].Members {
			if g, ok := m.(*ssa.Global); ok {
				o := in.globalObj(g)
				st.setHeap(o, zero(g.Type().(*types.Pointer).Elem()))
			}
		}
	}
	for _, k := range ks {
		f := p.pkgs[k].Func("init")
		if f == nil {
			continue
		}
		outs := in.callFn(st, f, nil, nil)
		if len(outs) == 1 {
			st = outs[0].St
		}
	}
	in.quiet--
	in.base = map[ObjID]Value{}
	for o, v := range st.Heap {
		if g := in.objs[o].Global; g != nil && in.mutable[g] {
			continue
		}
		in.base[o] = v
	}
	in.fnsSeen = map[*ssa.Function]bool{}
	in.sitesCnt = map[string]int{}
	in.allBlks = map[*ssa.BasicBlock]bool{}
	in.imprecise = 0
}

// changes tells whether an instruction may change the value of a global or leak its address.
func changes(ins ssa.Instruction, v ssa.Value, depth int) bool {
	switch x := ins.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return true
		}
		switch under(x.Type()).(type) {
		case *types.Map:
			for _, r := range *x.Referrers() {
				if _, ok := r.(*ssa.MapUpdate); ok {
					return true
				}
				if c, ok := r.(ssa.CallInstruction); ok && calleeName(c.Common()) != "builtin.len" {
					return true
				}
			}
		case *types.Slice:
			for _, r := range *x.Referrers() {
				if changes(r, x, depth+1) {
					return true
				}
			}
		}
		return false
	case *ssa.FieldAddr, *ssa.IndexAddr:
		if depth > 4 {
			return true
		}
		for _, r := range *ins.(ssa.Value).Referrers() {
			if changes(r, ins.(ssa.Value), depth+1) {
				return true
			}
		}
		return false
	case *ssa.Store:
		return x.Addr == v
	case *ssa.DebugRef, *ssa.Phi, *ssa.Range, *ssa.Index, *ssa.BinOp:
		return false
	case *ssa.Slice:
		if depth > 4 {
			return true
		}
		for _, r := range *x.Referrers() {
			if changes(r, x, depth+1) {
				return true
			}
		}
		return false
	case ssa.CallInstruction:
		n := calleeName(x.Common())
		switch {
		case n == "builtin.len", n == "builtin.cap", n == "builtin.append" && len(x.Common().Args) > 1 && x.Common().Args[1] == v,
			n == "builtin.copy" && x.Common().Args[1] == v, strings.HasSuffix(n, ".Write"), strings.HasSuffix(n, ".Join"), pureCall(n):
			return false
		}
		return true
	}
	return true
}

// enter makes an initial state.
func (in *Interp) enter() *State { return newState() }

// arg makes an arbitrary argument.
func (in *Interp) arg(st *State, t types.Type, name string) Value {
	return in.expand(st, VLazy{t, name})
}

func (in *Interp) lazyArgs(st *State, fn *ssa.Function) []Value {
	var r []Value
	for i, p := range fn.Params {
		v := in.arg(st, p.Type(), fmt.Sprintf("%s.%d:%s", fn.Name(), i, p.Name()))
		r = append(r, v)
	}
	return r
}

// collect turns obligations of an interpreter into findings.
func (x *ctx) collect(in *Interp, keep func(o *Obligation) bool) {
	for _, k := range in.order {
		o := in.obs[k]
		if keep != nil && !keep(o) {
			continue
		}
		x.obl++
		if !o.Failed {
			x.ok++
			if len(x.samples) < 12 {
				x.samples = append(x.samples, o.Rule+" "+o.Pos+" "+o.Where)
			}
			continue
		}
		key := o.Rule + "@" + o.Where
		if !x.keys[key] {
			x.keys[key] = true
			x.findings = append(x.findings, finding{key, fmt.Sprintf("%s: %s: %s [%s]", o.Pos, o.Rule, o.Msg, o.Where)})
		}
	}
	for f := range in.fnsSeen {
		x.fns[f.RelString(nil)] = true
	}
	for k, n := range in.sitesCnt {
		x.count("evaluations of "+k, n)
	}
}

// guard runs f; exceeding of the budget is a finding.
func (x *ctx) guard(in *Interp, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(tooLong); !ok {
				if os.Getenv("OUROFLOW_TRACE") != "" {
					panic(r)
				}
				x.must(false, "analysable:"+what, "analysis of %s failed: %v", what, r)
				return
			}
			x.must(false, "analysable:"+what, "analysis of %s takes too long", what)
		}
	}()
	f()
}

var verifDir = "/verif"

// known reads findings that are recorded for a property.
func known(id string) map[string]string {
	r := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		if rest, ok := strings.CutPrefix(l, "known: property="+id+" "); ok {
			k, msg, _ := strings.Cut(rest, " :: ")
			r[strings.TrimSpace(k)] = msg
		}
	}
	return r
}

func runCheck(id string) int {
	c := checks[id]
	if c == nil {
		fmt.Fprintf(os.Stderr, "no check of %s\n", id)
		return 2
	}
	start := time.Now()
	x := &ctx{c: c, counts: map[string]int{}, fns: map[string]bool{}, keys: map[string]bool{}}
	p, err := load()
	if err != nil {
		x.must(false, "load", "repository cannot be analysed: %v", err)
	} else {
		x.p = p
		func() {
			defer func() {
				if r := recover(); r != nil {
					if os.Getenv("OUROFLOW_TRACE") != "" {
						panic(r)
					}
					x.must(false, "analysable", "analysis failed: %v", r)
				}
			}()
			c.run(x)
		}()
	}
	var names []string
	for k := range c.min {
		names = append(names, k)
	}
	sort.Strings(names)
	if len(x.findings) == 0 {
		for _, k := range names {
			x.must(x.counts[k] >= c.min[k], "coverage:"+k, "only %d %s were analysed, at least %d are expected", x.counts[k], k, c.min[k])
		}
	}
	sort.SliceStable(x.findings, func(i, j int) bool { return x.findings[i].key < x.findings[j].key })
	kn := known(id)
	bad := 0
	replay := filepath.Join(verifDir, "evidence", id+".violation.txt")
	os.MkdirAll(filepath.Dir(replay), 0o755)
	os.Remove(replay)
	var rep []string
	for _, f := range x.findings {
		if _, ok := kn[f.key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.msg)
			continue
		}
		bad++
		rep = append(rep, f.key+" :: "+f.msg)
		if bad <= 10 {
			fmt.Printf("%s: %s\n", id, f.msg)
		}
	}
	var fl []string
	for f := range x.fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	cov := map[string]any{
		"explanation":  c.rule,
		"obligations":  x.obl,
		"discharged":   x.ok,
		"functions":    fl,
		"counts":       x.counts,
		"samples":      x.samples,
		"checker_cmd":  "bin/ouroflow check " + id,
		"trusted_base": []string{"golang.org/x/tools go/packages and go/ssa (type checked SSA of the current tree)", "the abstract interpreter and rules in /verif/ouroflow", "models of library functions in /verif/ouroflow/model.go"},
	}
	if len(x.notes) > 0 {
		cov["notes"] = x.notes
	}
	level := c.level
	if level == "" {
		level = "other"
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": bad}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if bad > 0 {
		os.WriteFile(replay, []byte(strings.Join(rep, "\n")+"\n"), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	fmt.Printf("%s: %d obligations hold in %d functions (%.1fs)\n", id, x.obl, len(fl), time.Since(start).Seconds())
	return 0
}
