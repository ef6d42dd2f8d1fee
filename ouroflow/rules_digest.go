package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&check{id: "C36", rule: "abstract interpretation of NewDigest and of four successive uses of what Authenticate returns, on challenges made of symbolic words (any realm, nonce and opaque) for every combination of algorithm, qop and opaque, in several orders and spellings, with any user, password, verb and body: texts and digests are ropes and terms, and each parameter of each authorization equals the term of RFC 2617; nonce counts differ",
		min: map[string]int{"challenges": 24, "authorizations": 96}, run: runC36})
}

func runC36(x *ctx) {
	ctor, auth := x.fn(rtspPkg, "NewDigest"), x.method(rtspPkg, "Digest", "Authenticate")
	if ctor == nil || auth == nil {
		return
	}
	in := x.interp()
	in.noPanics = true
	in.mapOnce = true
	in.unrolls = 40
	in.apart = 64
	x.guard(in, "Digest", func() {
		for _, algorithm := range []string{"", "MD5", "md5", "MD5-sess", "md5-sess"} {
			for _, qop := range []string{"", "auth", "auth-int", "auth,auth-int", "auth-int, auth"} {
				if strings.EqualFold(algorithm, "md5-sess") && qop == "" {
					continue // RFC 2617 needs cnonce for it, which is only there with qop.
				}
				for _, opaque := range []bool{false, true} {
					for style := 0; style < 3; style++ {
						x.challenge(in, ctor, auth, algorithm, qop, opaque, style)
					}
				}
			}
		}
		x.basic(in, ctor, auth)
	})
	x.collect(in, func(o *Obligation) bool { return o.Rule == "analysable" })
}

// cat joins texts.
func cat(in *Interp, st *State, parts ...any) VStr {
	var r []Seg
	for _, p := range parts {
		switch y := p.(type) {
		case string:
			r = in.concat(st, r, strConst(y).S)
		case VStr:
			r = in.concat(st, r, y.S)
		}
	}
	return VStr{r}
}

// md5hex is the term for the digest of a text.
func md5hex(in *Interp, st *State, s VStr) VStr {
	d := in.fnStr(st, "md5", konst(16), konst(16), s)
	return in.fnStr(st, "hex", konst(32), konst(32), d)
}

// authFn returns functions that compute authorizations.
func (x *ctx) authFn(in *Interp, ctor, auth *ssa.Function, st *State, uri, challenge, user, password VStr, where string) []Outcome {
	good, bad := in.splitErr(in.callFn(st, ctor, []Value{uri, challenge}, nil))
	x.must(len(bad) == 0 && len(good) > 0, "challenge rejected", "a challenge is rejected (%s)", where)
	var r []Outcome
	for _, o := range good {
		r = append(r, in.callM(o.St, auth, o.Ret[0], user, password)...)
	}
	x.must(len(r) > 0 || len(good) == 0, "authenticate", "Authenticate does not return (%s)", where)
	return r
}

func (x *ctx) challenge(in *Interp, ctor, auth *ssa.Function, algorithm, qop string, opaque bool, style int) {
	st := in.enter()
	realm, nonce, opq := in.aWord(st, "realm"), cat(in, st, in.aWord(st, "nonce"), "=="), in.aWord(st, "opaque")
	uri, user, password := in.symStr(st, "uri"), in.symStr(st, "user"), in.symStr(st, "password")
	params := []VStr{cat(in, st, `realm="`, realm, ` of 1, camera"`), cat(in, st, `nonce="`, nonce, `"`)}
	if opaque {
		params = append(params, cat(in, st, `opaque="`, opq, `"`))
	}
	if algorithm != "" && style == 1 {
		params = append(params, cat(in, st, `algorithm="`, algorithm, `"`))
	} else if algorithm != "" {
		params = append(params, cat(in, st, `algorithm=`, algorithm))
	}
	if qop != "" {
		params = append(params, cat(in, st, `qop="`, qop, `"`))
	}
	text := cat(in, st, "Digest ")
	for i := range params {
		p := params[i]
		sep := ", "
		switch style {
		case 1:
			p = params[len(params)-1-i]
			sep = ","
		case 2:
			// Names of parameters are not case sensitive.
			p.S = append([]Seg(nil), p.S...)
			k, v, _ := strings.Cut(p.S[0].C, "=")
			p.S[0].C = strings.ToUpper(k) + "=" + v
		}
		if i > 0 {
			text = cat(in, st, text, sep)
		}
		text = cat(in, st, text, p)
	}
	if style == 1 {
		text = cat(in, st, " ", text, ", stale=FALSE")
	}
	where := pf("algorithm %q, qop %q, opaque %v", algorithm, qop, opaque)
	x.count("challenges", 1)
	uses := x.authFn(in, ctor, auth, st, uri, text, user, password, where)
	type use struct {
		o    Outcome
		fn   Value
		seen []string
	}
	var list []use
	for _, o := range uses {
		list = append(list, use{o: o, fn: o.Ret[0]})
	}
	for i := 0; i < 4; i++ {
		var next []use
		for _, u := range list {
			f, ok := u.fn.(VFunc)
			if !x.must(ok && f.Fn != nil, "function", "what Authenticate returns cannot be determined (%s)", where) {
				continue
			}
			s := u.o.St.clone()
			verb := in.symStr(s, pf("verb%d", i))
			body := in.arg(s, f.Fn.Signature.Params().At(1).Type(), pf("body%d", i)).(VSlice)
			if i%2 == 0 {
				body = VSlice{Nil: k1}
			}
			for _, o := range in.callValue(s, f, []Value{verb, body}, nil, f.Fn.Signature) {
				x.count("authorizations", 1)
				seen := append([]string(nil), u.seen...)
				got, ok := in.authParams(o.St, o.Ret[0])
				if !x.must(ok, "format", "the authorization is not a list of parameters: %s (%s)", in.ropeText(o.St, o.Ret[0]), where) {
					continue
				}
				is := func(name string, want VStr) {
					g, have := got[name]
					x.must(have && in.ropeText(o.St, g) == in.ropeText(o.St, want), "parameter "+name, "parameter %s of authorization %d is %s, it should be %s (%s)", name, i+1, in.ropeText(o.St, g), in.ropeText(o.St, want), where)
				}
				r := cat(in, o.St, realm, " of 1, camera")
				is("username", user)
				is("realm", r)
				is("nonce", nonce)
				is("uri", uri)
				if opaque {
					is("opaque", opq)
				} else {
					_, have := got["opaque"]
					x.must(!have, "parameter opaque", "an opaque value is invented (%s)", where)
				}
				if a, have := got["algorithm"]; have || algorithm != "" {
					k, _ := in.constStr(o.St, a)
					want := algorithm
					if want == "" {
						want = "MD5"
					}
					x.must(strings.EqualFold(k, want), "parameter algorithm", "the algorithm is %s (%s)", in.ropeText(o.St, a), where)
				}
				ha1 := md5hex(in, o.St, cat(in, o.St, user, ":", r, ":", password))
				a2 := cat(in, o.St, verb, ":", uri)
				used := qop
				if strings.Contains(qop, ",") {
					used, _ = in.constStr(o.St, got["qop"])
					x.must(used == "auth" || used == "auth-int", "parameter qop", "the quality of protection %q is not one of those offered (%s)", used, where)
				}
				if used == "auth-int" {
					a2 = cat(in, o.St, a2, ":", md5hex(in, o.St, VStr{in.bytesOf(o.St, body)}))
				}
				ha2 := md5hex(in, o.St, a2)
				if qop == "" {
					is("response", md5hex(in, o.St, cat(in, o.St, ha1, ":", nonce, ":", ha2)))
				} else {
					is("qop", strConst(used))
					nc, cn := got["nc"], got["cnonce"]
					x.must(len(nc.S) > 0 && len(cn.S) > 0, "parameters nc and cnonce", "the nonce count or the client nonce is missing (%s)", where)
					if strings.EqualFold(algorithm, "md5-sess") {
						ha1 = md5hex(in, o.St, cat(in, o.St, ha1, ":", nonce, ":", cn))
					}
					is("response", md5hex(in, o.St, cat(in, o.St, ha1, ":", nonce, ":", nc, ":", cn, ":", used, ":", ha2)))
					k := in.ropeText(o.St, nc)
					for _, p := range u.seen {
						x.must(p != k, "nonce count", "nonce count %s is used again (%s)", k, where)
					}
					seen = append(seen, k)
				}
				next = append(next, use{o: o, fn: f, seen: seen})
			}
		}
		list = next
		if len(list) == 0 {
			x.must(false, "authorization", "no authorization is computed (%s)", where)
			return
		}
		if len(list) > 16 {
			list = list[:16]
		}
	}
}

// authParams takes value of Authorization header apart.
func (in *Interp) authParams(st *State, v Value) (map[string]VStr, bool) {
	s, ok := v.(VStr)
	if !ok {
		return nil, false
	}
	// Symbolic parts become placeholders.
	var w worded
	var b strings.Builder
	for _, g := range s.S {
		if c, ok := in.constSegs(st, []Seg{g}); ok {
			b.WriteString(c)
			continue
		}
		b.WriteRune(rune(firstWord + len(w.words)))
		w.words = append(w.words, g)
	}
	text, ok := strings.CutPrefix(b.String(), "Digest ")
	if !ok {
		return nil, false
	}
	r := map[string]VStr{}
	for text != "" {
		k, rest, ok := strings.Cut(text, "=")
		if !ok {
			return nil, false
		}
		k = strings.TrimSpace(k)
		var val string
		if q, ok := strings.CutPrefix(rest, `"`); ok {
			if val, text, ok = strings.Cut(q, `"`); !ok {
				return nil, false
			}
			if t := strings.TrimSpace(text); t != "" {
				if text, ok = strings.CutPrefix(t, ","); !ok {
					return nil, false
				}
			}
		} else {
			val, text, _ = strings.Cut(rest, ",")
		}
		if _, dup := r[k]; dup || k == "" || strings.ContainsAny(k, `" `) {
			return nil, false
		}
		r[k] = w.text(val)
	}
	return r, true
}

// basic checks the other scheme.
func (x *ctx) basic(in *Interp, ctor, auth *ssa.Function) {
	st := in.enter()
	realm := in.aWord(st, "realm")
	uri, user, password := in.symStr(st, "uri"), in.symStr(st, "user"), in.symStr(st, "password")
	where := "Basic"
	for _, o := range x.authFn(in, ctor, auth, st, uri, cat(in, st, `Basic realm="`, realm, `"`), user, password, where) {
		f, ok := o.Ret[0].(VFunc)
		if !x.must(ok && f.Fn != nil, "function", "what Authenticate returns cannot be determined (%s)", where) {
			continue
		}
		for i := 0; i < 2; i++ {
			for _, p := range in.callValue(o.St.clone(), f, []Value{in.symStr(o.St, pf("verb%d", i)), VSlice{Nil: k1}}, nil, f.Fn.Signature) {
				x.count("authorizations", 1)
				want := cat(in, p.St, "Basic ", in.fnStr(p.St, "base64", k0, bigLen, cat(in, p.St, user, ":", password)))
				x.must(in.ropeText(p.St, p.Ret[0]) == in.ropeText(p.St, want), "basic", "the authorization is %s, it should be %s", in.ropeText(p.St, p.Ret[0]), in.ropeText(p.St, want))
			}
		}
	}
}
