package main

import (
	"regexp"
	"strings"
	"unicode/utf8"
)

// Words are symbolic parts of texts that consist of letters and digits only, there is at least one.  Functions of
// the strings library are evaluated exactly on texts made of constants and words: words are represented by
// characters of a private area while the real function works.

const (
	wordPrefix = "word:"
	firstWord  = 0xe000
)

// aWord makes a symbolic word.
func (in *Interp) aWord(st *State, name string) VStr {
	return in.symStr(st, wordPrefix+name)
}

func (in *Interp) isWord(st *State, g Seg) bool {
	if !st.isLe(k1, g.N) {
		return false
	}
	switch g.Kind {
	case SBase:
		return strings.HasPrefix(g.ID, wordPrefix)
	case SFn:
		switch g.ID {
		case "dec":
			v, ok := g.Args[0].(VInt)
			return ok && st.isLe(k0, v.L)
		case "hex":
			return true
		case "strings.ToLower", "strings.ToUpper":
			s, ok := g.Args[0].(VStr)
			return ok && len(s.S) == 1 && in.isWord(st, s.S[0])
		}
	}
	return false
}

// worded is a text with words replaced by placeholders.
type worded struct {
	s     string
	words []Seg
}

func (in *Interp) worded(st *State, segs []Seg, w *worded) bool {
	var b strings.Builder
	for _, g := range segs {
		if n, ok := st.konst(g.N); ok && n == 0 {
			continue
		}
		if c, ok := in.constSegs(st, []Seg{g}); ok {
			for i := 0; i < len(c); i++ {
				if c[i] >= 128 {
					return false
				}
			}
			b.WriteString(c)
			continue
		}
		if !in.isWord(st, g) || len(w.words) > 1000 {
			return false
		}
		b.WriteRune(rune(firstWord + len(w.words)))
		w.words = append(w.words, g)
	}
	w.s = b.String()
	return true
}

// text converts a part of text with placeholders back.
func (w *worded) text(s string) VStr {
	var r []Seg
	c := 0
	flush := func(i int) {
		if c < i {
			r = append(r, strConst(s[c:i]).S...)
		}
	}
	for i, x := range s {
		if x >= firstWord && int(x) < firstWord+len(w.words) {
			flush(i)
			r = append(r, w.words[x-firstWord])
			c = i + utf8.RuneLen(x)
		}
	}
	flush(len(s))
	return VStr{r}
}

// size returns length of the text.
func (w *worded) size(s string) Lin { return segsLen(w.text(s).S) }

func alnum(c rune) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func noAlnum(s string) bool {
	for _, c := range s {
		if alnum(c) || c >= firstWord {
			return false
		}
	}
	return true
}

// pattern matches the texts a text with placeholders stands for.
func (w *worded) pattern(s string) string {
	var b strings.Builder
	for _, x := range s {
		if x >= firstWord {
			b.WriteString("[0-9A-Za-z]+")
		} else {
			b.WriteString(regexp.QuoteMeta(string(x)))
		}
	}
	return b.String()
}

// canEqual tells whether a text may be equal to a constant.
func (in *Interp) canEqual(st *State, segs []Seg, k string) bool {
	var w worded
	if !in.worded(st, segs, &w) || len(w.words) == 0 {
		return true
	}
	for i := 0; i < len(k); i++ {
		if k[i] >= 128 {
			return true
		}
	}
	ok, err := regexp.MatchString("^(?s:"+w.pattern(w.s)+")$", k)
	return err != nil || ok
}

// prefix tells whether s starts with constant p: 1 yes, 0 no, -1 unknown.
func wordPrefixed(s, p string) int {
	for _, c := range p {
		if s == "" {
			return 0
		}
		d, n := utf8.DecodeRuneInString(s)
		if d >= firstWord {
			if !mayPrefix(s, p) {
				return 0
			}
			return -1
		}
		if c != d {
			return 0
		}
		s, p = s[n:], p[utf8.RuneLen(c):]
	}
	return 1
}

// mayPrefix tells whether a text with words may start with constant p.
func mayPrefix(s, p string) bool {
	if p == "" {
		return true
	}
	if s == "" {
		return false
	}
	c, m := utf8.DecodeRuneInString(p)
	d, n := utf8.DecodeRuneInString(s)
	if d < firstWord {
		return c == d && mayPrefix(s[n:], p[m:])
	}
	return alnum(c) && (mayPrefix(s, p[m:]) || mayPrefix(s[n:], p[m:]))
}

func reverse(s string) string {
	r := []rune(s)
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return string(r)
}

// wordFn evaluates a function of the strings library on constants and words.
func (in *Interp) wordFn(c *callCtx) ([]Outcome, bool) {
	st := c.st
	if len(c.args) == 0 {
		return nil, false
	}
	switch c.args[0].(type) {
	case VStr:
	default:
		return nil, false
	}
	var w worded
	if !in.worded(st, str(c.args[0]).S, &w) {
		return nil, false
	}
	s := w.s
	sep, sepOk := "", false
	if len(c.args) > 1 {
		switch x := c.args[1].(type) {
		case VStr:
			sep, sepOk = in.constStr(st, x)
		case VInt:
			if k, ok := st.konst(x.L); ok && k >= 0 && k < 128 {
				sep, sepOk = string(rune(k)), true
			}
		}
		for i := 0; i < len(sep); i++ {
			if sep[i] >= 128 {
				return nil, false
			}
		}
	}
	plain := len(w.words) == 0
	exact := sepOk && (plain || noAlnum(sep))
	list := func(parts []string) []Outcome {
		var vals []Value
		for _, p := range parts {
			vals = append(vals, w.text(p))
		}
		n := konst(int64(len(vals)))
		var segs []Seg
		if len(vals) > 0 {
			segs = []Seg{{Kind: SVals, Vals: vals, N: n}}
		}
		o := in.newArray(st, sliceElem(c.sig.Results().At(0).Type()), segs, c.ins)
		return one(st, VSlice{Nil: k0, Obj: o, Off: k0, Len: n, Cap: n})
	}
	at := func(i int) []Outcome {
		if i < 0 {
			return one(st, intk(-1))
		}
		return one(st, VInt{w.size(s[:i])})
	}
	switch strings.TrimPrefix(c.name, "strings.") {
	case "TrimSpace":
		return one(st, w.text(strings.TrimSpace(s))), true
	case "ToLower", "ToUpper":
		f := pureStr[c.name]
		var r []Seg
		for _, g := range w.text(s).S {
			if g.Kind == SConst {
				r = append(r, strConst(f(g.C)).S...)
			} else if g.Kind == SFn && g.ID == "dec" {
				r = append(r, g)
			} else {
				r = append(r, in.fnStr(st, c.name, g.N, g.N, VStr{[]Seg{g}}).S...)
			}
		}
		return one(st, VStr{in.concat(st, nil, r)}), true
	case "Fields":
		return list(strings.Fields(s)), true
	case "Split":
		if exact && sep != "" {
			return list(strings.Split(s, sep)), true
		}
	case "SplitAfter":
		if exact && sep != "" {
			return list(strings.SplitAfter(s, sep)), true
		}
	case "SplitN":
		if k, ok := st.konst(num(c.args[2])); ok && exact && sep != "" {
			return list(strings.SplitN(s, sep, int(k))), true
		}
	case "Index", "IndexByte", "IndexRune":
		if exact {
			return at(strings.Index(s, sep)), true
		}
	case "LastIndex", "LastIndexByte":
		if exact {
			return at(strings.LastIndex(s, sep)), true
		}
	case "IndexAny":
		if exact {
			return at(strings.IndexAny(s, sep)), true
		}
	case "Contains", "ContainsRune":
		if exact {
			return one(st, boolv(strings.Contains(s, sep))), true
		}
	case "ContainsAny":
		if exact {
			return one(st, boolv(strings.ContainsAny(s, sep))), true
		}
	case "Count":
		if exact && sep != "" {
			return one(st, intk(int64(strings.Count(s, sep)))), true
		}
	case "Trim", "TrimLeft", "TrimRight":
		if exact {
			f := map[string]func(string, string) string{"Trim": strings.Trim, "TrimLeft": strings.TrimLeft, "TrimRight": strings.TrimRight}[strings.TrimPrefix(c.name, "strings.")]
			return one(st, w.text(f(s, sep))), true
		}
	case "HasPrefix", "HasSuffix", "TrimPrefix", "TrimSuffix", "CutPrefix", "CutSuffix":
		if !sepOk {
			break
		}
		pre := strings.HasSuffix(c.name, "Prefix")
		r := 0
		if pre {
			r = wordPrefixed(s, sep)
		} else {
			r = wordPrefixed(reverse(s), reverse(sep))
		}
		if r < 0 {
			break
		}
		rest := s
		if r == 1 && pre {
			rest = s[len(sep):]
		} else if r == 1 {
			rest = s[:len(s)-len(sep)]
		}
		switch {
		case strings.HasPrefix(c.name, "strings.Has"):
			return one(st, boolv(r == 1)), true
		case strings.HasPrefix(c.name, "strings.Trim"):
			return one(st, w.text(rest)), true
		}
		return one(st, w.text(rest), boolv(r == 1)), true
	case "Cut":
		if exact {
			a, b, ok := strings.Cut(s, sep)
			return one(st, w.text(a), w.text(b), boolv(ok)), true
		}
	case "ReplaceAll":
		if k, ok := in.constStr(st, c.args[2]); ok && exact && sep != "" {
			return one(st, w.text(strings.ReplaceAll(s, sep, k))), true
		}
	case "EqualFold":
		if plain && sepOk {
			return one(st, boolv(strings.EqualFold(s, sep))), true
		}
		if sepOk && !in.canEqualFold(&w, sep) {
			return one(st, boolv(false)), true
		}
	}
	return nil, false
}

func (in *Interp) canEqualFold(w *worded, k string) bool {
	ok, err := regexp.MatchString("^(?is:"+w.pattern(w.s)+")$", k)
	return err != nil || ok
}
