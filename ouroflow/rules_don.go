package main

func init() {
	register(&check{id: "C41", rule: "abstract interpretation of DonDiff for any two numbers, split by the five cases of RFC 6184 5.5; in each the result equals the linear expression of that case",
		min: map[string]int{"cases": 5}, run: runC41})
}

func runC41(x *ctx) {
	fn := x.fn("net/h264", "DonDiff")
	if fn == nil {
		return
	}
	in := x.interp()
	x.guard(in, "DonDiff", func() {
		st := in.enter()
		args := in.lazyArgs(st, fn)
		m, ok1 := args[0].(VInt)
		n, ok2 := args[1].(VInt)
		if !x.must(len(args) == 2 && ok1 && ok2, "arguments", "DonDiff does not take two numbers") {
			return
		}
		d := sub(n.L, m.L)
		for _, c := range []struct {
			name   string
			lo, hi int64
			plus   int64
		}{
			{"the numbers are equal", 0, 0, 0},
			{"the second is less than 32768 ahead", 1, 32767, 0},
			{"the second is at least 32768 ahead", 32768, 65535, -65536},
			{"the first is less than 32768 ahead", -32767, -1, 0},
			{"the first is at least 32768 ahead", -65535, -32768, 65536},
		} {
			s := st.clone()
			s.assumeLe(konst(c.lo), d)
			s.assumeLe(d, konst(c.hi))
			outs := in.callFn(s, fn, args, nil)
			x.count("cases", 1)
			x.must(len(outs) > 0, "outcome", "DonDiff does not return")
			for _, o := range outs {
				x.sameInt(o.St, o.Ret[0], addK(d, c.plus), "distance when "+c.name, "the distance when "+c.name)
			}
		}
	})
	x.collect(in, nil)
}
