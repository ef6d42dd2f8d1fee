package main

import (
	"go/types"
	"strings"
)

func init() {
	register(&check{id: "C35", rule: "abstract interpretation of Transport.String followed by Transport.Parse on its text for transports with any values (symbolic words and numbers) of every single parameter, of none, of all and of all but one: each field of the result equals the one it came from; and of Parse on headers with one parameter of any value: without its value, or when conversion of its number fails, the result is an error, wherever the parameter stands",
		min: map[string]int{"round trips": 60, "values": 60}, run: runC35})
}

func runC35(x *ctx) {
	format, parse := x.method(rtspPkg, "Transport", "String"), x.method(rtspPkg, "Transport", "Parse")
	tt := x.typ(rtspPkg, "Transport")
	if format == nil || parse == nil || tt == nil {
		return
	}
	u, ok := under(tt).(*types.Struct)
	if !x.must(ok, "Transport", "Transport is no struct") {
		return
	}
	in := x.interp()
	in.noPanics = true
	in.unrolls = 60
	in.apart = 64
	in.h.Call = func(c *callCtx) ([]Outcome, bool) {
		if strings.HasPrefix(c.name, "strconv.Parse") || c.name == "strconv.Atoi" {
			outs := in.parseNum(c)
			for _, o := range outs {
				if len(o.Ret) == 2 && in.isErr(o) != 0 {
					o.St.setMode("number", "bad")
				}
			}
			return outs, true
		}
		return nil, false
	}
	opts := []string{"Destination", "Source", "Interleave", "Port", "ClientPort", "ServerPort", "Layers", "TTL", "SSRC", "Mode", "IsAppend"}
	pair := x.typ(rtspPkg, "Pair")
	mkPair := func(st *State, name string) Value {
		return VStruct{pair, []Value{VInt{in.freshInt(name+"1", 1, 1<<30)}, VInt{in.freshInt(name+"2", 0, 1<<30)}}}
	}
	x.guard(in, "round trip", func() {
		for _, proto := range []string{"TCP", "unicast", "multicast"} {
			var sets []map[string]bool
			all := map[string]bool{}
			for _, o := range opts {
				all[o] = true
				but := map[string]bool{}
				for _, p := range opts {
					but[p] = p != o
				}
				sets = append(sets, map[string]bool{o: true}, but)
			}
			sets = append(sets, all, map[string]bool{})
			for _, set := range sets {
				st := in.enter()
				f := map[string]Value{}
				for i := 0; i < u.NumFields(); i++ {
					f[u.Field(i).Name()] = zero(u.Field(i).Type())
				}
				f["IsTCP"] = boolv(proto == "TCP")
				f["IsMulticast"] = boolv(proto == "multicast")
				emitted := map[string]bool{"IsTCP": true, "IsMulticast": true, "IsInterleaved": true, "IsAppend": true}
				for _, o := range opts {
					if !set[o] {
						continue
					}
					switch o {
					case "Destination", "Source", "SSRC", "Mode":
						w := in.aWord(st, o)
						f[o] = w
						if o != "SSRC" {
							f[o] = cat(in, st, w, ".", in.aWord(st, o+"2"))
						}
					case "Interleave":
						if proto == "multicast" {
							continue
						}
						f["IsInterleaved"] = boolv(true)
						f[o] = mkPair(st, o)
					case "Port", "ClientPort", "ServerPort":
						f[o] = mkPair(st, o)
					case "TTL":
						if proto != "multicast" {
							continue
						}
						f[o] = VInt{in.freshInt(o, 1, 255)}
					case "Layers":
						f[o] = VInt{in.freshInt(o, 1, 1<<30)}
					case "IsAppend":
						f[o] = boolv(true)
					}
					emitted[o] = true
				}
				from := x.object(in, st, rtspPkg, "Transport", f)
				to := x.object(in, st, rtspPkg, "Transport", nil)
				in.store(st, to.Obj, to.Path, zero(tt))
				for _, o := range in.callM(st, format, from) {
					good, bad := in.splitErr(in.callM(o.St, parse, to, o.Ret[0]))
					x.must(len(bad) == 0, "rejected", "parsing rejects what formatting emits: %s", in.ropeText(o.St, o.Ret[0]))
					x.must(len(good) > 0, "outcome", "Parse does not return")
					for _, p := range good {
						x.count("round trips", 1)
						for i := 0; i < u.NumFields(); i++ {
							n := u.Field(i).Name()
							if _, known := f[n]; !emitted[n] || !known {
								continue
							}
							a, b := in.get(p.St, from, n), in.get(p.St, to, n)
							x.must(in.sameVal(p.St, a, b), "field "+n, "%s becomes %s when %s is parsed", n, p.St.describe(b), in.ropeText(o.St, o.Ret[0]))
						}
					}
				}
			}
		}
	})
	x.guard(in, "errors", func() {
		for _, name := range []string{"destination", "source", "interleaved", "layers", "ttl", "port", "client_port", "server_port", "ssrc", "mode"} {
			number := strings.Contains("interleaved layers ttl port client_port server_port", name)
			pairs := number && name != "layers" && name != "ttl"
			for _, tail := range []string{"", ";append", ";mode=PLAY;source=here", ";ttl=1;port=4-5;layers=2"} {
				for kind := 0; kind < 4; kind++ {
					st := in.enter()
					text := cat(in, st, "RTP/AVP;unicast;", name)
					switch kind {
					case 1:
						text = cat(in, st, text, "=", in.aWord(st, "value"))
					case 2:
						if !pairs {
							continue
						}
						text = cat(in, st, text, "=", in.aWord(st, "value"), "-", in.aWord(st, "second"))
					case 3:
						if !number {
							continue
						}
						text = cat(in, st, text, "=")
					}
					text = cat(in, st, text, tail)
					to := x.object(in, st, rtspPkg, "Transport", nil)
					in.store(st, to.Obj, to.Path, zero(tt))
					outs := in.callM(st, parse, to, text)
					x.must(len(outs) > 0, "outcome", "Parse does not return")
					for _, o := range outs {
						x.count("values", 1)
						bad := kind == 0 || kind == 3 || o.St.Mode["number"] == "bad"
						shown := in.ropeText(o.St, text)
						if bad {
							x.must(in.isErr(o) == 1, "error of "+name, "parsing of %s reports success although the value is missing or malformed", shown)
						} else {
							x.must(in.isErr(o) == 0, "success of "+name, "parsing of %s reports an error", shown)
						}
					}
				}
			}
		}
	})
	x.collect(in, func(o *Obligation) bool { return o.Rule == "analysable" })
}
