package rules

import (
	"fmt"
	"go/types"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{ID: "C05", Technique: "path-sensitive simulation of the coordinator's wait operations against an environment that publishes results and dies at any moment, and of both clients' poll loops over every answer",
		Note: "The awaited processes act whenever the operation takes the coordinator's lock: they may have published their result and they may have died; the operation must then answer the result, not-yet or gone accordingly. Poll loops are explored over every sequence of answers up to a fixpoint.",
		Run:  c05})
}

func c05(c *Ctx) {
	c.Rule("wait-answers", "a wait for process one is answered with its result if there is one, with not-yet while it lives, with gone once it died without publishing")
	c05first(c, "BeforeSuiteState", "beforeSuiteState.State", "beforeSuiteState")
	c05first(c, "ReportBeforeSuiteState", "reportBeforeSuiteState", "reportBeforeSuiteState")
	c.Floor(15)

	c.Rule("finished", "the other processes have finished exactly when each of them that registered is dead and none has yet to register")
	c05finished(c)

	c.Rule("aggregate-answers", "the other processes' report is answered once all are dead and all have reported, gone if one died without reporting, not-yet otherwise")
	c05aggregate(c)

	c.Rule("alive-probe", "a process is alive until it registers and then as long as the command's probe says so")
	c05alive(c)

	c.Rule("poll", "a poll asks again after not-yet, and ends with every other answer; a failed request or answer is never taken for success")
	c05poll(c)

	c.Rule("release", "waiting clients turn gone into the dedicated error, never into a successful answer")
	c05release(c)
}

// errName is which of the coordinator's errors a value is: "", Early, Gone, Failed or other.
func errName(v *engine.Val) string {
	if v == nil || v.IsNil() {
		return ""
	}
	k := v.Key()
	for _, n := range []string{"Early", "Gone", "Failed"} {
		if strings.HasSuffix(k, "::Error"+n) || strings.Contains(k, "::Error"+n+"]") || strings.Contains(k, "::Error"+n+")") {
			return n
		}
	}
	return "other"
}

// aliveProbe forks the outcome of a liveness probe call; it returns false if the call is not one.
func aliveProbe(k *engine.Call) (int, bool) {
	if k.Fn != nil || k.FnVal == nil || k.Com == nil || k.Com.IsInvoke() || isBuiltin(k.Com.Value) {
		return 0, false
	}
	key := k.FnVal.Key()
	i := strings.Index(key, "probe")
	if i < 0 {
		return 0, false
	}
	n := 0
	fmt.Sscanf(key[i:], "probe%d", &n)
	return n, n > 0
}

func putAlives(x *engine.Interp, st *engine.State, rn string, t types.Type, n int, nilAt map[int]bool) {
	sl := fieldOfType(t, "alives")
	if sl == nil {
		return
	}
	x.Store(st, rn+".alives", engine.SliceAt("*probes", n, sl))
	et := sl.Underlying().(*types.Slice).Elem()
	for i := 0; i < n; i++ {
		v := engine.Sym(fmt.Sprintf("nonnil:probe%d", i+1), et)
		if nilAt[i+1] {
			v = engine.Nil(et)
		}
		x.Store(st, fmt.Sprintf("*probes[%d]", i), v)
	}
}

func c05first(c *Ctx, op, field, whole string) {
	fn := c.Fn("(*internal/parallel_support.ServerHandler)." + op)
	t := c.Type(psPkg, "ServerHandler")
	if fn == nil || t == nil || len(fn.Params) < 3 {
		return
	}
	rn, out := "*"+fn.Params[0].Name(), fn.Params[2].Name()
	stT := c.Type("types", "SpecState")
	inv, passed := c.ConstVal("types", "SpecStateInvalid"), c.ConstVal("types", "SpecStatePassed")
	for _, early := range []bool{false, true} { // published before the request
		var x *engine.Interp
		x = engine.New(c.P, engine.Cfg{Root: fn,
			Concrete: func(*ssa.Phi) bool { return true },
			Init: func(st *engine.State) {
				v := inv
				if early {
					v = passed
					st.Auto["pub"] = "1"
				}
				x.Store(st, rn+"."+field, v)
				x.Store(st, rn+".parallelTotal", engine.IntVal(2, types.Typ[types.Int]))
				putAlives(x, st, rn, t, 2, nil)
			},
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				if strings.HasSuffix(k.Name, "Mutex).Lock") {
					if k.St.Auto["pub"] == "" && k.St.Auto["dead"] == "" {
						o := k.St.Clone()
						o.Auto["pub"] = "1"
						o.Note("%s: process one published its result before the lock was taken", c.P.RelPos(k.Pos()))
						k.X.Store(o, rn+"."+field, passed)
						return []engine.Outcome{{St: k.St, Ret: engine.Nil(k.T), Kind: engine.ExitReturn}, {St: o, Ret: engine.Nil(k.T), Kind: engine.ExitReturn}}, true
					}
					return k.Return(engine.Nil(k.T)), true
				}
				if n, ok := aliveProbe(k); ok {
					if n != 1 {
						k.St.Auto["wrongprobe"] = fmt.Sprint(n)
					}
					if k.St.Auto["dead"] != "" {
						return k.Return(engine.BoolVal(false)), true
					}
					o := k.St.Clone()
					o.Auto["dead"] = "1"
					o.Note("%s: process one is found dead", c.P.RelPos(k.Pos()))
					k.St.Auto["live"] = "1"
					return []engine.Outcome{{St: k.St, Ret: engine.BoolVal(true), Kind: engine.ExitReturn}, {St: o, Ret: engine.BoolVal(false), Kind: engine.ExitReturn}}, true
				}
				return nil, false
			}})
		c.Run(x)
		for _, e := range x.Exits {
			pos, path := e.Pos, e.St.Path(12)
			what := fmt.Sprintf("%s published=%v dead=%v", op, e.St.Auto["pub"] != "", e.St.Auto["dead"] != "")
			if e.Kind != engine.ExitReturn {
				c.Fail(what+" leaves by "+string(e.Kind), pos, path, "%s leaves by %s", op, e.Kind)
				continue
			}
			ret := e.Ret
			if ret != nil && ret.K != engine.VConst && ret.K != engine.VSym && errName(ret) == "other" && ret.Mentions("alloc") {
				c.Undecided("%s answers %s", op, ret.Key())
				continue
			}
			got := errName(ret)
			if w := e.St.Auto["wrongprobe"]; w != "" {
				c.Fail(op+" probes another process", pos, path, "%s looks at process %s instead of process one", op, w)
			}
			switch got {
			case "":
				v := x.Load(e.St, "*"+out, fn.Params[2].Type().Underlying().(*types.Pointer).Elem())
				st := v
				if whole != field {
					st = x.FieldOf(e.St, v, "State")
				}
				names := x.DomNames(e.St, st)
				ok := e.St.Auto["pub"] != "" && (len(names) == 1 && names[0] == "SpecStatePassed" || st != nil && st.Mentions(whole))
				c.Check(ok, what+" answered with the result", pos, path, "%s succeeds with state %v although process one published: %v", op, names, e.St.Auto["pub"] != "")
			case "Early":
				c.Check(e.St.Auto["dead"] == "", what+" not-yet", pos, path, "%s answers not-yet although process one was found dead: the waiting process would ask again forever", op)
				c.Check(!early, what+" not-yet although published", pos, path, "%s answers not-yet although the result was published before the request", op)
			case "Gone":
				c.Check(e.St.Auto["pub"] == "", what+" gone", pos, path, "%s answers gone although process one published its result before it died", op)
				c.Check(e.St.Auto["dead"] != "", what+" gone while alive", pos, path, "%s answers gone although process one was not found dead", op)
			default:
				c.Fail(what+" answers "+got, pos, path, "%s answers %v", op, ret)
			}
		}
		_ = stT
	}
}

func c05finished(c *Ctx) {
	fn := c.Fn("(*internal/parallel_support.ServerHandler).HaveNonprimaryProcsFinished")
	t := c.Type(psPkg, "ServerHandler")
	if fn == nil || t == nil {
		return
	}
	rn := "*" + fn.Params[0].Name()
	// up to four processes in every combination of states; more of them with all but one dead
	for _, n := range []int{1, 2, 3, 4, 12, 33} {
		combos3 := n + 1
		if n <= 4 {
			combos3 = 1
			for i := 0; i < n; i++ {
				combos3 *= 3
			}
		}
		for m := 0; m < combos3; m++ {
			st3 := make([]int, n+1) // 0 dead, 1 alive, 2 unregistered
			if n > 4 && m > 0 {
				st3[m] = 1 + m%2
			}
			for i, r := 1, m; i <= n && n <= 4; i++ {
				st3[i] = r % 3
				r /= 3
			}
			nils := map[int]bool{}
			want := ""
			for i := 1; i <= n; i++ {
				nils[i] = st3[i] == 2
				if i > 1 && st3[i] != 0 {
					want = "Early"
				}
			}
			var x *engine.Interp
			x = engine.New(c.P, engine.Cfg{Root: fn, Linear: n > 4, Budget: 20000, Concrete: func(*ssa.Phi) bool { return true },
				Init: func(st *engine.State) {
					x.Store(st, rn+".parallelTotal", engine.IntVal(int64(n), types.Typ[types.Int]))
					putAlives(x, st, rn, t, n, nils)
				},
				OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
					if p, ok := aliveProbe(k); ok && p <= n {
						return k.Return(engine.BoolVal(st3[p] == 1)), true
					}
					return nil, false
				}})
			c.Run(x)
			what := fmt.Sprintf("finished with %d processes, states %v", n, st3[1:])
			for _, e := range x.Exits {
				if e.Kind != engine.ExitReturn {
					c.Fail("leaves by "+string(e.Kind), fn.Pos(), e.St.Path(8), "%s (0 dead, 1 alive, 2 not registered): leaves by %s", what, e.Kind)
					continue
				}
				c.Check(errName(e.Ret) == want, what, fn.Pos(), e.St.Path(8), "%s (0 dead, 1 alive, 2 not registered): answered %q, want %q", what, errName(e.Ret), want)
			}
		}
	}
	c.Floor(100)
}

func c05aggregate(c *Ctx) {
	fn := c.Fn("(*internal/parallel_support.ServerHandler).AggregatedNonprimaryProcsReport")
	t := c.Type(psPkg, "ServerHandler")
	if fn == nil || t == nil || len(fn.Params) < 3 {
		return
	}
	rn, out := "*"+fn.Params[0].Name(), fn.Params[2].Name()
	intT := types.Typ[types.Int]
	for n := 2; n <= 3; n++ {
		ended := func(st *engine.State) int { return strings.Count(st.Auto["ends"], ",") }
		var x *engine.Interp
		x = engine.New(c.P, engine.Cfg{Root: fn, Concrete: func(*ssa.Phi) bool { return true },
			Init: func(st *engine.State) {
				x.Store(st, rn+".parallelTotal", engine.IntVal(int64(n), intT))
				x.Store(st, rn+".numSuiteDidEnds", engine.IntVal(0, intT))
				putAlives(x, st, rn, t, n, nil)
			},
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				if strings.HasSuffix(k.Name, "Mutex).Lock") {
					outs := []engine.Outcome{{St: k.St, Ret: engine.Nil(k.T), Kind: engine.ExitReturn}}
					// every set of live processes that have not reported may report now
					for m := 1; m < 1<<(n-1); m++ {
						ok := true
						o := k.St.Clone()
						for i := 2; i <= n; i++ {
							if m&(1<<(i-2)) == 0 {
								continue
							}
							id := fmt.Sprintf("%d,", i)
							if strings.Contains(o.Auto["ends"], id) || strings.Contains(o.Auto["dead"], id) {
								ok = false
								break
							}
							o.Auto["ends"] = sortedIDs(o.Auto["ends"] + id)
						}
						if ok {
							o.Note("%s: processes %s have reported", c.P.RelPos(k.Pos()), o.Auto["ends"])
							k.X.Store(o, rn+".numSuiteDidEnds", engine.IntVal(int64(ended(o)), intT))
							outs = append(outs, engine.Outcome{St: o, Ret: engine.Nil(k.T), Kind: engine.ExitReturn})
						}
					}
					return outs, true
				}
				if p, ok := aliveProbe(k); ok {
					id := fmt.Sprintf("%d,", p)
					if strings.Contains(k.St.Auto["dead"], id) {
						return k.Return(engine.BoolVal(false)), true
					}
					o := k.St.Clone()
					o.Auto["dead"] = sortedIDs(o.Auto["dead"] + id)
					o.Note("%s: process %d is found dead", c.P.RelPos(k.Pos()), p)
					return []engine.Outcome{{St: k.St, Ret: engine.BoolVal(true), Kind: engine.ExitReturn}, {St: o, Ret: engine.BoolVal(false), Kind: engine.ExitReturn}}, true
				}
				return nil, false
			}})
		c.Run(x)
		for _, e := range x.Exits {
			pos, path := e.Pos, e.St.Path(14)
			dead := strings.Count(strings.ReplaceAll(e.St.Auto["dead"], "1,", ""), ",")
			what := fmt.Sprintf("%d processes, %d of the others dead, %d reported", n, dead, ended(e.St))
			if e.Kind != engine.ExitReturn {
				c.Fail(what+" leaves by "+string(e.Kind), pos, path, "%s: leaves by %s", what, e.Kind)
				continue
			}
			switch got := errName(e.Ret); got {
			case "":
				v := x.Load(e.St, "*"+out, c.Type("types", "Report"))
				c.Check(dead == n-1 && ended(e.St) == n-1, what+" answered", pos, path, "%s: the report is answered as complete", what)
				c.Check(v.Mentions("aggregatedReport"), what+" value", pos, path, "%s: the answer is %s, not the aggregate", what, v.Key())
			case "Early":
				c.Check(dead < n-1, what+" not-yet", pos, path, "%s: answered not-yet although every other process is dead", what)
			case "Gone":
				c.Check(dead == n-1 && ended(e.St) < n-1, what+" gone", pos, path, "%s: answered gone", what)
			default:
				c.Fail(what+" answers "+got, pos, path, "%s: answered %v", what, e.Ret)
			}
		}
	}
	c.Floor(8)
}

func sortedIDs(s string) string {
	out := ""
	for i := 1; i <= 9; i++ {
		id := fmt.Sprintf("%d,", i)
		if strings.Contains(s, id) {
			out += id
		}
	}
	return out
}

func c05alive(c *Ctx) {
	// registration stores the given probe at the process's own position
	fn := c.Fn("(*internal/parallel_support.ServerHandler).registerAlive")
	t := c.Type(psPkg, "ServerHandler")
	if fn == nil || t == nil || len(fn.Params) < 3 {
		return
	}
	rn := "*" + fn.Params[0].Name()
	for proc := 1; proc <= 3; proc++ {
		var x *engine.Interp
		x = engine.New(c.P, engine.Cfg{Root: fn, Args: []*engine.Val{engine.ParamSym(fn.Params[0]), engine.IntVal(int64(proc), types.Typ[types.Int]), engine.Sym("nonnil:given", fn.Params[2].Type())},
			Init: func(st *engine.State) {
				putAlives(x, st, rn, t, 3, map[int]bool{1: true, 2: true, 3: true})
			}})
		c.Run(x)
		for _, e := range x.Exits {
			if e.Kind != engine.ExitReturn {
				c.Fail("registerAlive leaves by "+string(e.Kind), fn.Pos(), e.St.Path(8), "registering process %d leaves by %s", proc, e.Kind)
				continue
			}
			for i := 1; i <= 3; i++ {
				v := x.Load(e.St, fmt.Sprintf("*probes[%d]", i-1), fn.Params[2].Type())
				ok := v.IsNil()
				if i == proc {
					ok = v.Key() == "nonnil:given"
				}
				c.Check(ok, fmt.Sprintf("registering %d leaves probe %d", proc, i), fn.Pos(), e.St.Path(8), "registering process %d leaves probe %s at process %d", proc, v.Key(), i)
			}
		}
	}
	c.Floor(9)
}

// transport models what a client sees of one request: the coordinator's answer or a failure to get one.
var answers = []string{"", "Early", "Gone", "Failed", "other", "neterr"}

var httpCodes = map[string]int64{"": 200, "Early": 425, "Gone": 410, "Failed": 424, "other": 500}

// clientTransport hooks the calls a client makes to the network; answer forks over the given answers.
func clientTransport(c *Ctx, as []string, note func(k *engine.Call, st *engine.State, path string, payload *engine.Val)) func(k *engine.Call) ([]engine.Outcome, bool) {
	fork := func(k *engine.Call, mk func(st *engine.State, a string) *engine.Val) []engine.Outcome {
		var outs []engine.Outcome
		for _, a := range as {
			s := k.St.Clone()
			s.Auto["last"] = a
			s.Auto["asked"] += "+"
			if len(s.Auto["asked"]) > 2 {
				s.Auto["asked"] = "++"
			}
			s.Note("%s: the request is answered %q", c.P.RelPos(k.Pos()), a)
			outs = append(outs, engine.Outcome{St: s, Ret: mk(s, a), Kind: engine.ExitReturn})
		}
		return outs
	}
	errT := c.P.ErrorType()
	return func(k *engine.Call) ([]engine.Outcome, bool) {
		switch {
		case k.Name == "(*net/rpc.Client).Call":
			if note != nil {
				note(k, k.St, "", nil)
			}
			// the reply is only filled in by a successful answer
			return fork(k, func(st *engine.State, a string) *engine.Val {
				if a == "" {
					if p := k.Args[3].Unbox(); p.K == engine.VPtr {
						if pt, ok := p.T.Underlying().(*types.Pointer); ok {
							k.X.Store(st, p.S, engine.Sym("reply", pt.Elem()))
						}
					}
					return engine.Nil(errT)
				}
				return engine.Sym("nonnil:rpc:"+a, errT)
			}), true
		case k.Name == "(*net/rpc.Client).Go":
			if note != nil {
				note(k, k.St, "", nil)
			}
			k.St.Auto["unawaited"] = "1"
			return fork(k, func(st *engine.State, a string) *engine.Val { return engine.Sym("nonnil:rpccall", k.T) }), true
		case k.Name == "net/http.Get" || k.Name == "net/http.Post":
			if note != nil {
				note(k, k.St, "", nil)
			}
			tt, ok := k.T.(*types.Tuple)
			if !ok {
				return nil, false
			}
			return fork(k, func(st *engine.State, a string) *engine.Val {
				if a == "neterr" {
					return engine.Tuple(engine.Nil(tt.At(0).Type()), engine.Sym("nonnil:neterr", errT))
				}
				k.X.Store(st, "resp~.StatusCode", engine.IntVal(httpCodes[a], types.Typ[types.Int]))
				return engine.Tuple(engine.PtrTo("resp~", tt.At(0).Type()), engine.Nil(errT))
			}), true
		case k.Name == "invoke error.Error":
			r := k.Recv.Unbox().Key()
			for _, n := range []string{"Early", "Gone", "Failed"} {
				if strings.HasSuffix(r, "::Error"+n) || r == "nonnil:rpc:"+n {
					return k.Return(strVal("text of " + n)), true
				}
			}
			if strings.HasPrefix(r, "nonnil:rpc:") {
				return k.Return(strVal("text of something else")), true
			}
		case k.Name == "errors.Is" && len(k.Args) == 2:
			a, b := errName(k.Args[0]), errName(k.Args[1])
			if b != "other" && b != "" {
				return k.Return(engine.BoolVal(a == b)), true
			}
		case k.Name == "encoding/json.Marshal":
			if tt, ok := k.T.(*types.Tuple); ok {
				bad := k.St.Clone()
				bad.Auto["last"], bad.Auto["bad"] = "encode", "encode"
				bad.Note("%s: encoding fails", c.P.RelPos(k.Pos()))
				return []engine.Outcome{
					{St: k.St, Ret: engine.Tuple(engine.Expr("json", tt.At(0).Type(), k.Args[0]), engine.Nil(errT)), Kind: engine.ExitReturn},
					{St: bad, Ret: engine.Tuple(engine.Nil(tt.At(0).Type()), engine.Sym("nonnil:encode", errT)), Kind: engine.ExitReturn}}, true
			}
		case k.Name == "(*encoding/json.Decoder).Decode":
			p := k.Args[1].Unbox()
			bad := k.St.Clone()
			bad.Auto["last"] = "decode"
			bad.Note("%s: decoding the answer fails", c.P.RelPos(k.Pos()))
			if p.K == engine.VPtr {
				if pt, ok := p.T.Underlying().(*types.Pointer); ok {
					k.X.Store(k.St, p.S, engine.Sym("reply", pt.Elem()))
				}
			}
			return []engine.Outcome{{St: k.St, Ret: engine.Nil(errT), Kind: engine.ExitReturn}, {St: bad, Ret: engine.Sym("nonnil:decode", errT), Kind: engine.ExitReturn}}, true
		case k.Name == "time.Sleep":
			k.St.Auto["slept"] = k.St.Auto["asked"]
		}
		return nil, false
	}
}

func c05poll(c *Ctx) {
	n := 0
	for _, cl := range []string{"httpClient", "rpcClient"} {
		fn := c.Fn("(*internal/parallel_support." + cl + ").poll")
		if fn == nil || len(fn.Params) < 3 {
			continue
		}
		for _, withData := range []bool{true, false} {
			data := engine.Box(engine.PtrTo("data~", types.NewPointer(types.Typ[types.Int])), fn.Params[2].Type())
			if !withData {
				data = engine.Nil(fn.Params[2].Type())
				if cl == "rpcClient" {
					continue
				}
			}
			hook := clientTransport(c, answers, func(k *engine.Call, st *engine.State, _ string, _ *engine.Val) {
				a := st.Auto["last"]
				if st.Auto["asked"] != "" {
					c.Check(a == "Early", cl+".poll asks again after "+orOK(a), k.Pos(), st.Path(10), "%s.poll asks again after it was answered %s", cl, orOK(a))
				}
			})
			x := c.Run(engine.New(c.P, engine.Cfg{Root: fn, Args: []*engine.Val{engine.ParamSym(fn.Params[0]), engine.ParamSym(fn.Params[1]), data}, OnCall: hook, Concrete: offNetwork}))
			for _, e := range x.Exits {
				if e.Kind != engine.ExitReturn {
					c.Fail(cl+".poll leaves by "+string(e.Kind), e.Pos, e.St.Path(10), "%s.poll leaves by %s", cl, e.Kind)
					continue
				}
				n++
				last := e.St.Auto["last"]
				if last == "Early" {
					c.Fail(cl+".poll stops at not-yet", e.Pos, e.St.Path(10), "%s.poll returns %v although the answer was not-yet", cl, e.Ret)
					continue
				}
				got := errClass(e.Ret)
				want := map[string]string{"": "", "Gone": "Gone", "Failed": "Failed"}
				w, known := want[last]
				if !known {
					w = "other"
				}
				c.Check(got == w, cl+".poll answered "+orOK(last), e.Pos, e.St.Path(10), "%s.poll answered %s returns %v", cl, orOK(last), e.Ret)
			}
		}
	}
	if n < 12 {
		c.Undecided("only %d ways out of the poll loops", n)
	}
}

// errClass is errName for client-side errors: rpc errors with a known text are still plain errors.
func errClass(v *engine.Val) string { return errName(v) }

func orOK(a string) string {
	if a == "" {
		return "ok"
	}
	return a
}

// c05release: the blocking client operations.
func c05release(c *Ctx) {
	n := 0
	for _, cl := range []string{"httpClient", "rpcClient"} {
		for _, op := range []string{"BlockUntilSynchronizedBeforeSuiteData", "BlockUntilAggregatedNonprimaryProcsReport", "BlockUntilReportBeforeSuiteCompleted", "BlockUntilNonprimaryProcsHaveFinished"} {
			fn := c.Fn("(*internal/parallel_support." + cl + ")." + op)
			if fn == nil {
				continue
			}
			x := c.Run(engine.New(c.P, engine.Cfg{Root: fn, OnCall: clientTransport(c, answers, nil), Concrete: offNetwork}))
			for _, e := range x.Exits {
				if e.Kind != engine.ExitReturn || e.Ret == nil {
					c.Fail(cl+"."+op+" leaves by "+string(e.Kind), e.Pos, e.St.Path(10), "%s.%s leaves by %s", cl, op, e.Kind)
					continue
				}
				n++
				err := e.Ret
				var val *engine.Val
				if e.Ret.K == engine.VTuple {
					err = e.Ret.Args[len(e.Ret.Args)-1]
					val = e.Ret.Args[0]
				}
				last := e.St.Auto["last"]
				what := cl + "." + op + " answered " + orOK(last)
				isNil := err.IsNil()
				if last == "Gone" && op == "BlockUntilReportBeforeSuiteCompleted" {
					names := x.DomNames(e.St, val)
					c.Check(!isNil || len(names) == 1 && names[0] == "SpecStateFailed", what, e.Pos, e.St.Path(10), "%s: succeeds with state %v", what, names)
					continue
				}
				c.Check(isNil == (last == ""), what, e.Pos, e.St.Path(10), "%s: returns error %v", what, err)
				if last == "Gone" {
					ded := map[string]string{"BlockUntilSynchronizedBeforeSuiteData": "SynchronizedBeforeSuiteDisappearedOnProc1", "BlockUntilAggregatedNonprimaryProcsReport": "AggregatedReportUnavailableDueToNodeDisappearing"}[op]
					if ded != "" {
						c.Check(err.Mentions(ded), what+" error", e.Pos, e.St.Path(10), "%s: the error is %v, not the dedicated one", what, err)
					}
				}
				if last == "" && val != nil {
					c.Check(val.Mentions("reply"), what+" value", e.Pos, e.St.Path(10), "%s: the result is %v, not what was answered", what, val)
				}
			}
		}
	}
	if n < 30 {
		c.Undecided("only %d ways out of the blocking operations", n)
	}
}

// offNetwork: the loops of functions that ask nothing of the coordinator are followed exactly.
func offNetwork(phi *ssa.Phi) bool {
	for _, b := range phi.Parent().Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && f.Pkg != nil && (f.Pkg.Pkg.Path() == "net/rpc" || f.Pkg.Pkg.Path() == "net/http") && f.Name() != "Error" {
					return false
				}
			}
		}
	}
	return true
}
