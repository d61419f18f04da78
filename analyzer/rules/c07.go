package rules

import (
	"fmt"
	"go/types"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{ID: "C07", Technique: "abstract interpretation of the suite-node runner with node bodies identified by the user function they call, over every process, outcome and coordinator answer, against a trace specification",
		Note: "Every path of the runner for process one alone, process one of two and process two, with each part ending in every state and every coordinator call succeeding or failing. The bytes are followed as a symbol from the first part's result to the second part's argument and the announcement. What the coordinator does with the announcement is C05 and C06.",
		Run:  c07})
}

func c07(c *Ctx) {
	c.Rule("synchronized-parts", "the first-process part runs on process one only, before the second part; the second runs once everywhere exactly when the first passed and could be announced, with its bytes; otherwise the node ends like process one did; after-suite first-process parts and cleanups of process one run only after waiting for the others succeeded")
	c07run(c)
	c.Floor(150)
	c.Rule("before-reporting-announced", "with before-suite reporting nodes, process one announces the outcome once, after all of them ran, as passed exactly when the suite still succeeds; the others wait for it and run none")
	c07report(c)
	c.Floor(10)
}

// bodyOf names the user function a node value would run: the field of the node it came from, with its arguments.
func bodyOf(c *Ctx, k *engine.Call, node *engine.Val) (what string, args []*engine.Val, ret *engine.Val, ok bool) {
	body := k.X.FieldOf(k.St, node, "Body")
	if body == nil {
		return "", nil, nil, false
	}
	body = body.Unbox()
	if body.Fn == nil {
		for _, f := range []string{"SynchronizedBeforeSuiteProc1Body", "SynchronizedBeforeSuiteAllProcsBody", "SynchronizedAfterSuiteProc1Body", "SynchronizedAfterSuiteAllProcsBody"} {
			if strings.HasSuffix(body.Key(), "."+f) || body.S == f {
				return f, nil, nil, true
			}
		}
		return "Body", nil, nil, strings.HasSuffix(body.Key(), ".Body")
	}
	// a closure: interpret it and see what it calls
	n := 0
	y := engine.New(c.P, engine.Cfg{Root: body.Fn, Bind: body.Args, Linear: true, Budget: 4000,
		Init: func(s *engine.State) { s.CopyMem(k.St) },
		OnCall: func(b *engine.Call) ([]engine.Outcome, bool) {
			if b.Fn != nil || b.FnVal == nil || strings.HasPrefix(b.Name, "builtin") {
				return nil, false
			}
			for _, f := range []string{"SynchronizedBeforeSuiteProc1Body", "SynchronizedBeforeSuiteAllProcsBody", "SynchronizedAfterSuiteProc1Body", "SynchronizedAfterSuiteAllProcsBody"} {
				if strings.HasSuffix(b.FnVal.Key(), f) {
					n++
					what, args = f, b.Args
					if b.T != nil {
						if tup, isT := b.T.(*types.Tuple); !isT || tup.Len() > 0 {
							ret = engine.Sym("bytes-of-"+f, b.T)
							return b.Return(ret), true
						}
					}
					return b.Return(engine.Nil(b.T)), true
				}
			}
			return nil, false
		}})
	y.ContinueTokens(k.X)
	y.Run()
	if n != 1 || len(y.Undec) > 0 {
		return "", nil, nil, false
	}
	done := false
	for _, e := range y.Exits {
		if e.Kind == engine.ExitReturn {
			k.St.CopyMem(e.St)
			done = true
		}
	}
	return what, args, ret, done
}

type c07env struct {
	kind        string
	proc, total int
}

func (e c07env) String() string {
	return fmt.Sprintf("%s on process %d of %d", e.kind, e.proc, e.total)
}

func c07run(c *Ctx) {
	fn := c.Fn("(*internal.Suite).runSuiteNode")
	stT := c.Type("types", "SpecState")
	if fn == nil || stT == nil {
		return
	}
	nodeP := -1
	for i, p := range fn.Params {
		if engine.TypeStr(p.Type()) == "internal.Node" {
			nodeP = i
		}
	}
	if nodeP < 0 {
		c.Undecided("running a suite node takes no node")
		return
	}
	nodeT := fn.Params[nodeP].Type()
	pre := suitePrefix(fn)
	state := pre + ".currentSpecReport.State"
	intT := types.Typ[types.Int]
	ends := reportStates(c, "SpecStatePending")
	val := map[string]int64{}
	for _, s := range ends {
		val[s.Name] = s.Val
	}
	bodies := []string{"SynchronizedBeforeSuiteProc1Body", "SynchronizedBeforeSuiteAllProcsBody", "SynchronizedAfterSuiteProc1Body", "SynchronizedAfterSuiteAllProcsBody"}
	for _, kind := range []string{"SynchronizedBeforeSuite", "SynchronizedAfterSuite", "CleanupAfterSuite"} {
		for _, pt := range [][2]int{{1, 1}, {1, 2}, {2, 2}} {
			env := c07env{kind, pt[0], pt[1]}
			before := kind == "SynchronizedBeforeSuite"
			nf := map[string]*engine.Val{"NodeType": c.ConstVal("types", "NodeType"+kind), "ID": engine.IntVal(7, types.Typ[types.Uint])}
			for _, b := range bodies {
				if T := fieldOfType(nodeT, b); T != nil {
					nf[b] = engine.Sym("nonnil:user."+b, T)
				}
				if T := fieldOfType(nodeT, b+"HasContext"); T != nil {
					nf[b+"HasContext"] = engine.Sym("user."+b+"HasContext", T)
				}
			}
			if T := fieldOfType(nodeT, "Body"); T != nil {
				nf["Body"] = engine.Sym("nonnil:user.Body", T)
			}
			unknown := false
			at := func(k *engine.Call) string { return c.P.RelPos(k.Pos()) }
			// fail of a coordinator call
			broken := func(k *engine.Call, what string, ret ...*engine.Val) []engine.Outcome {
				s := k.St.Clone()
				s.Auto["broken"] = what
				s.Note("%s: %s fails", at(k), what)
				ret = append(ret, engine.Sym("nonnil:err:"+what, c.P.ErrorType()))
				if len(ret) == 1 {
					return []engine.Outcome{{St: s, Ret: ret[0]}}
				}
				return []engine.Outcome{{St: s, Ret: engine.Tuple(ret...)}}
			}
			var x *engine.Interp
			x = engine.New(c.P, engine.Cfg{Root: fn, Linear: true, Budget: 400000,
				Args: withArg(fn, nodeP, engine.Agg(engine.ParamSym(fn.Params[nodeP]), nf, nodeT)),
				Init: func(st *engine.State) {
					x.Store(st, pre+".config.ParallelProcess", engine.IntVal(int64(env.proc), intT))
					x.Store(st, pre+".config.ParallelTotal", engine.IntVal(int64(env.total), intT))
					x.Store(st, pre+".config.DryRun", engine.BoolVal(false))
					x.Store(st, state, engine.IntVal(0, stT))
				},
				OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
					au := k.St.Auto
					p := func() []string { return k.St.Path(14) }
					switch {
					case k.Name == "(*internal.Suite).runNode":
						var nd *engine.Val
						for _, a := range k.Args {
							if engine.TypeStr(a.T) == "internal.Node" {
								nd = a
							}
						}
						what, args, ret, ok := "", []*engine.Val(nil), (*engine.Val)(nil), false
						if nd != nil {
							what, args, ret, ok = bodyOf(c, k, nd)
						}
						if !ok {
							c.Undecided("%s: which part of the node runs is not known", at(k))
							unknown = true
							k.St.Stop()
							return nil, false
						}
						if hc := k.X.FieldOf(k.St, nd, "HasContext"); hc != nil && what != "Body" {
							if strings.HasPrefix(hc.Key(), "user.") {
								c.Check(hc.Key() == "user."+what+"HasContext", "context of "+what, k.Pos(), p(), "%s: %s runs with the context setting of another part (%s)", env, what, hc.Key())
							} else {
								c.Check(strings.Contains(hc.Key(), what), "context of "+what, k.Pos(), p(), "%s: %s runs with context setting %s", env, what, hc.Key())
							}
						}
						first := strings.Contains(what, "Proc1Body")
						c.Check(au["ran:"+what] == "", "once "+what, k.Pos(), p(), "%s: %s runs twice", env, what)
						if first {
							c.Check(env.proc == 1, what+" on process one", k.Pos(), p(), "%s: the first-process part runs", env)
						}
						switch {
						case before && first:
							c.Check(au["ran:SynchronizedBeforeSuiteAllProcsBody"] == "", "first part first", k.Pos(), p(), "%s: the first-process part runs after the other one", env)
						case before:
							want := au["ran:SynchronizedBeforeSuiteProc1Body"]
							how := "the first-process part ended " + orNone(want)
							if env.proc != 1 {
								want = au["proc1"]
								how = "process one announced " + orNone(want)
							}
							if env.proc == 1 && env.total > 1 {
								c.Check(au["posted"] != "", "announced before second part", k.Pos(), p(), "%s: the second part runs before the outcome of the first was announced", env)
							}
							c.Check(want == "SpecStatePassed" && au["broken"] == "", "second part after passing first", k.Pos(), p(), "%s: the second part runs although %s %s", env, how, au["broken"])
							got := "nothing"
							if len(args) > 0 {
								got = args[len(args)-1].Key()
							}
							wb := "bytes-of-SynchronizedBeforeSuiteProc1Body"
							if env.proc != 1 {
								wb = "bytes-of-process-one"
							}
							c.Check(got == wb, "bytes reach the second part", k.Pos(), p(), "%s: the second part receives %s instead of the first part's bytes", env, got)
						case kind == "SynchronizedAfterSuite" && first:
							c.Check(au["ran:SynchronizedAfterSuiteAllProcsBody"] != "", "own part first", k.Pos(), p(), "%s: the first-process part runs before the other one", env)
							if env.total > 1 {
								c.Check(au["waited"] != "", "first-process part after waiting", k.Pos(), p(), "%s: the first-process part runs although the other processes may still be running", env)
							}
						case kind == "CleanupAfterSuite" && env.proc == 1 && env.total > 1:
							c.Check(au["waited"] != "", "cleanup after waiting", k.Pos(), p(), "%s: the cleanup runs although the other processes may still be running", env)
						}
						_ = ret
						var outs []engine.Outcome
						for _, s := range ends {
							if s.Name == "SpecStateInvalid" {
								continue
							}
							s2 := k.St.Clone()
							s2.Auto["ran:"+what] = s.Name
							s2.Note("%s: %s ends %s", at(k), what, s.Name)
							tup := k.T.(*types.Tuple)
							outs = append(outs, engine.Outcome{St: s2, Ret: engine.Tuple(engine.IntVal(s.Val, stT), engine.Sym("failure-of-"+what, tup.At(1).Type()))})
						}
						return outs, true
					case strings.HasSuffix(k.Name, "Client.PostSynchronizedBeforeSuiteCompleted"):
						c.Check(au["posted"] == "", "announced once", k.Pos(), p(), "%s: the outcome is announced twice", env)
						c.Check(before && env.proc == 1, "announced by process one", k.Pos(), p(), "%s: announces an outcome of before-suite", env)
						end := au["ran:SynchronizedBeforeSuiteProc1Body"]
						n, ok := k.Args[len(k.Args)-2].Int()
						if !ok {
							c.Undecided("%s: the outcome announced is not known", at(k))
						} else {
							c.Check(end != "" && n == val[end], "announced outcome "+end, k.Pos(), p(), "%s: the first part ended %s but state %d is announced", env, orNone(end), n)
						}
						if end == "SpecStatePassed" {
							d := k.Args[len(k.Args)-1].Key()
							c.Check(d == "bytes-of-SynchronizedBeforeSuiteProc1Body", "announced bytes", k.Pos(), p(), "%s: %s is announced instead of the first part's bytes", env, d)
						}
						au["posted"] = "1"
						o := broken(k, "announcing the outcome")
						return append([]engine.Outcome{{St: k.St, Ret: engine.Nil(k.T)}}, o...), true
					case strings.HasSuffix(k.Name, "Client.BlockUntilSynchronizedBeforeSuiteData"):
						c.Check(before && env.proc != 1, "waits for the first process", k.Pos(), p(), "%s: waits for process one's data", env)
						c.Check(au["asked"] == "", "waits once", k.Pos(), p(), "%s: waits twice for process one's data", env)
						au["asked"] = "1"
						var outs []engine.Outcome
						tup := k.T.(*types.Tuple)
						for _, s := range ends {
							if s.Name == "SpecStateInvalid" {
								continue
							}
							s2 := k.St.Clone()
							s2.Auto["proc1"] = s.Name
							s2.Note("%s: process one announced %s", at(k), s.Name)
							outs = append(outs, engine.Outcome{St: s2, Ret: engine.Tuple(engine.IntVal(s.Val, stT), engine.Sym("bytes-of-process-one", tup.At(1).Type()), engine.Nil(tup.At(2).Type()))})
						}
						return append(outs, broken(k, "waiting for process one", engine.IntVal(0, stT), engine.Nil(tup.At(1).Type()))...), true
					case strings.HasSuffix(k.Name, "Client.BlockUntilNonprimaryProcsHaveFinished"):
						c.Check(env.proc == 1 && env.total > 1 && !before, "waits for the others", k.Pos(), p(), "%s: waits for the other processes", env)
						o := broken(k, "waiting for the other processes")
						au["waited"] = "1"
						return append([]engine.Outcome{{St: k.St, Ret: engine.Nil(k.T)}}, o...), true
					}
					return nil, false
				}})
			c.Run(x)
			if unknown || len(x.Undec) > 0 {
				continue
			}
			name := func(n int64) string {
				for _, s := range ends {
					if s.Val == n {
						return s.Name
					}
				}
				return fmt.Sprint(n)
			}
			for _, e := range x.Exits {
				if e.Kind != engine.ExitReturn {
					continue
				}
				au := e.St.Auto
				p := e.St.Path(16)
				n, ok := x.Load(e.St, state, stT).Int()
				if !ok {
					c.Undecided("%s: the outcome recorded is not known", env)
					continue
				}
				got := name(n)
				p1, all := au["ran:SynchronizedBeforeSuiteProc1Body"], au["ran:SynchronizedBeforeSuiteAllProcsBody"]
				switch kind {
				case "SynchronizedBeforeSuite":
					firstEnd := au["proc1"]
					if env.proc == 1 {
						firstEnd = p1
						c.Check(p1 != "", "first part runs", e.Pos, p, "%s: the first-process part never runs", env)
						if env.total > 1 {
							c.Check(au["posted"] != "", "announced on every path", e.Pos, p, "%s: the first part ended %s and the waiting processes are never told", env, p1)
						}
					} else {
						c.Check(au["asked"] != "", "waits for process one", e.Pos, p, "%s: process one is not waited for", env)
					}
					if au["broken"] != "" {
						c.Check(failStates[got] && all == "", "recorded after failing coordination", e.Pos, p, "%s: %s failed but the node ends %s (second part: %s)", env, au["broken"], got, orNone(all))
						break
					}
					if firstEnd == "SpecStatePassed" {
						c.Check(all != "", "second part runs after passing first", e.Pos, p, "%s: process one passed but the second part never runs", env)
						c.Check(got == all, "recorded end of second part", e.Pos, p, "%s: the second part ended %s but the node ends %s", env, orNone(all), got)
						break
					}
					c.Check(all == "", "second part only after passing first", e.Pos, p, "%s: process one ended %s but the second part runs", env, firstEnd)
					same := got == firstEnd || env.proc != 1 && got == "SpecStateFailed" && (firstEnd == "SpecStatePanicked" || firstEnd == "SpecStateTimedout")
					c.Check(same, "recorded end after first "+firstEnd, e.Pos, p, "%s: process one ended %s but the node ends %s", env, firstEnd, got)
				case "SynchronizedAfterSuite":
					p1, all = au["ran:SynchronizedAfterSuiteProc1Body"], au["ran:SynchronizedAfterSuiteAllProcsBody"]
					c.Check(all != "", "own part runs", e.Pos, p, "%s: the process's own part never runs", env)
					if env.proc == 1 && au["broken"] == "" {
						c.Check(p1 != "", "first-process part runs", e.Pos, p, "%s: the first-process part never runs (own part ended %s)", env, all)
					}
					anyFail := failStates[all] || failStates[p1] || au["broken"] != ""
					c.Check(failStates[got] == anyFail, "recorded end "+all+"/"+orNone(p1), e.Pos, p, "%s: own part ended %s, first-process part %s, coordination %s; the node ends %s", env, all, orNone(p1), orNone(au["broken"]), got)
				default:
					b := au["ran:Body"]
					if au["broken"] != "" {
						c.Check(b == "" && failStates[got], "cleanup after failing wait", e.Pos, p, "%s: %s failed; cleanup ran: %s, recorded %s", env, au["broken"], orNone(b), got)
					} else {
						c.Check(b != "" && got == b, "cleanup runs", e.Pos, p, "%s: the cleanup ended %s, recorded is %s", env, orNone(b), got)
					}
				}
			}
		}
	}
}

// c07report: the outcome of before-suite reporting reaches the other processes.
func c07report(c *Ctx) {
	fn := c.Fn("(*internal.Suite).runReportSuiteNodesIfNeedBe")
	stT := c.Type("types", "SpecState")
	if fn == nil || stT == nil {
		return
	}
	kindP := -1
	for i, p := range fn.Params {
		if engine.TypeStr(p.Type()) == "types.NodeType" {
			kindP = i
		}
	}
	if kindP < 0 {
		c.Undecided("reporting suite nodes are not selected by kind")
		return
	}
	pre := suitePrefix(fn)
	succ := pre + ".report.SuiteSucceeded"
	nodesT := fieldOfType(fn.Params[0].Type().Underlying().(*types.Pointer).Elem(), "suiteNodes")
	if nodesT == nil {
		c.Undecided("a suite has no suite nodes")
		return
	}
	passed, failed := c.ConstVal("types", "SpecStatePassed"), c.ConstVal("types", "SpecStateFailed")
	for _, pt := range [][2]int{{1, 1}, {1, 2}, {2, 2}} {
		for n := 0; n <= 2; n++ {
			for _, entry := range []bool{true, false} {
				env := fmt.Sprintf("process %d of %d with %d before-suite reporting nodes, entered with success=%v", pt[0], pt[1], n, entry)
				var x *engine.Interp
				x = engine.New(c.P, engine.Cfg{Root: fn, Args: withArg(fn, kindP, c.ConstVal("types", "NodeTypeReportBeforeSuite")), Linear: true, Budget: 100000,
					Concrete: func(*ssa.Phi) bool { return true },
					Init: func(st *engine.State) {
						x.Store(st, succ, engine.BoolVal(entry))
						x.Store(st, pre+".config.ParallelProcess", engine.IntVal(int64(pt[0]), types.Typ[types.Int]))
						x.Store(st, pre+".config.ParallelTotal", engine.IntVal(int64(pt[1]), types.Typ[types.Int]))
						x.Store(st, pre+".suiteNodes", engine.SliceAt("*suitenodes", n+1, nodesT))
						for i := 0; i <= n; i++ {
							kn := "NodeTypeReportBeforeSuite"
							if i == n {
								kn = "NodeTypeReportAfterSuite"
							}
							x.Store(st, fmt.Sprintf("*suitenodes[%d].NodeType", i), c.ConstVal("types", kn))
							x.Store(st, fmt.Sprintf("*suitenodes[%d].ID", i), engine.IntVal(int64(i+1), types.Typ[types.Uint]))
						}
					},
					OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
						au := k.St.Auto
						p := k.St.Path(12)
						switch {
						case k.Name == "(*internal.Suite).runReportSuiteNode":
							c.Check(pt[0] == 1, "reporting on process one", k.Pos(), p, "%s: a node runs", env)
							c.Check(au["posted"] == "", "announced last", k.Pos(), p, "%s: a node runs after the outcome was announced", env)
							au["runs"] += "r"
							return k.Return(engine.Nil(k.T)), true
						case k.Name == "(*internal.Suite).processCurrentSpecReport":
							s2 := k.St.Clone()
							x.Store(s2, succ, engine.BoolVal(false))
							s2.Note("%s: the reporting node fails the suite", c.P.RelPos(k.Pos()))
							return []engine.Outcome{{St: k.St, Ret: engine.Nil(k.T)}, {St: s2, Ret: engine.Nil(k.T)}}, true
						case strings.HasSuffix(k.Name, "Client.PostReportBeforeSuiteCompleted"):
							b, ok1 := x.Load(k.St, succ, types.Typ[types.Bool]).Bool()
							v, ok2 := k.Args[len(k.Args)-1].Int()
							pv, _ := passed.Int()
							fv, _ := failed.Int()
							if !ok1 || !ok2 {
								c.Undecided("%s: the announced outcome is not known", c.P.RelPos(k.Pos()))
							} else {
								c.Check(v == pv && b || v == fv && !b, "announced outcome", k.Pos(), p, "%s: state %d is announced while the suite's success is %v", env, v, b)
							}
							c.Check(au["posted"] == "", "announced once", k.Pos(), p, "%s: announced twice", env)
							au["posted"] = "1"
							return k.Return(k.Fresh()), true
						case strings.HasSuffix(k.Name, "Client.BlockUntilReportBeforeSuiteCompleted"):
							c.Check(pt[0] != 1, "process one waits for nobody", k.Pos(), p, "%s: waits for the outcome", env)
							au["asked"] = "1"
							tup, ok := k.T.(*types.Tuple)
							if !ok || tup.Len() != 2 {
								return nil, false
							}
							var outs []engine.Outcome
							for _, v := range []*engine.Val{passed, failed} {
								s := k.St.Clone()
								if v == failed {
									s.Auto["told"] = "failed"
								}
								outs = append(outs, engine.Outcome{St: s, Ret: engine.Tuple(v, engine.Nil(tup.At(1).Type()))})
							}
							s := k.St.Clone()
							s.Auto["told"] = "disappeared"
							return append(outs, engine.Outcome{St: s, Ret: engine.Tuple(engine.IntVal(0, stT), engine.Sym("nonnil:err:gone", tup.At(1).Type()))}), true
						}
						return nil, false
					}})
				c.Run(x)
				for _, e := range x.Exits {
					if e.Kind != engine.ExitReturn {
						continue
					}
					au := e.St.Auto
					p := e.St.Path(12)
					if pt[0] == 1 {
						c.Check(len(au["runs"]) == n, "every reporting node runs", e.Pos, p, "%s: %d run", env, len(au["runs"]))
						c.Check((au["posted"] != "") == (pt[1] > 1 && n > 0), "announced exactly when others wait", e.Pos, p, "%s: announced=%v", env, au["posted"] != "")
						continue
					}
					c.Check((au["asked"] != "") == (n > 0), "waits exactly when process one announces", e.Pos, p, "%s: waited=%v", env, au["asked"] != "")
					if b, ok := x.Load(e.St, succ, types.Typ[types.Bool]).Bool(); ok {
						c.Check(b == (entry && au["told"] == ""), "outcome taken over", e.Pos, p, "%s: process one's outcome was %s, success is now %v", env, orNone(au["told"]), b)
					} else {
						c.Undecided("%s: success not known at an exit", env)
					}
				}
			}
		}
	}
}
