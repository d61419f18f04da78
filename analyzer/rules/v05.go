package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{ID: "V05", Technique: "path-sensitive exploration of the exit decision over every verdict, focus, environment and configuration-error outcome",
		Note: "RunSpecs and PreviewSpecs are explored with the suite's run, tree building, configuration vetting and operating-system queries forking over every outcome; the generated reports' node body over every writer failing. What the enclosing go test does with t.Fail is the Go toolchain's.",
		Run:  v05})
}

func strVal(s string) *engine.Val {
	return engine.Const(constant.MakeString(s), types.Typ[types.String])
}

func v05(c *Ctx) {
	v05exit(c)
	v05reports(c)
}

func v05exit(c *Ctx) {
	focusCode := c.ConstVal("types", "GINKGO_FOCUS_EXIT_CODE")
	for _, root := range []string{"ginkgo.RunSpecs", "ginkgo.PreviewSpecs"} {
		fn := c.Fn(root)
		if fn == nil {
			continue
		}
		runs := root == "ginkgo.RunSpecs"
		if runs {
			c.Rule("exit-decision", "the enclosing test is failed iff the suite did not succeed; the focus exit code is used iff it succeeded with programmatic focus and no override")
		} else {
			c.Rule("errors-before-run", "an error found before the run leaves with a failing exit code before any spec runs")
		}
		pkg := fn.Pkg.Pkg.Name()
		for _, didRun := range []bool{false, true} {
			if didRun && !runs {
				continue
			}
			for _, parallel := range []int64{1, 2} {
				var x *engine.Interp
				before := func(k *engine.Call, o []engine.Outcome, what string) []engine.Outcome {
					o[len(o)-1].St.Auto["err"] = what
					return o
				}
				x = engine.New(c.P, engine.Cfg{Root: fn,
					Init: func(st *engine.State) {
						x.Store(st, pkg+"::suiteDidRun", engine.BoolVal(didRun))
						x.Store(st, pkg+"::suiteConfig.ParallelTotal", engine.IntVal(parallel, types.Typ[types.Int]))
						if didRun {
							st.Auto["err"] = "a second run"
						}
					},
					Track: func(l string) bool {
						return strings.HasPrefix(l, pkg+"::suiteDidRun") || strings.HasPrefix(l, pkg+"::suiteConfig.Parallel") || strings.HasPrefix(l, "alloc") || strings.Contains(l, "varargs") || strings.HasSuffix(l, "::client") || strings.HasSuffix(l, "::outputInterceptor")
					},
					Opaque: func(f *ssa.Function) bool {
						n := c.P.CalleeName(f)
						return strings.HasPrefix(n, "internal.New") || strings.HasPrefix(n, "reporters.") || strings.Contains(n, "registerReport") || strings.Contains(n, "DeprecationTracker") || strings.HasPrefix(n, "(*parallel_support") || strings.Contains(n, "nterceptor)")
					},
					OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
						switch {
						case k.Name == "(*internal.Suite).Run":
							c.Check(k.St.Auto["err"] == "", root+" stops at "+orNone(k.St.Auto["err"]), k.Pos(), k.St.Path(10), "the specs are run although there was %s", k.St.Auto["err"])
							var outs []engine.Outcome
							for _, p := range []bool{true, false} {
								for _, f := range []bool{true, false} {
									s := k.St.Clone()
									s.Auto["passed"], s.Auto["focus"] = fmt.Sprint(p), fmt.Sprint(f)
									s.Note("%s: the suite ends passed=%v focus=%v", c.P.RelPos(k.Pos()), p, f)
									outs = append(outs, engine.Outcome{St: s, Ret: engine.Tuple(engine.BoolVal(p), engine.BoolVal(f))})
								}
							}
							return outs, true
						case k.Name == "(*internal.Suite).BuildTree":
							o, _ := forkErr(k)
							return before(k, o, "a tree-building error"), true
						case strings.HasSuffix(k.Name, "global.PushClone"):
							o, _ := forkErr(k)
							return before(k, o, "a clone error"), true
						case k.Name == "types.VetConfig":
							s2 := k.St.Clone()
							k2 := *k
							k2.St = s2
							bad := k2.NewSlice([]*engine.Val{engine.Sym("nonnil:err:config", c.P.ErrorType())}, k.T)
							s2.Auto["err"] = "a configuration error"
							return []engine.Outcome{{St: k.St, Ret: k.NewSlice(nil, k.T)}, {St: s2, Ret: bad}}, true
						case k.Name == "os.Getwd", k.Name == "path/filepath.Abs":
							o, _ := forkErr(k)
							return before(k, o, "a working-directory error"), true
						case k.Name == "os.Getenv":
							name, _ := k.Args[0].Str()
							if name != "GINKGO_EDITOR_INTEGRATION" {
								return k.Return(k.Fresh()), true
							}
							s2 := k.St.Clone()
							s2.Auto["ci"] = "1"
							return []engine.Outcome{{St: k.St, Ret: strVal("")}, {St: s2, Ret: strVal("true")}}, true
						case k.Name == "os.LookupEnv":
							name, _ := k.Args[0].Str()
							if name == "GINKGO_EDITOR_INTEGRATION" {
								s2 := k.St.Clone()
								s2.Auto["ci"] = "1"
								return []engine.Outcome{{St: k.St, Ret: engine.Tuple(strVal(""), engine.BoolVal(false))}, {St: s2, Ret: engine.Tuple(strVal("true"), engine.BoolVal(true))}}, true
							}
						case k.Name == "strings.TrimSpace" && k.Args[0].IsConst():
							return k.Return(k.Args[0]), true
						case strings.HasSuffix(k.Name, "Client.Connect"):
							s2 := k.St.Clone()
							s2.Auto["err"] = "an unreachable coordinator"
							return []engine.Outcome{{St: k.St, Ret: engine.BoolVal(true)}, {St: s2, Ret: engine.BoolVal(false)}}, true
						case k.Recv != nil && (strings.HasSuffix(k.Name, ".Fail") || strings.HasSuffix(k.Name, ".FailNow")):
							k.St.Auto["failed"] = "1"
							return k.Return(engine.Nil(k.T)), true
						}
						return nil, false
					}})
				c.Run(x)
				for _, e := range x.Exits {
					a := e.St.Auto
					if e.Kind == engine.ExitStop {
						continue
					}
					code, isCode := int64(-1), false
					if e.Kind == engine.ExitOS && e.Ret != nil {
						code, isCode = e.Ret.Int()
					}
					if a["err"] != "" || a["passed"] == "" {
						why := a["err"]
						if why == "" {
							why = "an error before the run"
						}
						if e.Kind == engine.ExitPanic {
							continue
						}
						c.Check(e.Kind == engine.ExitOS && isCode && code != 0, root+" leaves failing after "+why, e.Pos, e.St.Path(10), "after %s, %s leaves by %s (code %d)", why, root, e.Kind, code)
						continue
					}
					if !runs {
						continue
					}
					id := fmt.Sprintf("passed=%s focus=%s override=%v", a["passed"], a["focus"], a["ci"] != "")
					failed := a["failed"] != ""
					if a["passed"] == "false" {
						ok := failed && e.Kind == engine.ExitReturn || e.Kind == engine.ExitOS && isCode && code != 0 && !(focusIs(focusCode, code))
						c.Check(ok, id, e.Pos, e.St.Path(10), "%s: test failed=%v, leaves by %s (code %d)", id, failed, e.Kind, code)
						if e.Kind == engine.ExitReturn && e.Ret != nil {
							b, known := e.Ret.Bool()
							if !known && strings.Contains(e.Ret.Key(), "onfig") {
								c.Fail(id+" result", e.Pos, e.St.Path(10), "%s: RunSpecs returns %v", id, e.Ret)
							} else if known {
								c.Check(!b, id+" result", e.Pos, e.St.Path(10), "%s: RunSpecs returns %v", id, b)
							}
						}
						continue
					}
					c.Check(!failed, id+" not failed", e.Pos, e.St.Path(10), "%s: the enclosing test is failed although the suite succeeded", id)
					if a["focus"] == "true" && a["ci"] == "" {
						c.Check(e.Kind == engine.ExitOS && isCode && focusIs(focusCode, code), id, e.Pos, e.St.Path(10), "%s: leaves by %s (code %d), not with the focus exit code", id, e.Kind, code)
						continue
					}
					b, known := false, false
					if e.Kind == engine.ExitReturn && e.Ret != nil {
						b, known = e.Ret.Bool()
					}
					if e.Kind == engine.ExitReturn && !known {
						c.Undecided("RunSpecs: result %v not known", e.Ret)
						continue
					}
					c.Check(e.Kind == engine.ExitReturn && b, id, e.Pos, e.St.Path(10), "%s: leaves by %s (code %d), result %v", id, e.Kind, code, b)
				}
			}
		}
		if runs {
			c.Floor(20)
		} else {
			c.Floor(4)
		}
	}
}

func focusIs(want *engine.Val, code int64) bool {
	n, ok := want.Int()
	return ok && n == code
}

// v05reports: every configured report is registered before the run, and its node writes it and fails if it cannot.
func v05reports(c *Ctx) {
	c.Rule("reports-registered", "when any report is configured, an after-suite report node writing it is pushed before the run")
	fn := c.Fn("ginkgo.RunSpecs")
	if fn == nil {
		return
	}
	pkg := fn.Pkg.Pkg.Name()
	kinds := []struct{ field, gen string }{{"JSONReport", "reporters.GenerateJSONReport"}, {"JUnitReport", "reporters.GenerateJUnitReport"}, {"TeamcityReport", "reporters.GenerateTeamcityReport"}}
	rt := c.ConstVal("types", "NodeTypeReportAfterSuite")
	checked := 0
	for m := 0; m < 16; m++ {
		mask, parallel := m&7, int64(1+m>>3)
		var on []string
		put := func(x *engine.Interp, st *engine.State, prefix string) {
			for i, k := range kinds {
				v := ""
				if mask&(1<<i) != 0 {
					v = "the " + k.field
				}
				x.Store(st, prefix+k.field, strVal(v))
			}
		}
		for i, k := range kinds {
			if mask&(1<<i) != 0 {
				on = append(on, k.field)
			}
		}
		id := strings.Join(on, "+")
		var bodies []*engine.Val
		var memAt *engine.State
		var x *engine.Interp
		x = engine.New(c.P, engine.Cfg{Root: fn,
			Init: func(st *engine.State) {
				put(x, st, pkg+"::reporterConfig.")
				x.Store(st, pkg+"::suiteDidRun", engine.BoolVal(false))
				x.Store(st, pkg+"::suiteConfig.ParallelTotal", engine.IntVal(parallel, types.Typ[types.Int]))
			},
			Opaque: func(f *ssa.Function) bool {
				n := c.P.CalleeName(f)
				return n != "internal.NewNode" && (strings.HasPrefix(n, "internal.New") || strings.HasPrefix(n, "reporters.") || strings.Contains(n, "DeprecationTracker") || strings.Contains(n, "nterceptor)"))
			},
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				switch {
				case strings.Contains(k.Name, "extractSuiteConfiguration"):
					return k.Return(k.Fresh()), true
				case k.Name == "(*internal.Suite).Run":
					c.Check((k.St.Auto["pushed"] != "") == (mask != 0), "report node for "+orNone(id), k.Pos(), k.St.Path(10), "with reports %q configured, a report node was pushed before the run: %v", id, k.St.Auto["pushed"] != "")
					k.St.Stop()
					return k.Return(k.Fresh()), true
				case k.Name == "internal.NewNode":
					ok := false
					for _, a := range k.Args {
						if n, isInt := a.Int(); isInt {
							if w, _ := rt.Int(); n == w && engine.TypeStr(a.T) == "types.NodeType" {
								ok = true
							}
						}
						if es, isList := k.X.Elems(k.St, a); isList && ok {
							for _, el := range es {
								if u := el.Unbox(); u != nil && u.Fn != nil {
									bodies = append(bodies, u)
									memAt = k.St.Clone()
								}
							}
						}
					}
					if ok {
						k.St.Auto["node"] = "1"
					}
					return k.Return(engine.Tuple(k.Fresh(), k.NewSlice(nil, types.NewSlice(c.P.ErrorType())))), true
				case k.Name == "(*internal.Suite).PushNode":
					if k.St.Auto["node"] != "" {
						k.St.Auto["pushed"] = "1"
					}
					return k.Return(engine.Nil(k.T)), true
				case k.Name == "(*internal.Suite).BuildTree", strings.HasSuffix(k.Name, "global.PushClone"):
					return k.Return(engine.Nil(k.T)), true
				case strings.HasSuffix(k.Name, "Client.Connect"):
					return k.Return(engine.BoolVal(true)), true
				case k.Name == "os.Getwd", k.Name == "path/filepath.Abs":
					o, _ := forkErr(k)
					return o[:1], true
				}
				return nil, false
			}})
		c.Run(x)
		if mask == 0 || len(bodies) == 0 {
			if mask != 0 {
				c.Undecided("body of the report node for %s not found", id)
			}
			continue
		}
		c.Rule("reports-written", "the report node writes every configured report, to its own file, and fails when one cannot be written")
		body := bodies[0]
		checked++
		var y *engine.Interp
		y = engine.New(c.P, engine.Cfg{Root: body.Fn, Bind: body.Args,
			Init: func(st *engine.State) {
				st.CopyMem(memAt)
			},
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				for _, kd := range kinds {
					if k.Name == kd.gen {
						k.St.Auto[kd.field] += "1"
						dst, _ := k.Args[len(k.Args)-1].Str()
						c.Check(dst == "the "+kd.field, kd.gen+" destination", k.Pos(), k.St.Path(8), "the %s is written to %v", kd.field, k.Args[len(k.Args)-1])
						o, ok := forkErr(k)
						if ok {
							o[1].St.Auto["bad"] = kd.field
						}
						return o, ok
					}
				}
				if k.Name == "ginkgo.Fail" {
					k.St.Auto["fail"] = "1"
					// Fail panics
					return []engine.Outcome{{St: k.St, Kind: engine.ExitPanic}}, true
				}
				return nil, false
			}})
		c.Run(y)
		for _, e := range y.Exits {
			a := e.St.Auto
			if a["bad"] != "" {
				c.Check(a["fail"] != "" || e.Kind == engine.ExitPanic, "failure to write "+a["bad"]+" surfaced", e.Pos, e.St.Path(8), "the %s could not be written and the node does not fail", a["bad"])
				continue
			}
			c.Check(a["fail"] == "", "written reports pass "+id, e.Pos, e.St.Path(8), "the report node fails although every report was written")
			for i, kd := range kinds {
				want := ""
				if mask&(1<<i) != 0 {
					want = "1"
				}
				c.Check(a[kd.field] == want, fmt.Sprintf("%s with %s", kd.gen, id), e.Pos, e.St.Path(8), "with %s configured the node writes the %s %d times", id, kd.field, len(a[kd.field]))
			}
		}
		c.Rule("reports-registered", "")
	}
	c.Floor(8)
}
