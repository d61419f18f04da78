package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{ID: "K08", Technique: "abstract interpretation of the runners, the compiler and the run and watch commands on every path, each started process, compiled binary and per-process file followed by its identity from where it is made to where it is awaited, handed on or removed",
		Note: "Two and three parallel processes, up to three suites and two rounds stand for any number; a path on which the command itself is aborted (an error reported through command.Abort) is not asked to clean up. A source that cannot be read or parsed is left in place by design.",
		Run:  k08})
}

func k08(c *Ctx) {
	c.Rule("single-process", "the process of a suite that is run in one process is awaited exactly once, and only if it was started")
	k08single(c)
	c.Floor(4)
	c.Rule("parallel-processes", "every process started for a parallel run is awaited exactly once by its own goroutine which yields one result, as many results are taken as processes were started, and the coordinator is closed after the last of them")
	k08parallel(c)
	c.Floor(20)
	c.Rule("per-process-files", "what the processes of a parallel run write apart is what is combined, every file that was combined is removed, and it is removed before the combination is written")
	k08merge(c)
	c.Floor(10)
	c.Rule("compiler", "every suite that is to be compiled is handed to a compiler once and handed back once, in order, and a compiled suite names the file that was compiled")
	k08compiler(c)
	c.Floor(10)
	c.Rule("temporary-binaries", "every binary that may have been compiled is removed before the command leaves, unless it is to be kept, and binaries that were given are not")
	k08binaries(c)
	c.Floor(6)
}

func k08cmd(k *engine.Call) (string, bool) {
	if len(k.Args) == 0 || k.Args[0] == nil {
		return "", false
	}
	key := k.Args[0].Key()
	i := strings.Index(key, "cmd~")
	if i < 0 {
		return "", false
	}
	key = key[i:]
	return key[:strings.Index(key, ";")+1], true
}

// k08start models making and starting a command, and waiting for it.
func k08start(c *Ctx, k *engine.Call, where string) ([]engine.Outcome, bool) {
	p := k.St.Path(8)
	switch {
	case k.Name == "os/exec.Command" || k.Name == "os/exec.CommandContext":
		k.St.Auto["made"] += "1"
		return k.Return(engine.Sym(fmt.Sprintf("nonnil:cmd~%d;", len(k.St.Auto["made"])), k.T)), true
	case strings.HasSuffix(k.Name, "exec.Cmd).Start"):
		id, ok := k08cmd(k)
		if !ok {
			c.Undecided("%s: which process is started is not known", where)
			return nil, false
		}
		c.Check(!strings.Contains(k.St.Auto["started"], id), where+" starts once", k.Pos(), p, "a process is started twice")
		o, ok := forkErr(k)
		if ok {
			o[0].St.Auto["started"] += id
			o[1].St.Auto["err"] = "starting a process"
		}
		return o, ok
	case strings.HasSuffix(k.Name, "exec.Cmd).Run"), strings.HasSuffix(k.Name, "exec.Cmd).CombinedOutput"), strings.HasSuffix(k.Name, "exec.Cmd).Output"):
		return nil, false
	case strings.HasSuffix(k.Name, "exec.Cmd).Wait"):
		id, ok := k08cmd(k)
		if !ok {
			c.Undecided("%s: which process is awaited is not known", where)
			return nil, false
		}
		c.Check(strings.Contains(k.St.Auto["started"], id), where+" awaits a started process", k.Pos(), p, "a process is awaited that was not started")
		c.Check(!strings.Contains(k.St.Auto["awaited"], id), where+" awaits once", k.Pos(), p, "a process is awaited twice")
		k.St.Auto["awaited"] += id
		o, ok := forkErr(k)
		return o, ok
	case strings.HasSuffix(k.Name, "exec.Cmd).Process.Release"), strings.HasSuffix(k.Name, "os.Process).Release"):
		c.Fail(where+" lets go of the process", k.Pos(), p, "a process is let go of instead of awaited")
	}
	return nil, false
}

func k08single(c *Ctx) {
	for _, root := range []string{"ginkgo/internal.runSerial", "ginkgo/internal.runGoTest"} {
		fn := c.Fn(root)
		if fn == nil {
			continue
		}
		seen := false
		x := engine.New(c.P, engine.Cfg{Root: fn,
			TrackFact: func(v *engine.Val) bool { return false },
			Track:     func(l string) bool { return strings.HasPrefix(l, "alloc") },
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				if o, ok := k08start(c, k, root); ok {
					return o, ok
				}
				if hasAny(k.Name, "WaitStatus).", "os.ProcessState).") {
					seen = true
					c.Check(k.St.Auto["awaited"] != "", root+" outcome after waiting", k.Pos(), k.St.Path(8), "how the process ended is looked at before it was awaited")
				}
				return v06common(c, k, false)
			}})
		c.Run(x)
		for _, e := range x.Exits {
			if e.Kind != engine.ExitReturn {
				continue
			}
			c.Check(e.St.Auto["started"] == e.St.Auto["awaited"], root+" awaits its process", e.Pos, e.St.Path(8), "started %s, awaited %s", orNone(e.St.Auto["started"]), orNone(e.St.Auto["awaited"]))
		}
		if !seen {
			c.Undecided("%s: how the process ended is never looked at", root)
		}
	}
}

var k08profiles = []string{"CoverProfile", "BlockProfile", "CPUProfile", "MemProfile", "MutexProfile"}

func k08parallel(c *Ctx) {
	fn := c.Fn("ginkgo/internal.runParallel")
	if fn == nil {
		return
	}
	for _, sc := range []struct {
		n     int
		files bool
		code  int64
	}{{2, false, 0}, {2, true, 0}, {2, false, 1}, {3, false, 0}, {3, true, 0}, {3, false, 1}} {
		{
			n, files, code := sc.n, sc.files, sc.code
			if files && n == 3 && c.Tier != "thorough" {
				continue
			}
			where := fmt.Sprintf("%d processes", n)
			args, at := entrySuite(c, fn)
			if at < 0 {
				c.Undecided("a parallel run takes no suite")
				return
			}
			args[at] = engine.Agg(args[at], map[string]*engine.Val{"HasProgrammaticFocus": engine.BoolVal(false), "State": c.ConstVal("ginkgo/internal", "TestSuiteStateFailed")}, fn.Params[at].Type())
			for i, p := range fn.Params {
				switch engine.TypeStr(p.Type()) {
				case "types.GoFlagsConfig":
					off := map[string]*engine.Val{"Cover": engine.BoolVal(files)}
					for _, f := range k08profiles {
						off[f] = strVal("")
						if files {
							off[f] = strVal("name-" + f)
						}
					}
					args[i] = engine.Agg(engine.ParamSym(p), off, p.Type())
				case "types.ReporterConfig":
					args[i] = engine.Agg(engine.ParamSym(p), map[string]*engine.Val{"JSONReport": strVal(""), "JUnitReport": strVal(""), "TeamcityReport": strVal("")}, p.Type())
				}
			}
			type waiter struct {
				v  *engine.Val
				st *engine.State
			}
			waiters := map[string]waiter{}
			var sent *engine.Val
			var resT types.Type
			var x *engine.Interp
			x = engine.New(c.P, engine.Cfg{Root: fn, Args: args, Linear: true, Budget: 60000,
				Concrete:  func(*ssa.Phi) bool { return true },
				TrackFact: func(v *engine.Val) bool { return false },
				OnGo: func(k *engine.Call) {
					f := k.Fn
					if f == nil && k.FnVal != nil {
						f = k.FnVal.Fn
					}
					if f == nil || !o01reaches(c, f, "(*os/exec.Cmd).Wait") {
						return
					}
					k.St.Auto["waiters"] += "1"
					if k.FnVal == nil {
						c.Undecided("the goroutine that waits for a process is not a closure")
						return
					}
					id := len(k.St.Auto["waiters"])
					if k.St.Auto["err"] != "" {
						return
					}
					w, ok := waiters[fmt.Sprint(id)]
					if !ok {
						w = waiter{k.FnVal, k.St.Clone()}
						waiters[fmt.Sprint(id)] = w
					}
					// the goroutine as it runs from here
					sends := 0
					var y *engine.Interp
					y = engine.New(c.P, engine.Cfg{Root: f, Bind: k.FnVal.Args, Linear: true, Budget: 2000,
						Init: func(st *engine.State) {
							st.CopyMem(k.St)
							st.Auto["started"] = k.St.Auto["started"]
						},
						OnSend: func(x *engine.Interp, st *engine.State, in ssa.Instruction, ch, v *engine.Val) {
							sends++
							st.Auto["sent"] += "1"
							c.Check(st.Auto["awaited"] != "", where+" result after waiting", in.Pos(), st.Path(6), "a result is yielded before the process was awaited")
							if sent == nil {
								sent, resT = v, ch.T
							}
						},
						OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
							if strings.HasSuffix(k.Name, "exec.Cmd).Wait") {
								return k08start(c, k, where)
							}
							return procModel(c, k, code)
						}})
					y.ContinueTokens(x)
					c.Run(y)
					x.ContinueTokens(y)
					mine := ""
					for _, e := range y.Exits {
						if e.Kind == engine.ExitStop {
							continue
						}
						c.Check(e.Kind == engine.ExitReturn && e.St.Auto["sent"] == "1", where+" one result each", e.Pos, e.St.Path(6), "the goroutine of a process yields %d results", len(e.St.Auto["sent"]))
						c.Check(strings.Count(e.St.Auto["awaited"], ";") == 1, where+" one process each", e.Pos, e.St.Path(6), "the goroutine of a process awaits %s", orNone(e.St.Auto["awaited"]))
						mine = e.St.Auto["awaited"]
					}
					if mine != "" {
						c.Check(!strings.Contains(k.St.Auto["owned"], mine), where+" awaited by one goroutine", k.Pos(), k.St.Path(8), "two goroutines await the same process")
						k.St.Auto["owned"] += mine
					}
				},
				RecvVal: func(x *engine.Interp, st *engine.State, in ssa.Instruction, ch *engine.Val) *engine.Val {
					if sent == nil || resT == nil || engine.TypeStr(ch.T) != engine.TypeStr(resT) && engine.TypeStr(ch.T.Underlying().(*types.Chan).Elem()) != engine.TypeStr(sent.T) {
						return nil
					}
					st.Auto["taken"] += "1"
					if len(st.Auto["taken"]) > len(st.Auto["waiters"]) {
						c.Fail(where+" takes what comes", in.Pos(), st.Path(8), "a result is awaited although only %d processes yield one: the run hangs", len(st.Auto["waiters"]))
						st.Stop()
					}
					return sent
				},
				OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
					p := k.St.Path(8)
					if k.Instr != nil && k.Instr.Parent() != nil && hasAny(k.Name, "exec.Cmd).Start", "os/exec.Command") {
						o, ok := k08start(c, k, where)
						if ok && len(o) == 2 {
							o = o[:1] // failing to start aborts the command
						}
						return o, ok
					}
					switch {
					case strings.HasSuffix(k.Name, "CLIConfig).ComputedProcs"):
						return k.Return(engine.IntVal(int64(n), k.T)), true
					case strings.HasSuffix(k.Name, "parallel_support.NewServer"):
						tup := k.T.(*types.Tuple)
						k.St.Auto["server"] = "made"
						return k.Return(engine.Tuple(engine.Sym("nonnil:server~", tup.At(0).Type()), engine.Nil(tup.At(1).Type()))), true
					case strings.HasSuffix(k.Name, "Server.Start") && strings.HasPrefix(k.Name, "invoke "):
						k.St.Auto["server"] = "started"
						return k.Return(engine.Nil(k.T)), true
					case strings.HasSuffix(k.Name, "Server.Close") && strings.HasPrefix(k.Name, "invoke "):
						c.Check(k.St.Auto["server"] == "started", where+" closes the coordinator once", k.Pos(), p, "the coordinator is closed although it is %s", orNone(k.St.Auto["server"]))
						c.Check(len(k.St.Auto["taken"]) == len(k.St.Auto["waiters"]), where+" coordinator outlives the processes", k.Pos(), p, "the coordinator is closed while %d processes run", len(k.St.Auto["waiters"])-len(k.St.Auto["taken"]))
						k.St.Auto["server"] = "closed"
						return k.Return(engine.Nil(k.T)), true
					case strings.HasSuffix(k.Name, "AbsPathForGeneratedAsset"):
						name, num := "", int64(0)
						for _, a := range k.Args {
							if s, ok := a.Str(); ok {
								name = s
							}
							if i, ok := a.Int(); ok {
								num = i
							}
						}
						if name == "" {
							return nil, false
						}
						return k.Return(strVal(fmt.Sprintf("%s.%d", name, num))), true
					case strings.HasSuffix(k.Name, "GenerateGinkgoTestRunArgs"):
						for _, a := range k.Args {
							if a.T == nil || engine.TypeStr(a.T) != "types.GoFlagsConfig" {
								continue
							}
							for _, f := range k08profiles {
								v := x.FieldOf(k.St, a, f)
								if v == nil {
									continue
								}
								if s, ok := v.Str(); ok {
									k.St.Auto["given"] += s + " "
									k.St.Auto["given"+f] += s + " "
								} else {
									c.Undecided("the %s given to a process is %v", f, v)
								}
							}
						}
						o, ok := forkErr(k)
						if ok {
							o = o[:1]
						}
						return o, ok
					case strings.HasSuffix(k.Name, "MergeProfiles"), strings.HasSuffix(k.Name, "MergeAndCleanupCoverProfiles"):
						es, ok := x.Elems(k.St, k.Args[0])
						if !ok {
							c.Undecided("what is combined is not known")
							return nil, false
						}
						c.Check(len(k.St.Auto["taken"]) == len(k.St.Auto["waiters"]), where+" combines after the processes", k.Pos(), p, "files are combined while processes still write them")
						for _, el := range es {
							s, _ := el.Str()
							k.St.Auto["merged"] += s + " "
						}
						o, ok := forkErr(k)
						if ok {
							o = o[:1]
						}
						return o, ok
					case strings.HasSuffix(k.Name, "GetCoverageFromCoverProfile"):
						o, ok := forkErr(k)
						if ok {
							o = o[:1]
						}
						return o, ok
					case strings.HasPrefix(k.Name, "fmt."), strings.HasPrefix(k.Name, "formatter."), k.Name == "strings.Contains":
						return k.Return(k.Fresh()), true
					}
					return nil, false
				}})
			c.Run(x)
			for _, e := range x.Exits {
				if e.Kind != engine.ExitReturn {
					continue
				}
				p := e.St.Path(10)
				a := e.St.Auto
				c.Check(strings.Count(a["started"], ";") == n, where+" all started", e.Pos, p, "%d of %d processes are started", strings.Count(a["started"], ";"), n)
				c.Check(a["started"] == a["owned"], where+" each is awaited", e.Pos, p, "of the processes %s only %s are awaited", a["started"], orNone(a["owned"]))
				c.Check(len(a["taken"]) == len(a["waiters"]), where+" all results taken", e.Pos, p, "%d results are yielded but %d taken", len(a["waiters"]), len(a["taken"]))
				c.Check(a["server"] == "closed", where+" coordinator closed", e.Pos, p, "the coordinator is %s", orNone(a["server"]))
				if files {
					for _, s := range strings.Fields(a["given"]) {
						c.Check(in(s, strings.Fields(a["merged"])), where+" combines "+s, e.Pos, p, "the file %s written by a process is never combined and stays behind; combined are %s", s, orNone(a["merged"]))
					}
					for _, s := range strings.Fields(a["merged"]) {
						c.Check(in(s, strings.Fields(a["given"])), where+" "+s+" was written", e.Pos, p, "the file %s is combined although no process was told to write it", s)
					}
					for _, f := range k08profiles {
						d := map[string]bool{}
						for _, s := range strings.Fields(a["given"+f]) {
							c.Check(!d[s], where+" "+f+" apart", e.Pos, p, "two processes write to the same file %s", s)
							d[s] = true
						}
					}
				}
			}
		}
	}
}

// k08merge: what is combined is removed, after it was read and before the combination is written.
func k08merge(c *Ctx) {
	roots := []string{"ginkgo/internal.MergeAndCleanupCoverProfiles", "ginkgo/internal.MergeProfiles", "reporters.MergeAndCleanupJSONReports", "reporters.MergeAndCleanupJUnitReports", "reporters.MergeAndCleanupTeamcityReports"}
	for _, root := range roots {
		fn := c.Fn(root)
		if fn == nil {
			continue
		}
		if len(fn.Params) < 2 {
			c.Undecided("%s takes no sources and destination", root)
			continue
		}
		short := root[strings.LastIndex(root, ".")+1:]
		args := []*engine.Val{engine.SliceAt("*srcs", 2, fn.Params[0].Type()), strVal("dst")}
		var x *engine.Interp
		x = engine.New(c.P, engine.Cfg{Root: fn, Args: args, Budget: 60000,
			Concrete:  func(*ssa.Phi) bool { return true },
			Track:     func(l string) bool { return strings.HasPrefix(l, "alloc") || strings.HasPrefix(l, "*srcs") },
			TrackFact: func(v *engine.Val) bool { return hasAny(v.Key(), "err") },
			Opaque: func(f *ssa.Function) bool {
				return hasAny(c.P.CalleeName(f), "AddCoverProfile", "DumpCoverProfiles")
			},
			Init: func(st *engine.State) {
				for i := 0; i < 2; i++ {
					x.Store(st, fmt.Sprintf("*srcs[%d]", i), strVal(fmt.Sprintf("src%d", i)))
				}
			},
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				name := ""
				if len(k.Args) > 0 && k.Args[0] != nil {
					name, _ = k.Args[0].Str()
				}
				p := k.St.Path(10)
				isSrc := strings.HasPrefix(name, "src")
				switch {
				case k.Name == "os.Remove" || k.Name == "os.RemoveAll":
					if !isSrc {
						c.Check(name != "dst", short+" keeps the combination", k.Pos(), p, "the combination is removed")
						return k.Return(engine.Nil(k.T)), true
					}
					c.Check(strings.Contains(k.St.Auto["read"], name), short+" reads first", k.Pos(), p, "%s is removed before it was read", name)
					c.Check(!strings.Contains(k.St.Auto["bad"], name), short+" keeps what it could not read", k.Pos(), p, "%s is removed although it could not be read", name)
					c.Check(k.St.Auto["dst"] == "", short+" removes before writing", k.Pos(), p, "%s is removed after the combination is written, which may be the same file", name)
					k.St.Auto["removed"] += name + " "
					return k.Return(engine.Nil(k.T)), true
				case k.Name == "os.Create", k.Name == "os.OpenFile", k.Name == "os.WriteFile":
					if name == "dst" {
						k.St.Auto["dst"] = "1"
					}
				case isSrc:
					o, ok := forkErr(k)
					if ok {
						o[0].St.Auto["read"] += name + " "
						o[0].St.Auto["last"] = name
						o[1].St.Auto["bad"] += name + " "
					}
					return o, ok
				case hasAny(k.Name, "Unmarshal", ").Decode", "profile.Parse", "cover.ParseProfiles", "io.ReadAll"):
					o, ok := forkErr(k)
					if ok {
						o[1].St.Auto["bad"] += o[1].St.Auto["last"] + " "
					}
					return o, ok
				}
				if (k.Fn == nil || !c.P.InModule(k.Fn)) && !hasAny(k.Name, "fmt.", "errors.", ".Error") {
					return forkErr(k)
				}
				return nil, false
			}})
		c.Run(x)
		for _, e := range x.Exits {
			if e.Kind != engine.ExitReturn || e.Ret == nil {
				continue
			}
			ret := e.Ret
			if n := fn.Signature.Results().Len(); n > 1 && len(ret.Args) == n {
				ret = ret.Args[n-1]
			}
			if is, known := errResult(e, ret); !known || is {
				continue // what could not be combined is reported
			}
			for i := 0; i < 2; i++ {
				s := fmt.Sprintf("src%d", i)
				if strings.Contains(e.St.Auto["bad"], s) {
					continue
				}
				c.Check(strings.Contains(e.St.Auto["removed"], s), short+" removes "+s, e.Pos, e.St.Path(12), "%s was combined but stays behind", s)
			}
		}
	}
}

func k08compiler(c *Ctx) {
	// the file named is the file compiled
	if fn := c.Fn("ginkgo/internal.CompileSuite"); fn != nil {
		args, at := entrySuite(c, fn)
		if at < 0 {
			c.Undecided("compiling takes no suite")
			return
		}
		args[at] = engine.Agg(args[at], map[string]*engine.Val{"PathToCompiledTest": strVal("")}, fn.Params[at].Type())
		var x *engine.Interp
		x = engine.New(c.P, engine.Cfg{Root: fn, Args: args,
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				if strings.HasSuffix(k.Name, "GenerateGoTestCompileArgs") {
					for _, a := range k.Args {
						if a.T != nil && engine.TypeStr(a.T) == "types.GoFlagsConfig" {
							if v := x.FieldOf(k.St, a, "O"); v != nil {
								k.St.Vals["out"] = v
							}
						}
					}
					return forkErr(k)
				}
				return nil, false
			}})
		c.Run(x)
		for _, e := range x.Exits {
			if e.Kind != engine.ExitReturn {
				continue
			}
			path := x.FieldOf(e.St, e.Ret, "PathToCompiledTest")
			if path == nil {
				c.Undecided("the binary of a compiled suite is not known")
				continue
			}
			s, isStr := path.Str()
			if stateNameOf(c, x, e) == "TestSuiteStateCompiled" {
				out := e.St.Vals["out"]
				c.Check(out != nil && out.Key() == path.Key(), "the file compiled", e.Pos, e.St.Path(8), "the suite names %v but the compiler was told to write %v", path, out)
			} else {
				c.Check(isStr && s == "", "no file without compiling", e.Pos, e.St.Path(8), "a suite recorded as %s names the file %v", stateNameOf(c, x, e), path)
			}
		}
	}
	// each suite is handed out and back once
	newFn, start, next := c.Fn("ginkgo/internal.NewOrderedParallelCompiler"), c.Fn("(*ginkgo/internal.OrderedParallelCompiler).StartCompiling"), c.Fn("(*ginkgo/internal.OrderedParallelCompiler).Next")
	suiteT := c.Type("ginkgo/internal", "TestSuite")
	if newFn == nil || start == nil || next == nil || suiteT == nil {
		return
	}
	for n := 1; n <= 3; n++ {
		x := engine.New(c.P, engine.Cfg{Root: newFn, Args: []*engine.Val{engine.IntVal(2, newFn.Params[0].Type())}, Linear: true, Budget: 2000})
		c.Run(x)
		if len(x.Exits) != 1 || x.Exits[0].Ret == nil {
			c.Undecided("making the compiler has no single outcome")
			return
		}
		recv, from := x.Exits[0].Ret, x.Exits[0].St
		args := []*engine.Val{recv}
		for _, p := range start.Params[1:] {
			v := engine.ParamSym(p)
			if engine.TypeStr(p.Type()) == "internal.TestSuites" {
				v = engine.SliceAt("*suites", n, p.Type())
			}
			args = append(args, v)
		}
		type bundle struct{ suite, ch string }
		var worker *engine.Val
		var y *engine.Interp
		isBundle := func(v *engine.Val) (bundle, bool) {
			var b bundle
			s, ok := v.T.Underlying().(*types.Struct)
			if !ok {
				return b, false
			}
			for i := 0; i < s.NumFields(); i++ {
				f := y.FieldOf(nil, v, s.Field(i).Name())
				if f == nil {
					continue
				}
				if _, ok := s.Field(i).Type().Underlying().(*types.Chan); ok {
					b.ch = f.Key()
				} else if engine.TypeStr(s.Field(i).Type()) == "internal.TestSuite" {
					b.suite = f.Key()
				}
			}
			return b, b.ch != "" && b.suite != ""
		}
		var bundles []bundle
		y = engine.New(c.P, engine.Cfg{Root: start, Args: args, Linear: true, Budget: 6000,
			Init: func(st *engine.State) {
				st.CopyMem(from)
				for i := 0; i < n; i++ {
					y.Store(st, fmt.Sprintf("*suites[%d]", i), engine.Sym(fmt.Sprintf("suite~%d;", i), suiteT))
				}
			},
			OnGo: func(k *engine.Call) {
				if k.FnVal != nil {
					worker = k.FnVal
				}
				k.St.Auto["workers"] += "1"
			},
			OnSend: func(x *engine.Interp, st *engine.State, in ssa.Instruction, ch, v *engine.Val) {
				if v.T == nil {
					return
				}
				if b, ok := isBundle(v); ok {
					st.Auto["handed"] += "1"
					bundles = append(bundles, b)
				} else if engine.TypeStr(v.T) == "internal.TestSuite" {
					st.Auto["back "+ch.Key()] += "1"
				}
			},
			RecvVal: func(x *engine.Interp, st *engine.State, in ssa.Instruction, ch *engine.Val) *engine.Val {
				ct, ok := ch.T.Underlying().(*types.Chan)
				if !ok || engine.TypeStr(ct.Elem()) != "internal.TestSuite" {
					return nil
				}
				st.Auto["taken "+ch.Key()] += "1"
				return engine.Sym("compiled~"+ch.Key(), ct.Elem())
			},
			OnClose: func(x *engine.Interp, st *engine.State, in ssa.Instruction, ch *engine.Val) { st.Auto["closed"] += "1" },
		})
		y.ContinueTokens(x)
		c.Run(y)
		if len(y.Exits) == 0 && len(y.Undec) == 0 {
			c.Fail("starting returns", start.Pos(), nil, "starting to compile %d suites never returns", n)
			continue
		}
		if len(y.Exits) != 1 || y.Exits[0].Kind != engine.ExitReturn {
			c.Undecided("starting to compile has no single outcome")
			continue
		}
		e := y.Exits[0]
		c.Check(len(e.St.Auto["workers"]) >= 1, "compilers are started", e.Pos, nil, "no compiler is started: the command hangs")
		c.Check(e.St.Auto["closed"] == "1", "the end is told", e.Pos, nil, "the compilers are not told that there are no more suites: they never end")
		order := ""
		for _, b := range bundles {
			order += b.suite + " "
			c.Check(len(e.St.Auto["back "+b.ch]) == len(e.St.Auto["taken "+b.ch]), "what is taken is given back", e.Pos, nil, "a compiled suite is taken %d times and given back %d times", len(e.St.Auto["taken "+b.ch]), len(e.St.Auto["back "+b.ch]))
		}
		want := ""
		for i := 0; i < n; i++ {
			want += fmt.Sprintf("suite~%d; ", i)
		}
		if !hasAny(order, "suite~") {
			c.Undecided("what is handed to the compilers is not known: %s", order)
			continue
		}
		c.Check(order == want, "each suite once", e.Pos, nil, "of %d suites the compilers are handed %s", n, order)
		// handed back in order
		px, pe := y, e
		for i := 0; i <= n; i++ {
			var z *engine.Interp
			z = engine.New(c.P, engine.Cfg{Root: next, Args: []*engine.Val{recv}, Linear: true, Budget: 2000,
				Init: func(st *engine.State) { st.CopyMem(pe.St) },
				RecvVal: func(x *engine.Interp, st *engine.State, in ssa.Instruction, ch *engine.Val) *engine.Val {
					ct, ok := ch.T.Underlying().(*types.Chan)
					if !ok || engine.TypeStr(ct.Elem()) != "internal.TestSuite" {
						return nil
					}
					st.Auto["from"] += ch.Key()
					return engine.Sym("next~", ct.Elem())
				}})
			z.ContinueTokens(px)
			c.Run(z)
			if len(z.Exits) == 1 && z.Exits[0].Kind != engine.ExitReturn && len(z.Undec) == 0 {
				c.Fail("next suite in order", z.Exits[0].Pos, z.Exits[0].St.Path(6), "after %d of %d suites asking for the next one leaves by %s", i, n, z.Exits[0].Kind)
				break
			}
			if len(z.Exits) != 1 || z.Exits[0].Kind != engine.ExitReturn || z.Exits[0].Ret == nil || len(z.Exits[0].Ret.Args) != 2 {
				c.Undecided("the next suite is not known")
				break
			}
			ne := z.Exits[0]
			idx, known := ne.Ret.Args[0].Int()
			if !known {
				c.Undecided("the place of the next suite is not known")
				break
			}
			if i == n {
				c.Check(idx >= int64(n) && ne.St.Auto["from"] == "", "the end of the suites", ne.Pos, nil, "after %d suites the next one is said to be at %d", n, idx)
			} else if i < len(bundles) {
				c.Check(idx == int64(i) && ne.St.Auto["from"] == bundles[i].ch && strings.Contains(ne.Ret.Args[1].Key(), "next~"), "next suite in order", ne.Pos, nil, "suite %d is said to be at %d and is taken from %s", i, idx, orNone(ne.St.Auto["from"]))
			}
			px, pe = z, ne
		}
		if worker == nil || n != 1 {
			continue
		}
		// a compiler answers each suite once
		answered := 0
		w := engine.New(c.P, engine.Cfg{Root: worker.Fn, Bind: worker.Args, Budget: 6000,
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				if strings.HasSuffix(k.Name, ".CompileSuite") {
					return k.Return(k.Fresh()), true
				}
				return nil, false
			},
			OnRecv: func(x *engine.Interp, st *engine.State, in ssa.Instruction, ch *engine.Val) {
				c.Check(st.Auto["owed"] == "", "answers before the next", in.Pos(), st.Path(8), "a compiler takes the next suite before it gave back the last: waiting for it hangs")
				st.Auto["owed"] = "1"
			},
			OnSend: func(x *engine.Interp, st *engine.State, in ssa.Instruction, ch, v *engine.Val) {
				answered++
				c.Check(st.Auto["owed"] != "", "answers once", in.Pos(), st.Path(8), "a compiler gives a suite back twice")
				st.Auto["owed"] = ""
			}})
		c.Run(w)
		if answered == 0 {
			c.Undecided("what a compiler gives back was not seen")
		}
	}
}

// k08binaries: what was compiled is removed by the commands that run it.
func k08binaries(c *Ctx) {
	k08cleanup(c)
	fn := c.Fn("(*ginkgo/run.SpecRunner).RunSpecs")
	suiteT := c.Type("ginkgo/internal", "TestSuite")
	statusT := c.Type("internal/interrupt_handler", "InterruptStatus")
	if fn == nil || suiteT == nil || statusT == nil || c.Fn("ginkgo/internal.Cleanup") == nil || c.Fn("(types.GoFlagsConfig).BinaryMustBePreserved") == nil {
		return
	}
	lvlT := fieldOfType(statusT, "Level")
	state := func(n string) *engine.Val { return c.ConstVal("ginkgo/internal", "TestSuiteState"+n) }
	bin := func(i int) string { return fmt.Sprintf("bin%d", i) }
	nsuites := 2
	if c.Tier == "thorough" {
		nsuites = 3
	}
	interrupts := 0
	var x *engine.Interp
	x = engine.New(c.P, engine.Cfg{Root: fn, Budget: 400000,
		Concrete:  func(phi *ssa.Phi) bool { return true },
		TrackFact: func(v *engine.Val) bool { return hasAny(v.Key(), "KeepGoing", "UntilItFails", "Repeat") },
		Track:     func(l string) bool { return strings.HasPrefix(l, "alloc") },
		OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			short := k.Name[strings.LastIndex(k.Name, ".")+1:]
			if o, ok := k08remove(k); ok {
				return o, ok
			}
			switch {
			case strings.HasSuffix(k.Name, "internal.FindSuites"):
				var es []*engine.Val
				for i := 0; i < nsuites; i++ {
					es = append(es, engine.Agg(engine.Sym(fmt.Sprintf("suite%d", i), suiteT), map[string]*engine.Val{"State": state("Uncompiled"), "Precompiled": engine.BoolVal(false), "PathToCompiledTest": strVal(""), "HasProgrammaticFocus": engine.BoolVal(false)}, suiteT))
				}
				return k.Return(k.NewSlice(es, k.T)), true
			case short == "ShuffledCopy":
				return k.Return(k.Args[0]), true
			case short == "VerifyCLIAndFrameworkVersion", short == "StopAndDrain", short == "NewOrderedParallelCompiler", short == "FailedSuitesReport", short == "orcMessage":
				return k.Return(k.Fresh()), true
			case short == "StartCompiling":
				k.St.Auto["round"] += "1"
				k.St.Auto["next"] = ""
				if len(k.St.Auto["round"]) > 2 {
					k.St.Stop()
				}
				for i := range k.Args {
					if engine.TypeStr(k.Args[i].T) == "internal.TestSuites" {
						k.St.Vals["compiling"] = k.Args[i]
					}
				}
				if len(k.St.Auto["round"]) == 1 {
					for i := 0; i < nsuites; i++ {
						k.St.Auto["owed"] += bin(i) + " "
					}
				}
				return k.Return(engine.Nil(k.T)), true
			case short == "Next" && strings.Contains(k.Name, "OrderedParallelCompiler"):
				i := len(k.St.Auto["next"])
				intT := types.Typ[types.Int]
				if i >= nsuites {
					return k.Return(engine.Tuple(engine.IntVal(int64(nsuites), intT), engine.Agg(engine.Sym("nosuite", suiteT), map[string]*engine.Val{"PathToCompiledTest": strVal("")}, suiteT))), true
				}
				k.St.Auto["next"] += "1"
				es, ok := x.Elems(k.St, k.St.Vals["compiling"])
				if !ok || len(es) != nsuites {
					c.Undecided("the suites being compiled are not known")
					k.St.Stop()
					return k.Return(k.Fresh()), true
				}
				if len(k.St.Auto["round"]) > 1 {
					return k.Return(engine.Tuple(engine.IntVal(int64(i), intT), es[i])), true
				}
				s2 := k.St.Clone()
				s2.Auto["owed"] = strings.Replace(s2.Auto["owed"], bin(i)+" ", "", 1)
				s2.Note("suite %d does not compile", i)
				mk := func(s, path string) *engine.Val {
					return engine.Tuple(engine.IntVal(int64(i), intT), engine.Agg(es[i], map[string]*engine.Val{"State": state(s), "PathToCompiledTest": strVal(path), "CompilationError": engine.Sym("nonnil:err:compile", c.P.ErrorType())}, suiteT))
				}
				return []engine.Outcome{{St: k.St, Ret: mk("Compiled", bin(i))}, {St: s2, Ret: mk("FailedToCompile", "")}}, true
			case short == "RunCompiledSuite":
				var outs []engine.Outcome
				for _, s := range []string{"Passed", "Failed"} {
					outs = append(outs, engine.Outcome{St: k.St.Clone(), Ret: engine.Agg(k.Args[0], map[string]*engine.Val{"State": state(s), "HasProgrammaticFocus": engine.BoolVal(false)}, suiteT)})
				}
				return outs, true
			case short == "Status" && engine.TypeStr(k.T) == engine.TypeStr(statusT):
				s2 := k.St.Clone()
				s2.Note("%s: interrupted", c.P.RelPos(k.Pos()))
				s2.Auto["interrupted"] = "1"
				interrupts++
				mk := func(l int64) *engine.Val {
					return engine.Agg(k.Fresh(), map[string]*engine.Val{"Level": engine.IntVal(l, lvlT)}, statusT)
				}
				return []engine.Outcome{{St: k.St, Ret: mk(0)}, {St: s2, Ret: mk(1)}}, true
			case short == "FinalizeProfilesAndReportsForSuites":
				return forkErr(k)
			case k.Name == "time.Until":
				return []engine.Outcome{{St: k.St, Ret: engine.IntVal(1000, k.T)}, {St: k.St.Clone(), Ret: engine.IntVal(0, k.T)}}, true
			case k.Name == "os.Getenv":
				return k.Return(strVal("")), true
			case short == "WasSet", short == "Verbosity", short == "LT", strings.HasPrefix(k.Name, "time.") && short == "Since", strings.HasPrefix(k.Name, "fmt."):
				return k.Return(k.Fresh()), true
			}
			return nil, false
		}})
	c.Run(x)
	judge := func(where string, e *engine.Exit) {
		if e.St.Auto["preserve"] != "" {
			c.Ok("%s: binaries kept", where)
			return
		}
		how := "when the run ends"
		if e.St.Auto["interrupted"] != "" {
			how = "after an interrupt"
		}
		for _, b := range strings.Fields(e.St.Auto["owed"]) {
			c.Check(strings.Contains(e.St.Auto["removed"], b+" "), where+" removes binaries "+how, e.Pos, e.St.Path(14), "the binary of suite %s, which may have been compiled, is left behind", strings.TrimPrefix(b, "bin"))
		}
	}
	for _, e := range x.Exits {
		if e.Kind == engine.ExitStop || e.St.Auto["round"] == "" {
			continue
		}
		judge("run", e)
	}
	if interrupts == 0 {
		c.Undecided("the run command never looks for interrupts")
	}
	// commands that compile one suite at a time
	comp := c.Fn("ginkgo/internal.CompileSuite")
	if comp == nil {
		return
	}
	for _, r := range c.P.Callers(comp) {
		f := r.Caller
		if n := c.P.CalleeName(f); !strings.Contains(n, "ginkgo/watch") {
			continue
		}
		var y *engine.Interp
		y = engine.New(c.P, engine.Cfg{Root: f, Budget: 20000, Concrete: func(*ssa.Phi) bool { return true },
			Track: func(l string) bool { return strings.HasPrefix(l, "alloc") },
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				if o, ok := k08remove(k); ok {
					return o, ok
				}
				switch k.Name[strings.LastIndex(k.Name, ".")+1:] {
				case "CompileSuite":
					s2 := k.St.Clone()
					k.St.Auto["owed"] += "bin0 "
					mk := func(s, path string) *engine.Val {
						return engine.Agg(k.Args[0], map[string]*engine.Val{"State": state(s), "Precompiled": engine.BoolVal(false), "PathToCompiledTest": strVal(path), "CompilationError": engine.Sym("nonnil:err:compile", c.P.ErrorType())}, suiteT)
					}
					return []engine.Outcome{{St: k.St, Ret: mk("Compiled", "bin0")}, {St: s2, Ret: mk("FailedToCompile", "")}}, true
				case "RunCompiledSuite":
					c.Check(!strings.Contains(k.St.Auto["removed"], "bin0"), "watch runs before removing", k.Pos(), k.St.Path(8), "the binary is removed before it runs")
					return k.Return(engine.Agg(k.Args[0], map[string]*engine.Val{"State": state("Passed")}, suiteT)), true
				case "Status":
					if engine.TypeStr(k.T) != engine.TypeStr(statusT) {
						return nil, false
					}
					s2 := k.St.Clone()
					s2.Auto["interrupted"] = "1"
					mk := func(l int64) *engine.Val {
						return engine.Agg(k.Fresh(), map[string]*engine.Val{"Level": engine.IntVal(l, lvlT)}, statusT)
					}
					return []engine.Outcome{{St: k.St, Ret: mk(0)}, {St: s2, Ret: mk(1)}}, true
				}
				if strings.HasPrefix(k.Name, "fmt.") {
					return k.Return(k.Fresh()), true
				}
				return nil, false
			}})
		c.Run(y)
		for _, e := range y.Exits {
			if e.Kind == engine.ExitReturn {
				judge("watch", e)
			}
		}
	}
}

func k08remove(k *engine.Call) ([]engine.Outcome, bool) {
	switch {
	case k.Name == "os.Remove" || k.Name == "os.RemoveAll":
		if s, ok := k.Args[0].Str(); ok {
			k.St.Auto["removed"] += s + " "
		}
		return k.Return(engine.Nil(k.T)), true
	case strings.HasSuffix(k.Name, "GoFlagsConfig).BinaryMustBePreserved"):
		s2 := k.St.Clone()
		s2.Auto["preserve"] = "1"
		return []engine.Outcome{{St: k.St, Ret: engine.BoolVal(false)}, {St: s2, Ret: engine.BoolVal(true)}}, true
	}
	return nil, false
}

// k08cleanup: which binaries are removed.
func k08cleanup(c *Ctx) {
	fn := c.Fn("ginkgo/internal.Cleanup")
	suiteT := c.Type("ginkgo/internal", "TestSuite")
	if fn == nil || suiteT == nil || len(fn.Params) < 2 || c.Fn("(types.GoFlagsConfig).BinaryMustBePreserved") == nil {
		return
	}
	last := fn.Params[len(fn.Params)-1]
	flags := fn.Params[0].Type()
	pres := c.Fn("(types.GoFlagsConfig).BinaryMustBePreserved")
	str, ok := flags.Underlying().(*types.Struct)
	if !ok || !types.Identical(pres.Params[0].Type(), flags) {
		c.Undecided("what a binary is kept for is not known")
		return
	}
	// what binaries are kept for: nothing, or any one string among the flags
	kept := 0
	for one := -1; one < str.NumFields(); one++ {
		f := map[string]*engine.Val{}
		set := one < 0
		for i := 0; i < str.NumFields(); i++ {
			switch b, _ := str.Field(i).Type().Underlying().(*types.Basic); {
			case b == nil:
			case b.Kind() == types.String && i == one:
				f[str.Field(i).Name()], set = strVal("x"), true
			case b.Kind() == types.String:
				f[str.Field(i).Name()] = strVal("")
			case b.Kind() == types.Bool:
				f[str.Field(i).Name()], set = engine.BoolVal(i == one), set || i == one
			}
		}
		if !set {
			continue
		}
		cfg := engine.Agg(engine.Nil(flags), f, flags)
		y := engine.New(c.P, engine.Cfg{Root: pres, Args: []*engine.Val{cfg}, Linear: true, Budget: 1000})
		c.Run(y)
		if len(y.Exits) != 1 || y.Exits[0].Ret == nil {
			c.Undecided("whether a binary is to be kept is not known")
			return
		}
		keep, ok := y.Exits[0].Ret.Bool()
		if !ok {
			c.Undecided("whether a binary is to be kept is not known")
			return
		}
		what := "nothing set"
		if one >= 0 {
			what = str.Field(one).Name() + " set"
		}
		if keep {
			kept++
		}
		for mask := 0; mask < 4; mask++ {
			var x *engine.Interp
			x = engine.New(c.P, engine.Cfg{Root: fn, Args: []*engine.Val{cfg, engine.SliceAt("*suites", 2, last.Type())}, Budget: 4000,
				Concrete: func(*ssa.Phi) bool { return true },
				OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
					if strings.HasPrefix(k.Name, "os.Remove") {
						return k08remove(k)
					}
					return nil, false
				},
				Init: func(st *engine.State) {
					for i := 0; i < 2; i++ {
						x.Store(st, fmt.Sprintf("*suites[%d]", i), engine.Agg(engine.Sym(fmt.Sprintf("suite%d", i), suiteT), map[string]*engine.Val{"Precompiled": engine.BoolVal(mask>>i&1 == 1), "PathToCompiledTest": strVal(fmt.Sprintf("bin%d", i))}, suiteT))
					}
				}})
			c.Run(x)
			for _, e := range x.Exits {
				want := ""
				for i := 0; i < 2; i++ {
					if mask>>i&1 == 0 && !keep {
						want += fmt.Sprintf("bin%d ", i)
					}
				}
				c.Check(e.St.Auto["removed"] == want, "cleanup", e.Pos, e.St.Path(8), "of two binaries (given: %02b; %s) %s are removed instead of %s", mask, what, orNone(e.St.Auto["removed"]), orNone(want))
			}
		}
	}
	c.Check(kept > 0, "binaries can be kept", pres.Pos(), nil, "no setting keeps a binary")
}

var _ = token.NoPos
