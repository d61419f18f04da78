package rules

import (
	"fmt"
	"go/types"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{ID: "V06", Technique: "path-sensitive exploration of the command's exit decision over every per-suite outcome (two suites, two rounds), and of each runner over every process exit status",
		Note: "Bounded to two suites and two rounds of a repeated run and to two parallel processes; the decision code treats suites and processes uniformly. Process exit statuses are represented by 0, the focus code, 1, 2 and killed-by-signal.",
		Run:  v06})
}

func v06(c *Ctx) {
	v06suiteRunners(c)
	v06parallel(c)
	v06compile(c)
	v06decision(c)
	v06aborts(c)
	v06exiter(c)
}

// exitCodes are the representative ways a test process ends; -1 stands for a signal.
func exitCodes(c *Ctx) ([]int64, int64) {
	f, _ := c.ConstVal("types", "GINKGO_FOCUS_EXIT_CODE").Int()
	return []int64{0, f, 1, 2, -1}, f
}

// procModel answers questions about how the awaited process ended.
func procModel(c *Ctx, k *engine.Call, code int64) ([]engine.Outcome, bool) {
	intT := types.Typ[types.Int]
	switch {
	case strings.HasSuffix(k.Name, "exec.Cmd).Wait"), strings.HasSuffix(k.Name, "exec.Cmd).Run"):
		k.St.Auto["waited"] += "1"
		if code == 0 {
			return k.Return(engine.Nil(k.T)), true
		}
		return k.Return(engine.Sym("nonnil:exec.ExitError", k.T)), true
	case strings.HasSuffix(k.Name, "WaitStatus).ExitStatus"), strings.HasSuffix(k.Name, "os.ProcessState).ExitCode"):
		return k.Return(engine.IntVal(code, intT)), true
	case strings.HasSuffix(k.Name, "os.ProcessState).Success"):
		return k.Return(engine.BoolVal(code == 0)), true
	case strings.HasSuffix(k.Name, "WaitStatus).Signaled"):
		return k.Return(engine.BoolVal(code < 0)), true
	case strings.HasSuffix(k.Name, "WaitStatus).Exited"):
		return k.Return(engine.BoolVal(code >= 0)), true
	}
	return nil, false
}

// v06common answers the calls that do not matter for a suite's outcome.
func v06common(c *Ctx, k *engine.Call, noTests bool) ([]engine.Outcome, bool) {
	switch {
	case strings.HasSuffix(k.Name, "GenerateGinkgoTestRunArgs"), strings.HasSuffix(k.Name, "GenerateGoTestRunArgs"), strings.HasSuffix(k.Name, "exec.Cmd).Start"),
		strings.HasSuffix(k.Name, "parallel_support.NewServer"), strings.HasSuffix(k.Name, "MergeProfiles"), strings.HasSuffix(k.Name, "MergeAndCleanupCoverProfiles"), strings.HasSuffix(k.Name, "GetCoverageFromCoverProfile"):
		o, ok := forkErr(k)
		if ok {
			o[1].St.Auto["err"] = k.Name
		}
		return o, ok
	case k.Name == "strings.Contains":
		if s, ok := k.Args[1].Str(); ok && strings.Contains(s, "no tests to run") {
			return k.Return(engine.BoolVal(noTests)), true
		}
	case strings.HasSuffix(k.Name, "AbsPathForGeneratedAsset"):
		return k.Return(k.Fresh()), true
	}
	return nil, false
}

func abortCode(x *engine.Interp, e *engine.Exit) (int64, bool) {
	if e.Kind == engine.ExitOS && e.Ret != nil {
		return e.Ret.Int()
	}
	if e.Kind != engine.ExitPanic || e.Ret == nil {
		return 0, false
	}
	d := e.Ret.Unbox()
	if d == nil {
		return 0, false
	}
	f := x.FieldOf(e.St, d, "ExitCode")
	if f == nil {
		return 0, false
	}
	if f.IsNil() {
		return 0, true
	}
	return f.Int()
}

// judgeSuite checks the outcome recorded for a suite whose processes ended with the given codes.
func judgeSuite(c *Ctx, x *engine.Interp, e *engine.Exit, fn string, codes []int64, focus int64, mustFail bool, ginkgo bool) {
	if e.St.Auto["err"] != "" {
		code, ok := abortCode(x, e)
		c.Check(ok && code != 0 || e.Kind == engine.ExitReturn && stateNameOf(c, x, e) == "TestSuiteStateFailed", fn+" aborts at an error of "+e.St.Auto["err"], e.Pos, e.St.Path(8), "%s: after an error of %s it leaves by %s (exit code %d)", fn, e.St.Auto["err"], e.Kind, code)
		return
	}
	if e.Kind != engine.ExitReturn {
		return
	}
	got := stateNameOf(c, x, e)
	want, hasFocus := "TestSuiteStatePassed", false
	for _, k := range codes {
		if k != 0 && k != focus {
			want = "TestSuiteStateFailed"
		}
		if k == focus {
			hasFocus = true
		}
	}
	if mustFail {
		want = "TestSuiteStateFailed"
	}
	id := fmt.Sprintf("%s exit statuses %v no-tests=%v", fn, codes, mustFail)
	if got == "?" {
		c.Undecided("%s: recorded outcome not known", id)
		return
	}
	c.Check(got == want, id, e.Pos, e.St.Path(10), "processes exiting %v: the suite is recorded as %s", codes, got)
	if ginkgo && want == "TestSuiteStatePassed" {
		f := x.FieldOf(e.St, e.Ret, "HasProgrammaticFocus")
		if b, ok := f.Bool(); ok {
			c.Check(b == hasFocus, id+" focus", e.Pos, e.St.Path(10), "processes exiting %v: programmatic focus recorded as %v", codes, b)
		}
	}
}

func stateNameOf(c *Ctx, x *engine.Interp, e *engine.Exit) string {
	if e.Ret == nil {
		return "?"
	}
	f := x.FieldOf(e.St, e.Ret, "State")
	if f == nil {
		return "?"
	}
	n := x.DomNames(e.St, f)
	if len(n) != 1 {
		return "?"
	}
	return n[0]
}

func entrySuite(c *Ctx, fn *ssa.Function) ([]*engine.Val, int) {
	args := make([]*engine.Val, len(fn.Params))
	for i, p := range fn.Params {
		args[i] = engine.ParamSym(p)
		if engine.TypeStr(p.Type()) == "internal.TestSuite" {
			return args, i
		}
	}
	return args, -1
}

func requireSuite(fn *ssa.Function, on bool, args []*engine.Val) []*engine.Val {
	for i, p := range fn.Params {
		if engine.TypeStr(p.Type()) == "types.CLIConfig" {
			for len(args) < len(fn.Params) {
				args = append(args, nil)
			}
			args[i] = engine.Agg(engine.ParamSym(p), map[string]*engine.Val{"RequireSuite": engine.BoolVal(on)}, p.Type())
		}
	}
	return args
}

func v06suiteRunners(c *Ctx) {
	c.Rule("suite-outcome", "a suite run in one process is recorded as passed exactly when its process exits with 0 or the focus code (and ran tests, when required); any other end is a failure")
	codes, focus := exitCodes(c)
	for _, root := range []string{"ginkgo/internal.runSerial", "ginkgo/internal.runGoTest"} {
		fn := c.Fn(root)
		if fn == nil {
			continue
		}
		for _, code := range codes {
			for _, noTests := range []bool{false, true} {
				args, at := entrySuite(c, fn)
				if at < 0 {
					c.Undecided("%s takes no suite", root)
					break
				}
				args[at] = engine.Agg(args[at], map[string]*engine.Val{"HasProgrammaticFocus": engine.BoolVal(false), "State": c.ConstVal("ginkgo/internal", "TestSuiteStateFailed")}, fn.Params[at].Type())
				args = requireSuite(fn, noTests, args)
				var x *engine.Interp
				x = engine.New(c.P, engine.Cfg{Root: fn, Args: args,
					TrackFact: func(v *engine.Val) bool { return false },
					OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
						if o, ok := procModel(c, k, code); ok {
							return o, ok
						}
						return v06common(c, k, noTests)
					}})
				c.Run(x)
				for _, e := range x.Exits {
					if e.Kind == engine.ExitReturn {
						c.Check(e.St.Auto["waited"] == "1", root+" waits", e.Pos, e.St.Path(8), "the process is awaited %d times before its outcome is recorded", len(e.St.Auto["waited"]))
					}
					judgeSuite(c, x, e, root, []int64{code}, focus, noTests, strings.HasSuffix(root, "Serial"))
				}
			}
		}
	}
	c.Floor(20)

	c.Rule("suite-dispatch", "running a compiled suite records a fresh outcome: it starts as failed and becomes what its runner says")
	fn := c.Fn("ginkgo/internal.RunCompiledSuite")
	if fn == nil {
		return
	}
	stT := c.Type("ginkgo/internal", "TestSuiteState")
	for _, entry := range []string{"TestSuiteStatePassed", "TestSuiteStateCompiled"} {
		args, at := entrySuite(c, fn)
		args[at] = engine.Agg(args[at], map[string]*engine.Val{"State": c.ConstVal("ginkgo/internal", entry), "HasProgrammaticFocus": engine.BoolVal(true)}, fn.Params[at].Type())
		var x *engine.Interp
		x = engine.New(c.P, engine.Cfg{Root: fn, Args: args,
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				switch k.Name {
				case "ginkgo/internal.runParallel", "ginkgo/internal.runSerial", "ginkgo/internal.runGoTest":
					in := k.Args[0]
					c.Check(nameOf(x, k.St, x.FieldOf(k.St, in, "State")) == "TestSuiteStateFailed", "entry of "+k.Name, k.Pos(), k.St.Path(6), "%s starts with the outcome of an earlier run", k.Name)
					if b, ok := x.FieldOf(k.St, in, "HasProgrammaticFocus").Bool(); ok {
						c.Check(!b, "focus at entry of "+k.Name, k.Pos(), k.St.Path(6), "%s starts with the focus mark of an earlier run", k.Name)
					}
					var outs []engine.Outcome
					for _, s := range []string{"TestSuiteStatePassed", "TestSuiteStateFailed"} {
						s2 := k.St.Clone()
						s2.Auto["got"] = s
						outs = append(outs, engine.Outcome{St: s2, Ret: engine.Agg(in, map[string]*engine.Val{"State": c.ConstVal("ginkgo/internal", s)}, k.T)})
					}
					return outs, true
				case "ginkgo/internal.runAfterRunHook":
					return k.Return(engine.Nil(k.T)), true
				}
				return nil, false
			}})
		c.Run(x)
		for _, e := range x.Exits {
			if e.Kind != engine.ExitReturn {
				continue
			}
			want := e.St.Auto["got"]
			if want == "" {
				want = "TestSuiteStateFailed"
			}
			c.Check(stateNameOf(c, x, e) == want, "outcome "+e.St.Auto["got"], e.Pos, e.St.Path(8), "the runner reports %q but the suite is recorded as %s", e.St.Auto["got"], stateNameOf(c, x, e))
		}
	}
	_ = stT
	c.Floor(6)
}

func nameOf(x *engine.Interp, st *engine.State, v *engine.Val) string {
	if v == nil {
		return "?"
	}
	if n := x.DomNames(st, v); len(n) == 1 {
		return n[0]
	}
	return "?"
}

// v06parallel: what each process's goroutine reports, and how the reports combine.
func v06parallel(c *Ctx) {
	c.Rule("parallel-outcome", "a suite run in parallel is recorded as passed exactly when every process exits with 0 or the focus code, and as focused when any used it")
	fn := c.Fn("ginkgo/internal.runParallel")
	if fn == nil {
		return
	}
	codes, focus := exitCodes(c)
	sites := goSites(c, fn, func(com *ssa.CallCommon) bool {
		f := com.StaticCallee()
		return f != nil && strings.HasSuffix(c.P.CalleeName(f), "exec.Cmd).Wait")
	})
	if len(sites) != 1 {
		c.Undecided("%d goroutines wait for the processes of a parallel run", len(sites))
		return
	}
	msgs := map[int64]*engine.Val{}
	for g, gf := range sites {
		for _, code := range codes {
			n := 0
			y := engine.New(c.P, engine.Cfg{Root: gf,
				OnCall: func(k *engine.Call) ([]engine.Outcome, bool) { return procModel(c, k, code) },
				OnSend: func(x *engine.Interp, st *engine.State, in ssa.Instruction, ch, v *engine.Val) {
					st.Auto["sent"] += "1"
					c.Check(st.Auto["waited"] == "1", "process awaited before its result", in.Pos(), st.Path(6), "a process's result is reported before the process was awaited")
					msgs[code] = v
					n++
				}})
			c.Run(y)
			for _, e := range y.Exits {
				c.Check(e.Kind == engine.ExitReturn && e.St.Auto["sent"] == "1", fmt.Sprintf("one result for exit status %d", code), g.Pos(), e.St.Path(6), "a process exiting %d: %d results are reported", code, len(e.St.Auto["sent"]))
			}
		}
	}
	if len(msgs) != len(codes) {
		c.Undecided("the results reported by a parallel process are not known")
		return
	}
	var runs [][]int64
	for _, a := range codes {
		for _, b := range codes {
			runs = append(runs, []int64{a, b})
		}
	}
	runs = append(runs, []int64{focus, 1, 0}, []int64{focus, 1, focus}, []int64{0, 1, 0}, []int64{1, 0, focus}, []int64{0, focus, 1}, []int64{0, focus, 0}, []int64{1, 0, 0})
	for _, pair := range runs {
		{
			procs, a, b := len(pair), pair[0], pair[1]
			for _, noTests := range []bool{false, true} {
				if noTests && (procs > 2 || a != 0 || b != 0) {
					continue
				}
				quietErrs := procs > 2 || a != 0 || b != 0 // errors of the set-up do not depend on how the processes end
				args, at := entrySuite(c, fn)
				args[at] = engine.Agg(args[at], map[string]*engine.Val{"HasProgrammaticFocus": engine.BoolVal(false), "State": c.ConstVal("ginkgo/internal", "TestSuiteStateFailed")}, fn.Params[at].Type())
				args = requireSuite(fn, noTests, args)
				if quietErrs && !(procs == 2 && a == 0 && b == 1) {
					for i, p := range fn.Params {
						if engine.TypeStr(p.Type()) == "types.GoFlagsConfig" { // profiles do not depend on how the processes end
							off := map[string]*engine.Val{"Cover": engine.BoolVal(false)}
							for _, f := range []string{"BlockProfile", "CPUProfile", "MemProfile", "MutexProfile", "CoverProfile"} {
								off[f] = strVal("")
							}
							args[i] = engine.Agg(engine.ParamSym(p), off, p.Type())
						}
					}
				}
				var x *engine.Interp
				x = engine.New(c.P, engine.Cfg{Root: fn, Args: args,
					Concrete:  func(*ssa.Phi) bool { return true },
					TrackFact: func(v *engine.Val) bool { return false },
					RecvVal: func(x *engine.Interp, st *engine.State, in ssa.Instruction, ch *engine.Val) *engine.Val {
						et := ch.T.Underlying().(*types.Chan).Elem()
						if engine.TypeStr(et) != engine.TypeStr(msgs[0].T) {
							return nil
						}
						n := len(st.Auto["got"])
						if n >= procs {
							c.Fail("one more result is awaited", in.Pos(), st.Path(8), "with %d processes one more result is awaited: the run hangs", procs)
							st.Stop()
							return msgs[0]
						}
						st.Auto["got"] += "1"
						return msgs[pair[n]]
					},
					OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
						if strings.HasSuffix(k.Name, "CLIConfig).ComputedProcs") {
							return k.Return(engine.IntVal(int64(procs), k.T)), true
						}
						o, ok := v06common(c, k, noTests)
						if ok && quietErrs {
							o = o[:1]
						}
						return o, ok
					}})
				c.Run(x)
				for _, e := range x.Exits {
					if e.Kind == engine.ExitReturn && e.St.Auto["err"] == "" {
						c.Check(len(e.St.Auto["got"]) == procs, "every result awaited", e.Pos, e.St.Path(10), "with %d processes only %d results are awaited", procs, len(e.St.Auto["got"]))
					}
					judgeSuite(c, x, e, "runParallel", pair, focus, noTests, true)
				}
			}
		}
	}
	c.Floor(50)
}

func v06compile(c *Ctx) {
	c.Rule("compile-outcome", "a suite that could not be compiled is recorded as failed to compile, with the error, and is never marked compiled")
	fn := c.Fn("ginkgo/internal.CompileSuite")
	if fn == nil {
		return
	}
	args, at := entrySuite(c, fn)
	args[at] = engine.Agg(args[at], map[string]*engine.Val{"PathToCompiledTest": strVal("")}, fn.Params[at].Type())
	var x *engine.Interp
	x = engine.New(c.P, engine.Cfg{Root: fn, Args: args,
		OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			switch {
			case k.Name == "path/filepath.Abs", k.Name == "path/filepath.Rel", strings.HasSuffix(k.Name, "GenerateGoTestCompileArgs"), strings.HasSuffix(k.Name, "exec.Cmd).CombinedOutput"), strings.HasSuffix(k.Name, "exec.Cmd).Run"), strings.HasSuffix(k.Name, "exec.Cmd).Output"):
				in := k.Instr.Parent()
				if in != fn && !strings.HasPrefix(c.P.CalleeName(in), "ginkgo/internal.") {
					return nil, false
				}
				if strings.HasSuffix(c.P.CalleeName(in), "AbsPath") {
					return k.Return(k.Fresh()), true
				}
				o, ok := forkErr(k)
				if ok {
					name := k.Name
					if call, isCall := k.Instr.(*ssa.Call); isCall && !errUsed(call) {
						return o[:1], true // an error deliberately not looked at
					}
					o[1].St.Auto["err"] = name
				}
				return o, ok
			case strings.HasSuffix(k.Name, ".FileExists"):
				s2 := k.St.Clone()
				s2.Auto["err"] = "a missing binary"
				return []engine.Outcome{{St: k.St, Ret: engine.BoolVal(true)}, {St: s2, Ret: engine.BoolVal(false)}}, true
			}
			return nil, false
		}})
	c.Run(x)
	for _, e := range x.Exits {
		if e.Kind != engine.ExitReturn {
			continue
		}
		got := stateNameOf(c, x, e)
		why := e.St.Auto["err"]
		if why == "" {
			c.Check(got == "TestSuiteStateCompiled" || got == "TestSuiteStateSkippedDueToEmptyCompilation", "compiled", e.Pos, e.St.Path(8), "a suite that compiled is recorded as %s", got)
			continue
		}
		c.Check(got == "TestSuiteStateFailedToCompile", "after an error of "+why, e.Pos, e.St.Path(8), "after an error of %s the suite is recorded as %s", why, got)
		ce := x.FieldOf(e.St, e.Ret, "CompilationError")
		c.Check(ce != nil && !ce.IsNil(), "error kept after "+why, e.Pos, e.St.Path(8), "after an error of %s no compilation error is recorded", why)
	}
	c.Floor(8)
}

// errUsed: the error result of the call is looked at.
func errUsed(call *ssa.Call) bool {
	refs := call.Referrers()
	if refs == nil {
		return true
	}
	tup, ok := call.Type().(*types.Tuple)
	if !ok {
		return len(*refs) > 0
	}
	for _, r := range *refs {
		ex, ok := r.(*ssa.Extract)
		if !ok {
			return true
		}
		if ex.Index == tup.Len()-1 && len(*ex.Referrers()) > 0 {
			return true
		}
	}
	return false
}

// v06decision explores the run command over every outcome of two suites and two rounds.
func v06decision(c *Ctx) {
	c.Rule("exit-status", "the command leaves with 0 only if every suite compiled, ran and passed without an interrupt or a finalization error, with the focus code only if moreover one is focused, and otherwise with another non-zero status")
	fn := c.Fn("(*ginkgo/run.SpecRunner).RunSpecs")
	if fn == nil {
		return
	}
	_, focus := exitCodes(c)
	suiteT := c.Type("ginkgo/internal", "TestSuite")
	statusT := c.Type("internal/interrupt_handler", "InterruptStatus")
	if suiteT == nil || statusT == nil {
		return
	}
	lvlT := fieldOfType(statusT, "Level")
	state := func(n string) *engine.Val { return c.ConstVal("ginkgo/internal", "TestSuiteState"+n) }
	for nsuites := 1; nsuites <= 2; nsuites++ {
		nsuites := nsuites
		var x *engine.Interp
		bad := func(st *engine.State, why string) {
			if st.Auto["bad"] == "" {
				st.Auto["bad"] = why
			}
		}
		x = engine.New(c.P, engine.Cfg{Root: fn,
			Concrete:  func(phi *ssa.Phi) bool { return true },
			TrackFact: func(v *engine.Val) bool { return hasAny(v.Key(), "KeepGoing", "UntilItFails", "Repeat") },
			Track: func(l string) bool {
				return strings.HasPrefix(l, "alloc") || strings.HasSuffix(l, "suiteConfig.Timeout")
			},
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				short := k.Name[strings.LastIndex(k.Name, ".")+1:]
				switch {
				case strings.HasSuffix(k.Name, "internal.FindSuites"):
					var es []*engine.Val
					for i := 0; i < nsuites; i++ {
						es = append(es, engine.Agg(engine.Sym(fmt.Sprintf("suite%d", i), suiteT), map[string]*engine.Val{"State": state("Uncompiled"), "HasProgrammaticFocus": engine.BoolVal(false)}, suiteT))
					}
					return k.Return(k.NewSlice(es, k.T)), true
				case short == "ShuffledCopy":
					es, ok := x.Elems(k.St, k.Args[0])
					if !ok {
						return nil, false
					}
					var rev []*engine.Val
					for i := range es {
						rev = append(rev, es[len(es)-1-i])
					}
					return k.Return(k.NewSlice(rev, k.T)), true
				case short == "VerifyCLIAndFrameworkVersion", short == "Cleanup", short == "StopAndDrain", short == "NewOrderedParallelCompiler", short == "FailedSuitesReport", short == "orcMessage":
					return k.Return(k.Fresh()), true
				case short == "StartCompiling":
					k.St.Auto["round"] += "1"
					k.St.Auto["next"] = ""
					if len(k.St.Auto["round"]) > 2 {
						k.St.Stop()
					}
					for i := range k.Args {
						if engine.TypeStr(k.Args[i].T) == "internal.TestSuites" {
							k.St.Vals["compiling"] = k.Args[i]
						}
					}
					return k.Return(engine.Nil(k.T)), true
				case short == "Next" && strings.Contains(k.Name, "OrderedParallelCompiler"):
					i := len(k.St.Auto["next"])
					if i >= nsuites {
						return k.Return(engine.Tuple(engine.IntVal(int64(nsuites), types.Typ[types.Int]), engine.Agg(engine.Sym("nosuite", suiteT), nil, suiteT))), true
					}
					k.St.Auto["next"] += "1"
					es, ok := x.Elems(k.St, k.St.Vals["compiling"])
					if !ok || len(es) != nsuites {
						c.Undecided("the suites being compiled are not known")
						k.St.Stop()
						return k.Return(k.Fresh()), true
					}
					var outs []engine.Outcome
					if len(k.St.Auto["round"]) > 1 {
						// compiled in an earlier round: handed back as it is
						return k.Return(engine.Tuple(engine.IntVal(int64(i), types.Typ[types.Int]), es[i])), true
					}
					for _, s := range []string{"Compiled", "SkippedDueToEmptyCompilation", "FailedToCompile"} {
						s2 := k.St.Clone()
						if s == "FailedToCompile" {
							bad(s2, "a suite that did not compile")
						}
						if s == "Compiled" {
							s2.Auto["owed"] += "1" // has to run
						}
						s2.Note("suite %d: %s", i, s)
						outs = append(outs, engine.Outcome{St: s2, Ret: engine.Tuple(engine.IntVal(int64(i), types.Typ[types.Int]), engine.Agg(es[i], map[string]*engine.Val{"State": state(s), "CompilationError": engine.Sym("nonnil:err:compile", c.P.ErrorType())}, suiteT))})
					}
					return outs, true
				case short == "RunCompiledSuite":
					if len(k.St.Auto["round"]) == 1 && k.St.Auto["owed"] != "" {
						k.St.Auto["owed"] = k.St.Auto["owed"][1:]
					}
					var outs []engine.Outcome
					for _, s := range []string{"Passed", "Failed", "focused"} {
						s2 := k.St.Clone()
						f, n := false, s
						if s == "Failed" {
							bad(s2, "a suite that failed")
						}
						if s == "focused" {
							f, n = true, "Passed"
						}
						s2.Note("%s: the suite ends %s", c.P.RelPos(k.Pos()), s)
						outs = append(outs, engine.Outcome{St: s2, Ret: engine.Agg(k.Args[0], map[string]*engine.Val{"State": state(n), "HasProgrammaticFocus": engine.BoolVal(f)}, suiteT)})
					}
					return outs, true
				case short == "Status" && engine.TypeStr(k.T) == engine.TypeStr(statusT):
					s2 := k.St.Clone()
					bad(s2, "an interrupt")
					mk := func(l int64) *engine.Val {
						return engine.Agg(k.Fresh(), map[string]*engine.Val{"Level": engine.IntVal(l, lvlT)}, statusT)
					}
					return []engine.Outcome{{St: k.St, Ret: mk(0)}, {St: s2, Ret: mk(1)}}, true
				case short == "FinalizeProfilesAndReportsForSuites":
					k.St.Vals["final"] = k.Args[0]
					o, ok := forkErr(k)
					if ok {
						bad(o[1].St, "an error combining the reports")
					}
					return o, ok
				case k.Name == "time.Until":
					// time left, or none
					s2 := k.St.Clone()
					bad(s2, "an elapsed timeout")
					return []engine.Outcome{{St: k.St, Ret: engine.IntVal(1000, k.T)}, {St: s2, Ret: engine.IntVal(0, k.T)}}, true
				case k.Name == "os.Getenv":
					return k.Return(strVal("")), true
				case k.Name == "strings.TrimSpace" && k.Args[0].IsConst():
					return k.Return(k.Args[0]), true
				case short == "WasSet", short == "Verbosity", short == "LT", strings.HasPrefix(k.Name, "time.") && short == "Since", strings.HasPrefix(k.Name, "fmt."):
					return k.Return(k.Fresh()), true
				}
				return nil, false
			}})
		c.Run(x)
		for _, e := range x.Exits {
			if e.Kind == engine.ExitStop || e.St.Auto["round"] == "" {
				continue
			}
			code, ok := abortCode(x, e)
			if e.Kind == engine.ExitReturn {
				code, ok = 0, true
			}
			if !ok {
				c.Undecided("exit status %v of the run command not known", e.Ret)
				continue
			}
			why := e.St.Auto["bad"]
			if why == "" && e.St.Auto["owed"] != "" {
				why = "a compiled suite that never ran"
			}
			anyFocus := false
			if fl := e.St.Vals["final"]; fl != nil {
				if es, ok := x.Elems(e.St, fl); ok {
					for _, s := range es {
						if b, _ := x.FieldOf(e.St, s, "HasProgrammaticFocus").Bool(); b {
							anyFocus = true
						}
					}
				}
			}
			switch {
			case why != "":
				c.Check(code != 0 && code != focus, "status after "+why, e.Pos, e.St.Path(14), "after %s the command exits with status %d", why, code)
			case anyFocus:
				c.Check(code == focus, "status with programmatic focus", e.Pos, e.St.Path(14), "all suites passed and one is focused: the command exits with status %d", code)
			default:
				c.Check(code == 0, "status when everything passed", e.Pos, e.St.Path(14), "all suites passed: the command exits with status %d", code)
			}
		}
	}
	c.Floor(100)
}

// v06aborts: giving up because of an error never reports success.
func v06aborts(c *Ctx) {
	c.Rule("abort-status", "giving up because of an error leaves with a status that is neither 0 nor the focus code, and without an error does not give up")
	_, focus := exitCodes(c)
	for _, name := range []string{"AbortWith", "AbortWithUsage", "AbortIfError", "AbortIfErrors"} {
		fn := c.Fn("ginkgo/command." + name)
		if fn == nil {
			continue
		}
		cond := strings.HasPrefix(name, "AbortIf")
		for _, failing := range []bool{true, false} {
			if !cond && !failing {
				continue
			}
			args := make([]*engine.Val, len(fn.Params))
			var errs *engine.Val
			for i, p := range fn.Params {
				args[i] = engine.ParamSym(p)
				if types.Identical(p.Type(), c.P.ErrorType()) {
					args[i] = engine.Nil(p.Type())
					if failing {
						args[i] = engine.Sym("nonnil:err", p.Type())
					}
					errs = args[i]
				}
				if s, ok := p.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), c.P.ErrorType()) {
					args[i] = engine.SliceAt("errs", 0, p.Type())
					if failing {
						args[i] = engine.SliceAt("errs", 1, p.Type())
					}
					errs = args[i]
				}
			}
			if cond && errs == nil {
				c.Undecided("%s takes no error", name)
				continue
			}
			var x *engine.Interp
			x = engine.New(c.P, engine.Cfg{Root: fn, Args: args, Init: func(st *engine.State) {
				x.Store(st, "errs[0]", engine.Sym("nonnil:err0", c.P.ErrorType()))
			}})
			c.Run(x)
			for _, e := range x.Exits {
				if !failing {
					c.Check(e.Kind == engine.ExitReturn, name+" without an error", e.Pos, e.St.Path(6), "%s gives up although there is no error", name)
					continue
				}
				code, ok := abortCode(x, e)
				c.Check(e.Kind != engine.ExitReturn && (!ok || code != 0 && code != focus), name+" with an error", e.Pos, e.St.Path(6), "%s with an error leaves by %s with status %d", name, e.Kind, code)
			}
		}
	}
	c.Floor(6)
}

// v06exiter: the status the command asks for is the status the process leaves with.
func v06exiter(c *Ctx) {
	c.Rule("status-delivered", "the program leaves with exactly the status the command asked for, and a panic of its own is not turned into success")
	fn := c.Fn("(ginkgo/command.Program).RunAndExit")
	det := c.Type("ginkgo/command", "AbortDetails")
	if fn == nil || det == nil {
		return
	}
	any := types.Universe.Lookup("any").Type()
	var handlers []*ssa.Function
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok {
					handlers = append(handlers, mc.Fn.(*ssa.Function))
				} else if t := d.Call.StaticCallee(); t != nil && c.P.InModule(t) {
					handlers = append(handlers, t)
				}
			}
		}
	}
	n := 0
	for _, h := range handlers {
		for _, sc := range []struct {
			name string
			v    *engine.Val
			want int64
		}{{"no abort", engine.Nil(any), 0}, {"abort 7", engine.Box(engine.Agg(engine.Sym("details", det), map[string]*engine.Val{"ExitCode": engine.IntVal(7, types.Typ[types.Int])}, det), any), 7},
			{"abort 0", engine.Box(engine.Agg(engine.Sym("details", det), map[string]*engine.Val{"ExitCode": engine.IntVal(0, types.Typ[types.Int])}, det), any), 0},
			{"another panic", engine.Box(strVal("boom"), any), -1}} {
			var x *engine.Interp
			x = engine.New(c.P, engine.Cfg{Root: h, Recovered: sc.v,
				Opaque: func(f *ssa.Function) bool {
					n := c.P.CalleeName(f)
					return strings.HasPrefix(n, "formatter.") || strings.HasPrefix(n, "(formatter.") || strings.HasPrefix(n, "ginkgo/internal.") || hasAny(n, "EmitUsage", "GinkgoFlagSet")
				},
				OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
					if k.Fn == nil && k.Recv == nil && k.Com != nil && k.Com.Signature().Params().Len() == 1 && len(k.Args) == 1 && fieldLoaded(c, k.Com.Value) == "ginkgo/command.Program.Exiter" {
						code, ok := k.Args[0].Int()
						n++
						if !ok {
							c.Undecided("status %v not known", k.Args[0])
						} else {
							c.Check(code == sc.want, "status with "+sc.name, k.Pos(), k.St.Path(8), "with %s the program leaves with status %d", sc.name, code)
						}
						k.St.Auto["exit"] = "1"
						return k.Return(engine.Nil(k.T)), true
					}
					return nil, false
				}})
			c.Run(x)
			for _, e := range x.Exits {
				if e.Kind == engine.ExitReturn {
					c.Check(e.St.Auto["exit"] != "", "leaves with "+sc.name, e.Pos, e.St.Path(8), "with %s the program does not set its status", sc.name)
				}
			}
		}
	}
	c.Floor(3)
}
