package rules

import (
	"fmt"
	"go/types"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{ID: "V04", Technique: "path-sensitive typestate of the suite verdict over every phase outcome and fail-on setting, plus per-function monotonicity of every writer of the mark",
		Note: "The run of a suite is explored with its phases abstract (each may or may not fail it) over every combination of fail-on flags, spec list shape, interruption and deadline; each phase is explored over every node outcome. Time comparisons involving the deadline are taken from the scenario. Assumes only the runner's goroutine writes the mark.",
		Run:  v04})
}

const succField = "types.Report.SuiteSucceeded"

type v04env struct {
	failPending, failEmpty bool
	specs                  string // one letter per spec: r(uns) s(kipped) p(ending)
	interrupted            bool
	deadline               int // 0 none, 1 not elapsed, 2 elapsed
}

func (e v04env) String() string {
	return fmt.Sprintf("fail-on-pending=%v fail-on-empty=%v specs=%q interrupted=%v deadline=%s", e.failPending, e.failEmpty, e.specs, e.interrupted, []string{"none", "ahead", "elapsed"}[e.deadline])
}

func (e v04env) sources() string {
	var s []string
	if e.failPending && strings.Contains(e.specs, "p") {
		s = append(s, "pending specs under fail-on-pending")
	}
	if e.failEmpty && !strings.Contains(e.specs, "r") {
		s = append(s, "no specs under fail-on-empty")
	}
	if e.interrupted {
		s = append(s, "interrupt")
	}
	if e.deadline == 2 {
		s = append(s, "elapsed suite timeout")
	}
	return strings.Join(s, ", ")
}

// putSpecs stores a concrete list of specs and returns it.
func putSpecs(x *engine.Interp, st *engine.State, letters string, T types.Type) *engine.Val {
	nodesT := T.Underlying().(*types.Slice).Elem().Underlying().(*types.Struct)
	var nt types.Type
	for i := 0; i < nodesT.NumFields(); i++ {
		if nodesT.Field(i).Name() == "Nodes" {
			nt = nodesT.Field(i).Type()
		}
	}
	for i, l := range letters {
		loc := fmt.Sprintf("*specs[%d]", i)
		x.Store(st, loc+".Skip", engine.BoolVal(l != 'r'))
		x.Store(st, loc+".Nodes", engine.SliceAt(fmt.Sprintf("*specsnodes%d", i), 1, nt))
		x.Store(st, fmt.Sprintf("*specsnodes%d[0].MarkedPending", i), engine.BoolVal(l == 'p'))
	}
	return engine.SliceAt("*specs", len(letters), T)
}

// deadlineTime answers time comparisons with the suite deadline from the scenario; ok is false for other calls.
func deadlineTime(c *Ctx, k *engine.Call, deadline int) ([]engine.Outcome, bool) {
	if !strings.HasPrefix(k.Name, "(time.Time).") && !strings.HasPrefix(k.Name, "time.") {
		return nil, false
	}
	at := -1
	for i, a := range k.Args {
		if a != nil && strings.Contains(a.Key(), ".deadline") {
			at = i
		}
	}
	if at < 0 {
		return nil, false
	}
	el := deadline == 2
	switch {
	case k.Name == "(time.Time).IsZero":
		return k.Return(engine.BoolVal(deadline == 0)), true
	case deadline == 0:
		// comparisons with the zero time: now is after it
		el = true
		fallthrough
	default:
		switch k.Name {
		case "(time.Time).After":
			return k.Return(engine.BoolVal(el == (at == 1))), true
		case "(time.Time).Before":
			return k.Return(engine.BoolVal(el == (at == 0))), true
		case "(time.Time).Add", "(time.Time).String":
			return nil, false
		case "(time.Time).Compare":
			if el == (at == 1) {
				return k.Return(engine.IntVal(1, types.Typ[types.Int])), true
			}
			return k.Return(engine.IntVal(-1, types.Typ[types.Int])), true
		}
	}
	c.Undecided("%s: comparison %s with the suite deadline is not modelled", c.P.RelPos(k.Pos()), k.Name)
	k.St.Auto["skip"] = "1"
	return nil, false
}

func v04(c *Ctx) {
	v04run(c)
	v04phases(c)
	v04writers(c)
	v04result(c)
}

func v04run(c *Ctx) {
	c.Rule("run-verdict", "at the end of every path through the run the mark is false exactly when a failure source occurred, and that mark is what the reporters and the caller get")
	fn := c.Fn("(*internal.Suite).runSpecs")
	statusT := c.Type("internal/interrupt_handler", "InterruptStatus")
	if fn == nil || statusT == nil {
		return
	}
	pre := suitePrefix(fn)
	succ := pre + ".report.SuiteSucceeded"
	lvlT := fieldOfType(statusT, "Level")
	if lvlT == nil {
		c.Undecided("interrupt status has no level")
		return
	}
	specParam := -1
	for i, p := range fn.Params {
		if engine.TypeStr(p.Type()) == "internal.Specs" {
			specParam = i
		}
	}
	if specParam < 0 {
		c.Undecided("runSpecs takes no specs")
		return
	}
	var envs []v04env
	for _, fp := range []bool{false, true} {
		for _, fe := range []bool{false, true} {
			for _, sp := range []string{"", "s", "p", "r", "pr", "sr", "rs", "rp", "sp"} {
				envs = append(envs, v04env{failPending: fp, failEmpty: fe, specs: sp, deadline: 1})
			}
		}
	}
	for _, sp := range []string{"r", "p", ""} {
		for d := 0; d < 3; d++ {
			for _, in := range []bool{false, true} {
				envs = append(envs, v04env{specs: sp, interrupted: in, deadline: d})
			}
		}
	}
	for _, env := range envs {
		env := env
		src := env.sources()
		mark := func(st *engine.State, why string) {
			if st.Auto["why"] == "" {
				st.Auto["why"] = why
			}
		}
		args := make([]*engine.Val, len(fn.Params))
		T := fn.Params[specParam].Type()
		args[specParam] = engine.SliceAt("*specs", len(env.specs), T)
		// announced is judged where the end is announced
		announced := func(k *engine.Call, what string) {
			if k.St.Auto["skip"] != "" {
				return
			}
			rep := k.Args[len(k.Args)-1]
			f := k.X.FieldOf(k.St, rep, "SuiteSucceeded")
			b, ok := false, false
			if f != nil {
				b, ok = f.Bool()
			}
			want := k.St.Auto["why"] == "" && src == ""
			if !ok && !want && f != nil && strings.Contains(f.Key(), ".config.") {
				c.Fail(what+" verdict depends on the configuration", k.Pos(), k.St.Path(14), "with %s, %s is given SuiteSucceeded=%v although something failed", env, what, f.Key())
				return
			}
			if !ok {
				c.Undecided("%s: the verdict in the report given to %s is not known", c.P.RelPos(k.Pos()), what)
				return
			}
			// a failing after-suite report node is marked in why as well
			why := k.St.Auto["why"]
			if why == "" {
				why = src
			}
			c.Check(b == want, fmt.Sprintf("%s verdict after %s", what, orNone(why)), k.Pos(), k.St.Path(14), "%s: with %s, %s is given SuiteSucceeded=%v after: %s", c.P.CalleeName(fn), env, what, b, orNone(why))
		}
		w := &suiteWalk{
			args:     args,
			concrete: func(*ssa.Phi) bool { return true },
			init: func(x *engine.Interp, st *engine.State) {
				putSpecs(x, st, env.specs, T)
				x.Store(st, pre+".config.FailOnPending", engine.BoolVal(env.failPending))
				x.Store(st, pre+".config.FailOnEmpty", engine.BoolVal(env.failEmpty))
			},
			track: func(l string) bool {
				return strings.HasPrefix(l, "*specs") || strings.HasPrefix(l, pre+".config.Fail") || strings.Contains(l, "EndTime")
			},
			facts:  func(k string) bool { return strings.Contains(k, "err") },
			failed: func(k *engine.Call, what string) { mark(k.St, "a failing "+what+" phase") },
			more: func(k *engine.Call) ([]engine.Outcome, bool) {
				if o, ok := deadlineTime(c, k, env.deadline); ok {
					return o, true
				}
				switch {
				case strings.HasSuffix(k.Name, ".Status") && engine.TypeStr(k.T) == engine.TypeStr(statusT):
					lv := int64(0)
					if env.interrupted {
						lv = 1
					}
					return k.Return(engine.Agg(k.Fresh(), map[string]*engine.Val{"Level": engine.IntVal(lv, lvlT)}, statusT)), true
				case strings.HasSuffix(k.Name, "Reporter.SuiteDidEnd"):
					announced(k, "SuiteDidEnd")
				case strings.HasSuffix(k.Name, "Client.PostSuiteDidEnd"):
					announced(k, "PostSuiteDidEnd")
				}
				// whatever tells the runner what to run next, or whether the others are done, may fail
				if k.Fn == nil && k.T != nil && !strings.HasSuffix(k.Name, ".Write") && !strings.Contains(k.Name, "Post") {
					if o, ok := forkErr(k); ok {
						mark(o[1].St, "an error from "+k.Name)
						return o, true
					}
				}
				return nil, false
			},
			exit: func(x *engine.Interp, e *engine.Exit) {
				if e.Kind != engine.ExitReturn || e.St.Auto["skip"] != "" {
					return
				}
				want := e.St.Auto["why"] == "" && src == ""
				why := e.St.Auto["why"]
				if why == "" {
					why = src
				}
				v := x.Load(e.St, succ, types.Typ[types.Bool])
				b, ok := v.Bool()
				r, rok := false, false
				if e.Ret != nil {
					r, rok = e.Ret.Bool()
				}
				if ok && e.Ret != nil && strings.Contains(e.Ret.Key(), ".config.") {
					c.Fail("result depends on the configuration", e.Pos, e.St.Path(16), "with %s, the run returns %v while the mark is %v", env, e.Ret, b)
					return
				}
				if !ok || !rok {
					c.Undecided("runSpecs: mark %v / result %v not known at an exit", v, e.Ret)
					return
				}
				c.Check(b == want, "mark at the end after "+orNone(why), e.Pos, e.St.Path(16), "with %s, after %s the suite's mark is %v", env, orNone(why), b)
				c.Check(r == b, "result is the mark", e.Pos, e.St.Path(16), "with %s, after %s the run returns %v while the mark is %v", env, orNone(why), r, b)
			},
		}
		suiteRun(c, w)
	}
	c.Floor(200)
}

func orNone(s string) string {
	if s == "" {
		return "no failure"
	}
	return s
}

// forkErr makes both outcomes of a call whose last result is an error: success first.
func forkErr(k *engine.Call) ([]engine.Outcome, bool) {
	T := k.T
	tup, isTup := T.(*types.Tuple)
	if isTup {
		if tup.Len() == 0 {
			return nil, false
		}
		if engine.TypeStr(tup.At(tup.Len()-1).Type()) != "error" {
			return nil, false
		}
	} else if engine.TypeStr(T) != "error" {
		return nil, false
	}
	s2 := k.St.Clone()
	base := k.Fresh()
	s2.Note("%s: %s fails", k.X.P.RelPos(k.Pos()), k.Name)
	if !isTup {
		return []engine.Outcome{{St: k.St, Ret: engine.Nil(T)}, {St: s2, Ret: engine.Sym("nonnil:"+base.Key(), T)}}, true
	}
	var a, b []*engine.Val
	for i := 0; i < tup.Len(); i++ {
		t := tup.At(i).Type()
		f := engine.Field(base, fmt.Sprint(i), t)
		if i == tup.Len()-1 {
			a, b = append(a, engine.Nil(t)), append(b, engine.Sym("nonnil:"+f.Key(), t))
		} else {
			a, b = append(a, f), append(b, f)
		}
	}
	return []engine.Outcome{{St: k.St, Ret: engine.Tuple(a...)}, {St: s2, Ret: engine.Tuple(b...)}}, true
}

// v04phases: each phase leaves the mark false exactly when it was already or one of its nodes or waits failed.
func v04phases(c *Ctx) {
	c.Rule("phase-verdict", "a phase clears the mark whenever one of its nodes ends in a failing state or a wait for the first process fails, and only then")
	stT := c.Type("types", "SpecState")
	for _, root := range []string{"(*internal.Suite).runBeforeSuite", "(*internal.Suite).runAfterSuiteCleanup", "(*internal.Suite).runReportSuiteNodesIfNeedBe"} {
		fn := c.Fn(root)
		if fn == nil {
			continue
		}
		pre := suitePrefix(fn)
		succ, state := pre+".report.SuiteSucceeded", pre+".currentSpecReport.State"
		no := &nodeOps{c: c}
		for _, entry := range []bool{true, false} {
			entry := entry
			var x *engine.Interp
			x = engine.New(c.P, engine.Cfg{Root: fn,
				Init: func(st *engine.State) { x.Store(st, succ, engine.BoolVal(entry)) },
				Track: func(l string) bool {
					return l == succ || l == state || l == pre+".currentSpecReport"
				},
				TrackFact: func(v *engine.Val) bool {
					return hasAny(v.Key(), "SpecState", "currentSpecReport.State", "err", "Block")
				},
				OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
					if o, ok := no.call(k); ok {
						return o, ok
					}
					switch k.Name {
					case "(*internal.Suite).runSuiteNode", "(*internal.Suite).runReportSuiteNode":
						var outs []engine.Outcome
						for _, s := range reportStates(c, "SpecStatePending") {
							s2 := k.St.Clone()
							x.Store(s2, state, engine.IntVal(s.Val, stT))
							if failStates[s.Name] {
								s2.Auto["why"] = s.Name
							}
							s2.Note("%s: the node ends %s", c.P.RelPos(k.Pos()), s.Name)
							outs = append(outs, engine.Outcome{St: s2, Ret: engine.Nil(k.T)})
						}
						return outs, true
					}
					if strings.Contains(k.Name, "Client.Block") {
						o, ok := forkErr(k)
						if ok {
							o[1].St.Auto["why"] = "an error from " + k.Name[strings.LastIndex(k.Name, ".")+1:]
							if r := o[0].Ret; len(r.Args) == 2 && engine.TypeStr(r.Args[0].T) == "types.SpecState" {
								// process one announced its outcome
								var outs []engine.Outcome
								for _, s := range reportStates(c, "SpecStatePending") {
									if s.Name != "SpecStatePassed" && s.Name != "SpecStateFailed" {
										continue // the only announcements made
									}
									s2 := o[0].St.Clone()
									if s.Name == "SpecStateFailed" {
										s2.Auto["why"] = "process one's failure"
									}
									outs = append(outs, engine.Outcome{St: s2, Ret: engine.Tuple(engine.IntVal(s.Val, stT), engine.Nil(r.Args[1].T))})
								}
								return append(outs, o[1]), true
							}
							return o, true
						}
					}
					return nil, false
				}})
			c.Run(x)
			for _, e := range x.Exits {
				if e.Kind != engine.ExitReturn {
					continue
				}
				why := e.St.Auto["why"]
				b, ok := x.Load(e.St, succ, types.Typ[types.Bool]).Bool()
				short := root[len("(*internal.Suite)."):]
				if !ok {
					c.Undecided("%s: mark not known at an exit", short)
					continue
				}
				want := entry && why == ""
				c.Check(b == want, fmt.Sprintf("%s from %v after %s", short, entry, orNone(why)), e.Pos, e.St.Path(12), "%s entered with the mark %v: after %s the mark is %v", short, entry, orNone(why), b)
			}
		}
	}
	// the shared end-of-spec step, over every state
	if fn := c.Fn("(*internal.Suite).processCurrentSpecReport"); fn != nil {
		pre := suitePrefix(fn)
		succ, state := pre+".report.SuiteSucceeded", pre+".currentSpecReport.State"
		for _, s := range reportStates(c) {
			for _, entry := range []bool{true, false} {
				var x *engine.Interp
				x = engine.New(c.P, engine.Cfg{Root: fn, Init: func(st *engine.State) {
					x.Store(st, succ, engine.BoolVal(entry))
					x.Store(st, state, engine.IntVal(s.Val, stT))
				}})
				c.Run(x)
				for _, e := range x.Exits {
					if e.Kind != engine.ExitReturn {
						continue
					}
					b, ok := x.Load(e.St, succ, types.Typ[types.Bool]).Bool()
					if !ok {
						c.Undecided("processCurrentSpecReport: mark not known for %s", s.Name)
						continue
					}
					want := entry && !failStates[s.Name]
					c.Check(b == want, fmt.Sprintf("processCurrentSpecReport %s from %v", s.Name, entry), e.Pos, e.St.Path(8), "a spec ending %s turns the mark from %v to %v", s.Name, entry, b)
				}
			}
		}
	}
	c.Floor(40)
}

// v04writers: no function that writes the mark turns it back to true.
func v04writers(c *Ctx) {
	c.Rule("mark-never-restored", "every function of the runner that writes the mark leaves it false when it was false")
	root := c.P.Func("(*internal.Suite).runSpecs")
	if root == nil {
		return
	}
	grp := c.P.Func("(*internal.group).run")
	fns := c.P.Reach(root, nil)
	if grp != nil {
		fns = append(fns, c.P.Reach(grp, nil)...)
	}
	done := map[*ssa.Store]bool{}
	for _, s := range c.P.FieldStores(fns, succField) {
		fn := s.Parent()
		if done[s] || fn == root || fn.Pkg == nil || !strings.HasSuffix(fn.Pkg.Pkg.Path(), "/internal") {
			continue
		}
		done[s] = true
		name := c.P.CalleeName(fn)
		if k, ok := s.Val.(*ssa.Const); ok {
			c.Check(k.Value != nil && k.Value.String() == "false", name+" writes the mark", s.Pos(), nil, "%s sets the suite's mark back to succeeded", name)
			continue
		}
		if _, isParam := s.Val.(*ssa.Parameter); !isParam { // a parameter is decided where it is called: the explored phases inline it
			c.Undecided("%s writes a computed mark", name)
		}
	}
	c.Floor(2)
}

// v04result: the run hands its caller the verdict of runSpecs.
func v04result(c *Ctx) {
	c.Rule("run-result", "the suite's Run returns the verdict of its specs")
	fn := c.Fn("(*internal.Suite).Run")
	if fn == nil {
		return
	}
	x := engine.New(c.P, engine.Cfg{Root: fn,
		Track:     func(l string) bool { return false },
		TrackFact: func(*engine.Val) bool { return false },
		Opaque:    func(f *ssa.Function) bool { return f.Name() != "runSpecs" },
		OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			if k.Name == "(*internal.Suite).runSpecs" {
				s2 := k.St.Clone()
				k.St.Auto["v"], s2.Auto["v"] = "true", "false"
				return []engine.Outcome{{St: k.St, Ret: engine.BoolVal(true)}, {St: s2, Ret: engine.BoolVal(false)}}, true
			}
			return nil, false
		}})
	c.Run(x)
	for _, e := range x.Exits {
		if e.Kind != engine.ExitReturn || e.Ret == nil || len(e.Ret.Args) == 0 {
			continue
		}
		b, ok := e.Ret.Args[0].Bool()
		if !ok || e.St.Auto["v"] == "" {
			c.Fail("result", e.Pos, e.St.Path(8), "Run returns %v, not the verdict of its specs", e.Ret.Args[0])
			continue
		}
		c.Check(fmt.Sprint(b) == e.St.Auto["v"], "result "+e.St.Auto["v"], e.Pos, e.St.Path(8), "Run returns %v when its specs ended %s", b, e.St.Auto["v"])
	}
	c.Floor(2)
}
