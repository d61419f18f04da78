package rules

import (
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

// suiteWalk explores runSpecs with its sub-phases abstract.
type suiteWalk struct {
	call      func(k *engine.Call, what string)
	exit      func(x *engine.Interp, e *engine.Exit)
	store     func(x *engine.Interp, st *engine.State, in ssa.Instruction, loc string, old, v *engine.Val)
	branch    func(x *engine.Interp, st *engine.State, in *ssa.If, cond *engine.Val, taken bool)
	facts     func(key string) bool
	more      func(k *engine.Call) ([]engine.Outcome, bool)
	track     func(string) bool
	args      []*engine.Val
	init      func(x *engine.Interp, st *engine.State)
	concrete  func(*ssa.Phi) bool
	atIndices bool                              // interpret the choice of a group's specs
	failed    func(k *engine.Call, what string) // a phase marks the suite failed on this path
}

var suitePhases = map[string]string{
	"(*internal.Suite).runReportSuiteNodesIfNeedBe": "report",
	"(*internal.Suite).runBeforeSuite":              "before",
	"(*internal.Suite).runAfterSuiteCleanup":        "after",
	"(*internal.group).run":                         "group",
}

func suiteRun(c *Ctx, w *suiteWalk) *engine.Interp {
	fn := c.Fn("(*internal.Suite).runSpecs")
	if fn == nil {
		return nil
	}
	pre := suitePrefix(fn)
	succ := pre + ".report.SuiteSucceeded"
	var x *engine.Interp
	cfg := engine.Cfg{Root: fn, Args: w.args, Concrete: w.concrete}
	if w.init != nil {
		cfg.Init = func(st *engine.State) { w.init(x, st) }
	}
	cfg.Track = func(l string) bool {
		return l == succ || l == pre+".report" || (w.track != nil && w.track(l))
	}
	cfg.TrackFact = func(v *engine.Val) bool {
		k := v.Key()
		return strings.Contains(k, "SuiteSucceeded") || (w.facts != nil && w.facts(k))
	}
	bt := c.Type("types", "Report")
	_ = bt
	cfg.OnCall = func(k *engine.Call) ([]engine.Outcome, bool) {
		if w.more != nil {
			if o, ok := w.more(k); ok {
				return o, ok
			}
		}
		what, ok := suitePhases[k.Name]
		if k.Name == "internal.OrderSpecs" || k.Name == "(internal.Specs).AtIndices" && !w.atIndices {
			return k.Return(k.Fresh()), true
		}
		if !ok {
			return nil, false
		}
		if w.call != nil {
			w.call(k, what)
		}
		switch what {
		case "before", "after":
			k.St.Auto[what] += "1"
		case "group":
			k.St.Auto["group"] = "1"
		case "report":
			kn := kindNames(c, k.Args[1])
			k.St.Auto["report:"+kn] += "1"
		}
		// each phase may have failed the suite, or left its state alone
		cur := x.Load(k.St, succ, engine.BoolVal(true).T)
		s2 := k.St.Clone()
		x.Store(s2, succ, engine.BoolVal(false))
		s2.Auto["failed-by"] = what
		if w.failed != nil {
			k2 := *k
			k2.St = s2
			w.failed(&k2, what)
		}
		s2.Note("%s: phase %s marks the suite failed", c.P.RelPos(k.Pos()), what)
		x.Store(k.St, succ, cur)
		ret := engine.Nil(k.T)
		return []engine.Outcome{{St: k.St, Ret: ret}, {St: s2, Ret: ret}}, true
	}
	if w.store != nil {
		cfg.OnStore = w.store
	}
	if w.branch != nil {
		cfg.OnBranch = w.branch
	}
	x = engine.New(c.P, cfg)
	c.Run(x)
	for _, e := range x.Exits {
		if e.Kind != engine.ExitStop && w.exit != nil {
			w.exit(x, e)
		}
	}
	return x
}

// afterSuiteUnconditional: suite teardown considers its nodes whatever the suite's state.
func afterSuiteUnconditional(c *Ctx) {
	fn := c.Fn("(*internal.Suite).runAfterSuiteCleanup")
	if fn == nil {
		return
	}
	no := &nodeOps{c: c}
	ran := map[string]bool{}
	c.Run(engine.New(c.P, engine.Cfg{Root: fn,
		Track:     func(string) bool { return false },
		TrackFact: func(*engine.Val) bool { return false },
		OnBranch: func(x *engine.Interp, st *engine.State, in *ssa.If, cond *engine.Val, taken bool) {
			if hasAny(cond.Key(), "SuiteSucceeded", "skipAll", "currentSpecReport.State") && !strings.Contains(c.P.CalleeName(in.Parent()), "processCurrentSpecReport") && !strings.Contains(c.P.CalleeName(in.Parent()), "runSuiteNode") {
				c.Fail("suite teardown depends on outcome", in.Pos(), nil, "whether suite teardown runs depends on %s", cond.Key())
			}
		},
		Opaque: func(f *ssa.Function) bool {
			n := c.P.CalleeName(f)
			return strings.HasSuffix(n, ".processCurrentSpecReport") || strings.HasSuffix(n, ".runSuiteNode")
		},
		OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			if o, ok := no.call(k); ok {
				return o, ok
			}
			if k.Name == "(*internal.Suite).runSuiteNode" {
				if l, ok := listsIn(k.Args[1].Key()); ok {
					for _, s := range l {
						for _, kn := range strings.Split(s.kinds, "+") {
							ran[kn] = true
						}
					}
				}
			}
			return nil, false
		}}))
	for _, kn := range []string{"AfterSuite", "SynchronizedAfterSuite", "CleanupAfterSuite"} {
		c.Check(ran[kn], "suite teardown runs "+kn, fn.Pos(), nil, "suite teardown never runs %s nodes", kn)
	}
}
