package rules

import (
	"fmt"
	"go/types"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

// groupWalk explores group.run with one attempt, the reporting nodes, the skip decision and the notifications abstract.
type groupWalk struct {
	c      *Ctx
	fn     *ssa.Function
	pre    string // location prefix of the suite
	attErr []engine.EnumMember

	// concrete retry policy; nil leaves the configuration symbolic
	policy *retryPolicy
	dryRun *bool
	skips  []string // outcomes of the skip decision to fork over; nil: every declared one

	event func(k *engine.Call, what string) // announce, before, attempt, after, done, intercept, stop, truncate, event
	exit  func(x *engine.Interp, e *engine.Exit)
	iter  func(x *engine.Interp, st *engine.State, in *ssa.If, taken bool)
	store func(x *engine.Interp, st *engine.State, in ssa.Instruction, loc string, old, v *engine.Val)
	more  func(k *engine.Call) ([]engine.Outcome, bool)
	extra []string // further tracked report fields
	once  bool     // stop at the second spec
}

type retryPolicy struct{ cfgMust, decMust, cfgFlake, decFlake int64 }

func (p retryPolicy) String() string {
	return fmt.Sprintf("must(config %d, decorator %d) flake(config %d, decorator %d)", p.cfgMust, p.decMust, p.cfgFlake, p.decFlake)
}

func (w *groupWalk) state(x *engine.Interp, st *engine.State) string {
	v := x.Load(st, w.pre+locState, w.c.Type("types", "SpecState"))
	if _, ok := v.Int(); !ok {
		return "?" + v.Key()
	}
	return strings.Join(x.DomNames(st, v), "|")
}

func (w *groupWalk) failure(x *engine.Interp, st *engine.State) string {
	return x.Load(st, w.pre+locFailure, w.c.Type("types", "Failure")).Key()
}

func groupRun(c *Ctx, w *groupWalk) *engine.Interp {
	fn := c.Fn("(*internal.group).run")
	if fn == nil {
		return nil
	}
	w.c, w.fn = c, fn
	w.pre = suitePrefix(fn)
	stT, faT := c.Type("types", "SpecState"), c.Type("types", "Failure")
	intT := types.Typ[types.Int]
	attempts := reportStates(c, "SpecStatePending")
	all := reportStates(c)
	var x *engine.Interp
	cfg := engine.Cfg{Root: fn, Budget: 400000}
	cfg.Init = func(st *engine.State) {
		if w.policy != nil {
			x.Store(st, w.pre+".config.MustPassRepeatedly", engine.IntVal(w.policy.cfgMust, intT))
			x.Store(st, w.pre+".config.FlakeAttempts", engine.IntVal(w.policy.cfgFlake, intT))
		}
		if w.dryRun != nil {
			x.Store(st, w.pre+".config.DryRun", engine.BoolVal(*w.dryRun))
		}
	}
	fields := []string{".currentSpecReport", ".currentSpecReport.State", ".currentSpecReport.Failure", ".config.DryRun"}
	if w.policy != nil {
		fields = append(fields, ".currentSpecReport.MaxFlakeAttempts", ".currentSpecReport.MaxMustPassRepeatedly", ".currentSpecReport.NumAttempts", ".config.MustPassRepeatedly", ".config.FlakeAttempts")
	}
	fields = append(fields, w.extra...)
	cfg.Track = func(l string) bool {
		if strings.HasSuffix(l, ".suite") {
			return true
		}
		for _, f := range fields {
			if l == w.pre+f {
				return true
			}
		}
		return false
	}
	if w.policy != nil {
		cfg.Concrete = func(p *ssa.Phi) bool { return p.Comment != "rangeindex" }
	}
	cfg.TrackFact = func(v *engine.Val) bool {
		return strings.Contains(v.Key(), "DryRun") || strings.Contains(v.Key(), locState)
	}
	forkState := func(k *engine.Call, ms []engine.EnumMember, what string, mk func(st *engine.State, m engine.EnumMember) *engine.Val) []engine.Outcome {
		var outs []engine.Outcome
		for _, m := range ms {
			st := k.St.Clone()
			st.Note("%s: %s ends %s", c.P.RelPos(k.Pos()), what, m.Name)
			outs = append(outs, engine.Outcome{St: st, Ret: mk(st, m)})
		}
		return outs
	}
	ev := func(k *engine.Call, what string) {
		if w.event != nil {
			w.event(k, what)
		}
	}
	cfg.OnCall = func(k *engine.Call) ([]engine.Outcome, bool) {
		if w.more != nil {
			if o, ok := w.more(k); ok {
				return o, ok
			}
		}
		n := k.Name
		switch {
		case n == "(*internal.group).evaluateSkipStatus":
			ev(k, "evaluate")
			ms := all
			if w.skips != nil {
				ms = nil
				om := setOf(w.skips)
				for _, m := range all {
					if om[m.Name] {
						ms = append(ms, m)
					}
				}
			}
			outs := forkState(k, ms, "the skip decision", func(st *engine.State, m engine.EnumMember) *engine.Val {
				st.Auto["skip"] = m.Name
				return engine.Tuple(engine.IntVal(m.Val, stT), engine.Sym("failure-of-skip", faT))
			})
			// the undecided state: the spec is going to run
			st := k.St.Clone()
			st.Auto["skip"] = ""
			outs = append(outs, engine.Outcome{St: st, Ret: engine.Tuple(engine.IntVal(0, stT), zeroOf(faT))})
			return outs, true
		case n == "(*internal.group).initialReportForSpec":
			f := map[string]*engine.Val{"State": engine.IntVal(0, stT), "Failure": zeroOf(faT), "NumAttempts": engine.IntVal(0, intT)}
			if w.policy != nil {
				f["MaxFlakeAttempts"] = engine.IntVal(w.policy.decFlake, intT)
				f["MaxMustPassRepeatedly"] = engine.IntVal(w.policy.decMust, intT)
			}
			ev(k, "initial")
			return k.Return(engine.Agg(engine.Sym("initial-report", k.T), f, k.T)), true
		case w.policy != nil && (n == "(internal.Spec).FlakeAttempts" || n == "(internal.Nodes).GetMaxFlakeAttempts"):
			return k.Return(engine.IntVal(w.policy.decFlake, intT)), true
		case w.policy != nil && (n == "(internal.Spec).MustPassRepeatedly" || n == "(internal.Nodes).GetMaxMustPassRepeatedly"):
			return k.Return(engine.IntVal(w.policy.decMust, intT)), true
		case strings.HasSuffix(n, "Reporter.WillRun"):
			ev(k, "announce")
			return k.Return(engine.Nil(k.T)), true
		case n == "(*internal.Suite).reportEach":
			kn := kindNames(c, k.Args[2])
			what := "after"
			if kn == "ReportBeforeEach" {
				what = "before"
			}
			ev(k, what)
			// a reporting node may turn a non-failing spec into a failing one, or abort
			cur := w.state(k.X, k.St)
			outs := []engine.Outcome{{St: k.St.Clone(), Ret: engine.Nil(k.T)}}
			for _, m := range all {
				if (failStates[m.Name] && !failStates[cur]) || m.Name == "SpecStateAborted" {
					if m.Name != "SpecStateFailed" && m.Name != "SpecStateAborted" {
						continue
					}
					st := k.St.Clone()
					st.Note("%s: a %s-each reporting node ends %s", c.P.RelPos(k.Pos()), what, m.Name)
					k.X.Store(st, w.pre+locState, engine.IntVal(m.Val, stT))
					k.X.Store(st, w.pre+locFailure, engine.Sym("failure-of-"+what, faT))
					outs = append(outs, engine.Outcome{St: st, Ret: engine.Nil(k.T)})
				}
			}
			return outs, true
		case n == "(*internal.group).attemptSpec":
			ev(k, "attempt")
			outs := forkState(k, attempts, "attempt", func(st *engine.State, m engine.EnumMember) *engine.Val {
				x.Store(st, w.pre+locState, engine.IntVal(m.Val, stT))
				x.Store(st, w.pre+locFailure, engine.Sym("failure-of-attempt:"+m.Name+st.Auto["n"], faT))
				st.Auto["last"] = m.Name
				return k.Fresh()
			})
			return outs, true
		case n == "(*internal.Suite).processCurrentSpecReport":
			ev(k, "done")
			return k.Return(engine.Nil(k.T)), true
		case strings.HasSuffix(n, ".StartInterceptingOutput") || strings.HasSuffix(n, ".StartInterceptingOutputAndForwardTo"):
			ev(k, "intercept")
			return k.Return(engine.Nil(k.T)), true
		case strings.HasSuffix(n, ".StopInterceptingAndReturnOutput"):
			ev(k, "stop")
			return k.Return(engine.Sym("intercepted", k.T)), true
		case strings.HasSuffix(n, "WriterInterface.Bytes") || strings.HasSuffix(n, "(*internal.Writer).Bytes"):
			ev(k, "bytes")
			return k.Return(engine.Sym("written", k.T)), true
		case strings.HasSuffix(n, "WriterInterface.Truncate") || strings.HasSuffix(n, "(*internal.Writer).Truncate"):
			ev(k, "truncate")
			return k.Return(engine.Nil(k.T)), true
		case n == "(*internal.Suite).handleSpecEvent":
			ev(k, "event")
			return k.Return(k.Fresh()), true
		case n == "internal.runOncePairsForSpec" || n == "(*internal.Suite).failureForLeafNodeWithMessage":
			return k.Return(k.Fresh()), true
		}
		return nil, false
	}
	if w.store != nil {
		cfg.OnStore = w.store
	}
	cfg.OnBranch = func(x *engine.Interp, st *engine.State, in *ssa.If, cond *engine.Val, taken bool) {
		if in.Parent() == fn && w.iter != nil && strings.Contains(cond.Key(), "len(") {
			w.iter(x, st, in, taken)
		}
	}
	x = engine.New(c.P, cfg)
	c.Run(x)
	for _, e := range x.Exits {
		if e.Kind != engine.ExitStop && w.exit != nil {
			w.exit(x, e)
		}
	}
	return x
}

func zeroOf(t types.Type) *engine.Val { return engine.Nil(t) }
