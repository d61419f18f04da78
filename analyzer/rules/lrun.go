package rules

import (
	"fmt"
	"go/types"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{ID: "L01", Technique: "typestate automaton over every path of the per-spec and per-suite-node lifecycle (path-sensitive, interprocedural)",
		Note: "Announce, reporting nodes, attempts, finish and store are events of one automaton explored on every path for every skip decision and outcome; iterations of the spec loop without an announcement are violations. Assumes the reporter and client interfaces return.",
		Run:  l01})
	register(&Def{ID: "L06", Technique: "abstract interpretation of the attempt loop, forking over every outcome of every attempt, against the documented policy for a grid of retry settings",
		Note: "Retry settings range over all combinations of 0, 1 and 3 from configuration and decorators (0, 1, 2, 4 too in the thorough tier); all outcome sequences are explored. Larger counts are not enumerated.",
		Run:  l06})
	register(&Def{ID: "L07", Technique: "decision-table extraction (path conditions of the skip decision) plus typestate: no attempt under a skipping decision or dry run",
		Note: "Every path of the skip decision is classified by the conditions it established; every path of the per-spec run is explored under every decision. Assumes the deadline is compared with the current time by time.Time methods.",
		Run:  l07})
	register(&Def{ID: "L08", Technique: "typestate automaton over the per-spec run and the suite run; value-flow of the record handed to reporting nodes",
		Note: "Reporting phases are reached on every path for every spec and suite outcome; the record handed to each node is the one current when it starts; the aggregated report is what after-suite reporting receives in parallel. Interrupt levels are decided under C02.",
		Run:  l08})
}

func l01(c *Ctx) {
	l01identity(c)
	c.Rule("spec-lifecycle", "per spec: announced once, then before-reporting, then attempts, then after-reporting, then finished once; every iteration over the specs announces its spec")
	l01spec(c)
	c.Floor(30)
	c.Rule("finish", "finishing notifies the reporter once with the current record, sends the same record to the server when parallel, and appends the same record to the suite report once")
	l01finish(c)
	c.Floor(4)
	c.Rule("suite-node-lifecycle", "every suite-level node that runs is announced once before and finished once after, with nothing else in between")
	for _, r := range []string{"(*internal.Suite).runBeforeSuite", "(*internal.Suite).runAfterSuiteCleanup", "(*internal.Suite).runReportSuiteNodesIfNeedBe"} {
		suiteNodeLifecycle(c, r)
	}
	c.Floor(9)
	c.Rule("report-once", "the suite's beginning is announced once before anything runs and its end once after everything ran")
	l01suite(c)
	c.Floor(3)
}

func l01spec(c *Ctx) {
	bad := map[*ssa.If]bool{}
	good := map[*ssa.If]bool{}
	w := &groupWalk{}
	exp := map[string][]string{
		"announce": {"", "done"},
		"before":   {"announced"},
		"attempt":  {"before", "attempt"},
		"after":    {"before", "attempt"},
		"done":     {"after"},
	}
	next := map[string]string{"announce": "announced", "before": "before", "attempt": "attempt", "after": "after", "done": "done"}
	w.event = func(k *engine.Call, what string) {
		e, ok := exp[what]
		if !ok {
			return
		}
		ph := k.St.Auto["ph"]
		good := false
		for _, p := range e {
			good = good || p == ph
		}
		c.Check(good, fmt.Sprintf("spec event %s in phase %q (decision %s)", what, ph, k.St.Auto["skip"]), k.Pos(), k.St.Path(12), "%s happens after %q; expected after one of %q", what, ph, e)
		k.St.Auto["ph"] = next[what]
		if what == "announce" {
			for h := range k.St.Auto {
				if strings.HasPrefix(h, "it:") {
					k.St.Auto[h] = "announced"
				}
			}
			key := k.Args[len(k.Args)-1].Key()
			c.Check(strings.Contains(key, "currentSpecReport") || strings.Contains(key, "initial-report"), "announced record", k.Pos(), nil, "the record announced is %s, not the current spec's", key)
		}
	}
	ids := map[string]*ssa.If{}
	w.iter = func(x *engine.Interp, st *engine.State, in *ssa.If, taken bool) {
		id := fmt.Sprintf("it:%d", in.Block().Index)
		ids[id] = in
		switch st.Auto[id] {
		case "open":
			bad[in] = true
		case "announced":
			good[in] = true
		}
		if taken {
			st.Auto[id] = "open"
		} else {
			delete(st.Auto, id)
		}
	}
	w.exit = func(x *engine.Interp, e *engine.Exit) {
		if e.Kind == engine.ExitReturn {
			ph := e.St.Auto["ph"]
			c.Check(ph == "" || ph == "done", "run ends after "+ph, e.Pos, e.St.Path(12), "the run of a group ends with a spec in phase %q", ph)
		}
	}
	groupRun(c, w)
	for in := range good {
		c.Check(!bad[in], "every spec of the group is announced", in.Pos(), nil, "an iteration over the group's specs ends without announcing its spec")
	}
}

func l01finish(c *Ctx) {
	fn := c.Fn("(*internal.Suite).processCurrentSpecReport")
	if fn == nil {
		return
	}
	pre := suitePrefix(fn)
	par := engine.BoolVal(false)
	x := c.Run(engine.New(c.P, engine.Cfg{Root: fn,
		Track: func(l string) bool {
			return l == pre+".currentSpecReport" || strings.HasPrefix(l, pre+".currentSpecReport.")
		},
		OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			what := ""
			switch {
			case strings.HasSuffix(k.Name, "Reporter.DidRun"):
				what = "didrun"
			case strings.HasSuffix(k.Name, "Client.PostDidRun"):
				what = "post"
			case k.Name == "(*internal.Suite).isRunningInParallel":
				var outs []engine.Outcome
				for _, b := range []bool{true, false} {
					st := k.St.Clone()
					if p := st.Auto["par"]; p != "" && p != fmt.Sprint(b) {
						continue
					}
					st.Auto["par"] = fmt.Sprint(b)
					outs = append(outs, engine.Outcome{St: st, Ret: engine.BoolVal(b)})
				}
				return outs, true
			default:
				return nil, false
			}
			k.St.Auto[what] += "1"
			key := k.Args[len(k.Args)-1].Key()
			c.Check(key == pre+".currentSpecReport", what+" record", k.Pos(), k.St.Path(6), "the record sent by %s is %s, not the current spec's record", what, key)
			return k.Return(k.Fresh()), true
		},
		OnStore: func(x *engine.Interp, st *engine.State, in ssa.Instruction, loc string, old, v *engine.Val) {
			if strings.HasSuffix(loc, ".report.SpecReports") {
				st.Auto["append"] += "1"
				k := v.Key()
				c.Check(strings.Contains(k, "currentSpecReport") && strings.Contains(k, "SpecReports"), "appended record", in.Pos(), st.Path(6), "what joins the suite report is %s", k)
			}
			if strings.HasPrefix(loc, pre+".currentSpecReport") {
				c.Fail("record changed while finishing", in.Pos(), st.Path(6), "%s is changed while the spec is being finished", loc)
			}
		}}))
	_ = par
	for _, e := range x.Exits {
		a := e.St.Auto
		c.Check(a["didrun"] == "1", "finish notifies once", e.Pos, e.St.Path(8), "the reporter is notified %d times", len(a["didrun"]))
		c.Check(a["append"] == "1", "finish appends once", e.Pos, e.St.Path(8), "the record joins the suite report %d times", len(a["append"]))
		if a["par"] != "" {
			want := map[string]string{"true": "1", "false": ""}[a["par"]]
			c.Check(a["post"] == want, "finish posts iff parallel="+a["par"], e.Pos, e.St.Path(8), "parallel=%s but the record is posted %d times", a["par"], len(a["post"]))
		}
	}
}

func suiteNodeLifecycle(c *Ctx, root string) {
	fn := c.Fn(root)
	if fn == nil {
		return
	}
	ran := false
	short := root[strings.LastIndex(root, ".")+1:]
	x := engine.New(c.P, engine.Cfg{Root: fn,
		Track:     func(l string) bool { return false },
		TrackFact: func(v *engine.Val) bool { return false },
		OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			ph := k.St.Auto["ph"]
			id := short + " after " + ph
			switch {
			case strings.HasSuffix(k.Name, "Reporter.WillRun"):
				c.Check(ph == "" || ph == "done", "announce in "+id, k.Pos(), k.St.Path(8), "a suite node is announced in phase %q", ph)
				k.St.Auto["ph"] = "announced"
			case k.Name == "(*internal.Suite).runSuiteNode" || k.Name == "(*internal.Suite).runReportSuiteNode":
				ran = true
				c.Check(ph == "announced", "run in "+id, k.Pos(), k.St.Path(8), "a suite node runs in phase %q, not right after its announcement", ph)
				k.St.Auto["ph"] = "ran"
			case k.Name == "(*internal.Suite).processCurrentSpecReport":
				c.Check(ph == "ran", "finish in "+id, k.Pos(), k.St.Path(8), "a suite node is finished in phase %q", ph)
				k.St.Auto["ph"] = "done"
			default:
				return nil, false
			}
			return k.Return(engine.Nil(k.T)), true
		}})
	c.Run(x)
	for _, e := range x.Exits {
		c.Check(e.St.Auto["ph"] == "" || e.St.Auto["ph"] == "done", short+" ends after "+e.St.Auto["ph"], e.Pos, e.St.Path(8), "%s ends with a node in phase %q", short, e.St.Auto["ph"])
	}
	c.Check(ran, short+" runs its node", fn.Pos(), nil, "%s never runs a node", short)
}

func l01suite(c *Ctx) {
	w := &suiteWalk{}
	w.more = func(k *engine.Call) ([]engine.Outcome, bool) {
		switch {
		case strings.HasSuffix(k.Name, "Reporter.SuiteWillBegin"):
			c.Check(k.St.Auto["begun"] == "", "begin once", k.Pos(), k.St.Path(8), "the suite's beginning is announced twice")
			k.St.Auto["begun"] = "1"
			return k.Return(engine.Nil(k.T)), true
		case strings.HasSuffix(k.Name, "Reporter.SuiteDidEnd"):
			c.Check(k.St.Auto["ended"] == "", "end once", k.Pos(), k.St.Path(8), "the suite's end is announced twice")
			k.St.Auto["ended"] = "1"
			return k.Return(engine.Nil(k.T)), true
		}
		return nil, false
	}
	w.call = func(k *engine.Call, what string) {
		c.Check(k.St.Auto["begun"] == "1", "begin before "+what, k.Pos(), k.St.Path(8), "%s runs before the suite's beginning is announced", what)
		c.Check(k.St.Auto["ended"] == "", "no "+what+" after end", k.Pos(), k.St.Path(8), "%s runs after the suite's end is announced", what)
	}
	w.exit = func(x *engine.Interp, e *engine.Exit) {
		if e.Kind == engine.ExitReturn {
			c.Check(e.St.Auto["ended"] == "1" && e.St.Auto["begun"] == "1", "begin and end announced", e.Pos, e.St.Path(10), "the run returns without announcing the suite's beginning and end")
		}
	}
	suiteRun(c, w)
}

// ---- L06

func (p retryPolicy) limits() (mode string, n int) {
	switch {
	case p.cfgMust > 0:
		return "must", int(p.cfgMust)
	case p.decMust > 0:
		return "must", int(p.decMust)
	case p.cfgFlake > 0:
		return "flake", int(p.cfgFlake)
	case p.decFlake > 0:
		return "flake", int(p.decFlake)
	}
	return "once", 1
}

func (p retryPolicy) again(n int, last string) bool {
	mode, max := p.limits()
	if n == 0 {
		return true
	}
	if n >= max {
		return false
	}
	switch mode {
	case "must":
		return last == "SpecStatePassed"
	case "flake":
		return last == "SpecStateFailed" || last == "SpecStatePanicked" || last == "SpecStateTimedout"
	}
	return false
}

func l06(c *Ctx) {
	c.Rule("attempts", "another attempt is made exactly when the policy says so; each is told whether it is the final one; the attempt count, retry/repeat events and kept failures match; the verdict is the last attempt's")
	vals := []int64{0, 1, 3}
	if c.Tier == "thorough" {
		vals = []int64{0, 1, 2, 4}
	}
	for _, cm := range vals {
		for _, dm := range vals {
			for _, cf := range vals {
				for _, df := range vals {
					l06one(c, retryPolicy{cm, dm, cf, df})
				}
			}
		}
	}
	c.Floor(500)
	c.Rule("innermost", "the attempt limits taken from the nodes are the innermost positive ones, also in the spec's report")
	for _, name := range []string{"(internal.Spec).FlakeAttempts", "(internal.Spec).MustPassRepeatedly", "(internal.Nodes).GetMaxFlakeAttempts", "(internal.Nodes).GetMaxMustPassRepeatedly"} {
		lastPositive(c, name)
	}
	c.Floor(4)
}

func l06one(c *Ctx, p retryPolicy) {
	w := &groupWalk{policy: &p, skips: []string{}}
	f := false
	w.dryRun = &f
	mode, max := p.limits()
	num := func(st *engine.State) int { return len(st.Auto["n"]) }
	evRepeat, evRetry := c.ConstVal("types", "SpecEventSpecRepeat"), c.ConstVal("types", "SpecEventSpecRetry")
	w.event = func(k *engine.Call, what string) {
		st := k.St
		n := num(st)
		switch what {
		case "initial":
			for _, a := range []string{"n", "last", "kept", "ev"} {
				st.Auto[a] = ""
			}
		case "attempt":
			c.Check(p.again(n, st.Auto["last"]), fmt.Sprintf("%s %d: attempt %d after %s", mode, max, n+1, st.Auto["last"]), k.Pos(), st.Path(12), "policy %s: attempt %d is made although the previous one ended %s", p, n+1, st.Auto["last"])
			fin, ok := k.Args[1].Bool()
			if ok {
				c.Check(fin == (n+1 >= max), fmt.Sprintf("%s %d: attempt %d final flag", mode, max, n+1), k.Pos(), st.Path(12), "policy %s: attempt %d of %d is told final=%v", p, n+1, max, fin)
			} else {
				c.Undecided("final flag %s", k.Args[1].Key())
			}
			na, _ := k.X.Load(st, w.pre+".currentSpecReport.NumAttempts", k.T).Int()
			c.Check(int(na) == n+1, fmt.Sprintf("%s %d: attempt %d count", mode, max, n+1), k.Pos(), st.Path(12), "policy %s: during attempt %d the record says %d", p, n+1, na)
			if n > 0 {
				want := map[string]string{"must": "repeat", "flake": "retry"}[mode]
				c.Check(st.Auto["ev"] == want, fmt.Sprintf("%s %d: event before attempt %d", mode, max, n+1), k.Pos(), st.Path(12), "policy %s: attempt %d is preceded by events %q, want %q", p, n+1, st.Auto["ev"], want)
				if mode == "flake" {
					c.Check(st.Auto["kept"] == "1", fmt.Sprintf("%s %d: failure of attempt %d kept", mode, max, n), k.Pos(), st.Path(12), "policy %s: the failure of attempt %d is kept %d times as an additional failure", p, n, len(st.Auto["kept"]))
				}
			}
			st.Auto["n"] += "i"
			st.Auto["ev"], st.Auto["kept"] = "", ""
		case "event":
			key := k.Args[1].Key()
			if strings.Contains(key, "SpecEventType="+fmt.Sprint(evRepeat)) {
				st.Auto["ev"] += "repeat"
			} else if strings.Contains(key, "SpecEventType="+fmt.Sprint(evRetry)) {
				st.Auto["ev"] += "retry"
			} else {
				st.Auto["ev"] += "?"
			}
		case "after":
			if n == 0 {
				if failStates[w.state(k.X, st)] {
					return // a before-reporting node failed
				}
				c.Fail("no attempt", k.Pos(), st.Path(12), "policy %s: a spec that is to run gets no attempt", p)
				return
			}
			last := st.Auto["last"]
			c.Check(!p.again(n, last), fmt.Sprintf("%s %d: stops after attempt %d ended %s", mode, max, n, last), k.Pos(), st.Path(12), "policy %s: no further attempt after attempt %d ended %s", p, n, last)
			c.Check(w.state(k.X, st) == last, fmt.Sprintf("%s %d: verdict %s", mode, max, last), k.Pos(), st.Path(12), "policy %s: the verdict is %s, the last attempt ended %s", p, w.state(k.X, st), last)
			c.Check(st.Auto["kept"] == "", fmt.Sprintf("%s %d: last attempt's failure not duplicated", mode, max), k.Pos(), st.Path(12), "policy %s: the last attempt's failure is also kept as an additional failure", p)
		}
	}
	w.store = func(x *engine.Interp, st *engine.State, in ssa.Instruction, loc string, old, v *engine.Val) {
		if strings.HasSuffix(loc, ".currentSpecReport.AdditionalFailures") {
			k := v.Key()
			if strings.Contains(k, "failure-of-attempt:"+st.Auto["last"]+st.Auto["n"]) && strings.Contains(k, "AdditionalFailures") {
				st.Auto["kept"] += "1"
			} else {
				st.Auto["kept"] += "?"
			}
		}
		if strings.HasSuffix(loc, ".currentSpecReport.CapturedGinkgoWriterOutput") || strings.HasSuffix(loc, ".currentSpecReport.CapturedStdOutErr") {
			f := loc[strings.LastIndex(loc, ".")+1:]
			k := v.Key()
			c.Check(strings.Contains(k, f) || !strings.Contains(k, "ritten") && !strings.Contains(k, "intercepted"), "output of all attempts kept: "+f, in.Pos(), st.Path(8), "%s is overwritten with %s: the output of earlier attempts is lost", f, k)
		}
	}
	groupRun(c, w)
}

// lastPositive: over two nodes with every combination of values, the result is the second's if positive, else the first's.
func lastPositive(c *Ctx, name string) {
	fn := c.Fn(name)
	if fn == nil {
		return
	}
	field := "FlakeAttempts"
	if strings.Contains(name, "MustPass") {
		field = "MustPassRepeatedly"
	}
	other := map[string]string{"FlakeAttempts": "MustPassRepeatedly", "MustPassRepeatedly": "FlakeAttempts"}[field]
	list := fn.Params[0].Name()
	if strings.Contains(name, "Spec)") {
		list += ".Nodes"
	}
	intT := engine.IntVal(0, nil).T
	for a := int64(0); a <= 3; a++ {
		for b := int64(0); b <= 3; b++ {
			var x *engine.Interp
			x = engine.New(c.P, engine.Cfg{Root: fn,
				Init: func(st *engine.State) {
					for i, v := range []int64{a, b} {
						x.Store(st, fmt.Sprintf("*%s[%d].%s", list, i, field), engine.IntVal(v, intT))
						x.Store(st, fmt.Sprintf("*%s[%d].%s", list, i, other), engine.IntVal(7, intT))
					}
				},
				Concrete: func(*ssa.Phi) bool { return true },
				OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
					if k.Name == "builtin:len" && k.Args[0].Key() == list {
						return k.Return(engine.IntVal(2, k.T)), true
					}
					return nil, false
				}})
			c.Run(x)
			want := a
			if b > 0 {
				want = b
			}
			for _, e := range x.Exits {
				n, ok := int64(0), false
				if e.Ret != nil {
					n, ok = e.Ret.Int()
				}
				if !ok {
					c.Undecided("%s over (%d,%d) returns %v", name, a, b, e.Ret)
					continue
				}
				c.Check(n == want, fmt.Sprintf("%s over outer %d inner %d", name, a, b), fn.Pos(), nil, "%s of an outer node with %d and an inner node with %d is %d, want %d", name, a, b, n, want)
			}
		}
	}
}

// ---- L07

func l07(c *Ctx) {
	c.Rule("skip-decision", "a spec is decided pending, skipped, passed (dry run) or to be run exactly under the documented conditions, in that precedence")
	skipDecision(c)
	c.Floor(10)

	c.Rule("no-attempt", "no attempt is made after a pending, skipped or passed decision, after a failing before-reporting node, or in a dry run; the decision stands as the verdict; otherwise an attempt is made")
	for _, dry := range []bool{true, false} {
		dry := dry
		w := &groupWalk{dryRun: &dry, policy: &retryPolicy{}}
		w.event = func(k *engine.Call, what string) {
			st := k.St
			cur := w.state(k.X, st)
			id := fmt.Sprintf("dryrun=%v decision %s state %s", dry, st.Auto["skip"], cur)
			switch what {
			case "evaluate":
				st.Auto["att"] = ""
				st.Auto["st0"] = ""
			case "before":
				st.Auto["st0"] = cur
				if st.Auto["skip"] != "" {
					c.Check(cur == st.Auto["skip"], "decision recorded: "+st.Auto["skip"], k.Pos(), st.Path(8), "the decision %s is recorded as %s", st.Auto["skip"], cur)
				}
			case "attempt":
				if st.Auto["att"] == "" {
					bad := dry || cur == "SpecStateSkipped" || cur == "SpecStatePending" || failStates[cur]
					c.Check(!bad, "no attempt: "+id, k.Pos(), st.Path(10), "%s: an attempt is made", id)
				}
				st.Auto["att"] = "1"
			case "after":
				if st.Auto["att"] == "" {
					must := !dry && st.Auto["skip"] == "" && (cur == "SpecStateInvalid" || cur == "INVALID SPEC STATE" || cur == "0")
					c.Check(!must, "attempt made: "+id, k.Pos(), st.Path(10), "%s: the spec should run but no attempt is made", id)
				}
			}
		}
		groupRun(c, w)
	}
	c.Floor(30)

	c.Rule("fail-fast", "an aborted spec, or any failing one with fail-fast, makes every later spec of this process skipped and, in parallel, tells the others; nothing else does")
	failFast(c)
	c.Floor(4)

	c.Rule("dry-run-suite-nodes", "in a dry run no suite-level setup or teardown node runs")
	if fn := c.Fn("(*internal.Suite).runSuiteNode"); fn != nil {
		pre := suitePrefix(fn)
		var x *engine.Interp
		x = engine.New(c.P, engine.Cfg{Root: fn,
			Init: func(st *engine.State) { x.Store(st, pre+".config.DryRun", engine.BoolVal(true)) },
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				if k.Name == "(*internal.Suite).runNode" {
					c.Fail("suite node in dry run", k.Pos(), k.St.Path(8), "a suite-level node runs in a dry run")
					return k.Return(k.Fresh()), true
				}
				return nil, false
			}})
		c.Run(x)
		for _, e := range x.Exits {
			s := x.DomNames(e.St, x.Load(e.St, pre+locState, c.Type("types", "SpecState")))
			c.Check(len(s) == 1 && s[0] == "SpecStatePassed", "dry-run suite node passes", e.Pos, e.St.Path(6), "a suite node is reported %v in a dry run", s)
		}
	}
	c.Floor(1)
}

func skipDecision(c *Ctx) {
	fn := c.Fn("(*internal.group).evaluateSkipStatus")
	if fn == nil {
		return
	}
	recv := fn.Params[0].Name()
	spec := fn.Params[1].Name()
	sfx := suitePrefix(fn)
	fork := func(k *engine.Call, id string) ([]engine.Outcome, bool) {
		if v := k.St.Auto[id]; v != "" {
			return k.Return(engine.BoolVal(v == "t")), true
		}
		a, b := k.St.Clone(), k.St.Clone()
		a.Auto[id], b.Auto[id] = "t", "f"
		a.Note("%s: %s", c.P.RelPos(k.Pos()), id)
		return []engine.Outcome{{St: a, Ret: engine.BoolVal(true)}, {St: b, Ret: engine.BoolVal(false)}}, true
	}
	isDeadline := func(v *engine.Val) bool { return strings.Contains(v.Key(), ".deadline") }
	x := c.Run(engine.New(c.P, engine.Cfg{Root: fn,
		OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			switch {
			case k.Name == "(internal.Nodes).HasNodeMarkedPending":
				return fork(k, "pending")
			case strings.HasSuffix(k.Name, "InterruptStatus).Interrupted"):
				return fork(k, "interrupted")
			case k.Name == "(time.Time).IsZero" && isDeadline(k.Args[0]):
				return fork(k, "nodeadline")
			case k.Name == "(time.Time).Before" && isDeadline(k.Args[0]), k.Name == "(time.Time).After" && isDeadline(k.Args[1]):
				return fork(k, "late")
			case k.Name == "(*internal.Suite).failureForLeafNodeWithMessage":
				return k.Return(k.Fresh()), true
			case k.Name == "(types.SpecState).Is" && strings.Contains(k.Args[0].Key(), "runOnceTracker"):
				st := c.ConstVal("types", "SpecStateSkipped").Key()
				if k.Args[1].Key() == st {
					a, b := k.St.Clone(), k.St.Clone()
					a.Auto["pairskipped"] = "t"
					return []engine.Outcome{{St: a, Ret: engine.BoolVal(true)}, {St: b, Ret: engine.BoolVal(false)}}, true
				}
			}
			return nil, false
		}}))
	// what an earlier spec of the same ordered container does to this one is decided on traces by L05: here those
	// conditions only justify a skip
	group := map[string]bool{"earlier spec failed": true, "run-once setup failed (continuing)": true, "run-once setup skipped": true}
	for f, t := range map[string]types.Type{"Skip": c.Type("internal", "Spec"), "skipAll": c.Type("internal", "Suite"), "deadline": c.Type("internal", "Suite")} {
		if t != nil && fieldOfType(t, f) == nil {
			c.Undecided("field %s of %s", f, t)
			return
		}
	}
	for _, e := range x.Exits {
		if e.Kind != engine.ExitReturn || e.Ret == nil || len(e.Ret.Args) != 2 {
			continue
		}
		fact := func(key string) string {
			if v, ok := e.St.FactBool(key); ok {
				if v {
					return "t"
				}
				return "f"
			}
			return ""
		}
		and := func(a, b string) string {
			if a == "f" || b == "f" {
				return "f"
			}
			if a == "t" && b == "t" {
				return "t"
			}
			return ""
		}
		not := func(a string) string { return map[string]string{"t": "f", "f": "t"}[a] }
		g := "*" + recv
		a := e.St.Auto
		pend := a["pending"]
		late := and(not(a["nodeadline"]), a["late"])
		if a["nodeadline"] == "" && a["late"] != "" {
			late = a["late"]
		}
		ps := a["pairskipped"]
		if ps == "" {
			ps = "f"
		}
		conds := map[string]string{
			"deselected":                         fact(spec + ".Skip"),
			"interrupted":                        a["interrupted"],
			"skip-all":                           fact(sfx + ".skipAll"),
			"deadline passed":                    late,
			"earlier spec failed":                and(not(fact(g+".succeeded")), not(fact(g+".continueOnFailure"))),
			"run-once setup failed (continuing)": and(fact(g+".failedInARunOnceBefore"), fact(g+".continueOnFailure")),
			"run-once setup skipped":             ps,
		}
		res := "current"
		if _, ok := e.Ret.Args[0].Int(); ok {
			res = strings.Join(x.DomNames(e.St, e.Ret.Args[0]), "|")
		}
		trueC, unknown := "", ""
		for _, k := range sortedKeys(conds) {
			switch conds[k] {
			case "t":
				if trueC == "" || group[trueC] {
					trueC = k
				}
			case "":
				if !group[k] {
					unknown = k
				}
			}
		}
		dry := fact(sfx + ".config.DryRun")
		id := fmt.Sprintf("decision %s pending=%s true=%s dry=%s", res, pend, trueC, dry)
		path := e.St.Path(12)
		switch {
		case res == "SpecStatePending":
			c.Check(pend == "t", id, e.Pos, path, "a spec is decided pending although none of its nodes is marked pending (facts %v)", e.St.Facts())
		case pend == "t":
			c.Fail(id, e.Pos, path, "a pending spec is decided %s", res)
		case res == "SpecStateSkipped":
			c.Check(pend == "f", id+" pending first", e.Pos, path, "a spec is decided skipped before knowing whether it is pending")
			c.Check(trueC != "", id, e.Pos, path, "a spec is decided skipped although no skip condition holds (facts %v)", e.St.Facts())
		case trueC != "" && !group[trueC]:
			c.Fail(id, e.Pos, path, "a spec is decided %s although: %s", res, trueC)
		case unknown != "":
			c.Fail(id+" without "+unknown, e.Pos, path, "a spec is decided %s without considering whether: %s", res, unknown)
		case res == "SpecStatePassed":
			c.Check(dry == "t", id, e.Pos, path, "a spec is decided passed outside a dry run")
		default:
			c.Check(dry == "f", id, e.Pos, path, "a spec is to be run in a dry run")
		}
	}
}

func failFast(c *Ctx) {
	fn := c.Fn("(*internal.Suite).processCurrentSpecReport")
	if fn == nil {
		return
	}
	pre := suitePrefix(fn)
	for _, m := range reportStates(c) {
		for _, ff := range []bool{true, false} {
			for _, par := range []bool{true, false} {
				ff, par, m := ff, par, m
				var x *engine.Interp
				x = engine.New(c.P, engine.Cfg{Root: fn,
					Init: func(st *engine.State) {
						x.Store(st, pre+locState, engine.IntVal(m.Val, c.Type("types", "SpecState")))
						x.Store(st, pre+".config.FailFast", engine.BoolVal(ff))
						x.Store(st, pre+".skipAll", engine.BoolVal(false))
						x.Store(st, pre+".report.SuiteSucceeded", engine.BoolVal(true))
						n := int64(1)
						if par {
							n = 2
						}
						x.Store(st, pre+".config.ParallelTotal", engine.IntVal(n, nil))
					},
					OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
						if strings.HasSuffix(k.Name, "Client.PostAbort") {
							k.St.Auto["abort"] += "1"
							return k.Return(engine.Nil(k.T)), true
						}
						if strings.Contains(k.Name, "Reporter.") || strings.Contains(k.Name, "Client.") {
							return k.Return(engine.Nil(k.T)), true
						}
						return nil, false
					}})
				c.Run(x)
				for _, e := range x.Exits {
					sa, _ := x.Load(e.St, pre+".skipAll", engine.BoolVal(true).T).Bool()
					ss, ok := x.Load(e.St, pre+".report.SuiteSucceeded", engine.BoolVal(true).T).Bool()
					want := failStates[m.Name] && (ff || m.Name == "SpecStateAborted")
					id := fmt.Sprintf("%s failfast=%v parallel=%v", m.Name, ff, par)
					c.Check(sa == want, id+" skips rest", e.Pos, e.St.Path(6), "%s: the remaining specs are skipped=%v, want %v", id, sa, want)
					c.Check((e.St.Auto["abort"] != "") == (want && par), id+" tells others", e.Pos, e.St.Path(6), "%s: the other processes are told to abort: %v", id, e.St.Auto["abort"] != "")
					c.Check(ok && ss == !failStates[m.Name], id+" suite success", e.Pos, e.St.Path(6), "%s: the suite is marked succeeded=%v", id, ss)
				}
			}
		}
	}
}

// ---- L08

func l08(c *Ctx) {
	c.Rule("each-spec", "both per-spec reporting phases are reached exactly once for every spec, whatever the skip decision, dry-run setting or outcome")
	w := &groupWalk{}
	w.event = func(k *engine.Call, what string) {
		switch what {
		case "evaluate":
			k.St.Auto["b"], k.St.Auto["a"] = "", ""
		case "before":
			k.St.Auto["b"] += "1"
		case "after":
			k.St.Auto["a"] += "1"
		case "done":
			id := fmt.Sprintf("decision %s verdict %s", k.St.Auto["skip"], w.state(k.X, k.St))
			c.Check(k.St.Auto["b"] == "1", "before-reporting once: "+id, k.Pos(), k.St.Path(10), "%s: before-reporting ran %d times", id, len(k.St.Auto["b"]))
			c.Check(k.St.Auto["a"] == "1", "after-reporting once: "+id, k.Pos(), k.St.Path(10), "%s: after-reporting ran %d times", id, len(k.St.Auto["a"]))
		}
	}
	groupRun(c, w)
	c.Floor(20)

	c.Rule("record-handed", "each reporting node receives the record current when it starts, and all of the spec's nodes of the kind run")
	for _, s0 := range []string{"SpecStatePassed", "SpecStateFailed", "SpecStateSkipped", "SpecStatePending"} {
		recordHanded(c, s0)
	}
	c.Floor(4)

	c.Rule("suite-reporting", "before-suite reporting comes before suite setup, after-suite reporting after suite teardown and before the suite's end is announced, on every path")
	sw := &suiteWalk{}
	sw.call = func(k *engine.Call, what string) {
		a := k.St.Auto
		switch what {
		case "before", "group", "after":
			c.Check(a["report:ReportBeforeSuite"] == "1" && a["report:ReportAfterSuite"] == "", "reporting around "+what, k.Pos(), k.St.Path(8), "%s runs with before-suite reporting %q and after-suite reporting %q", what, a["report:ReportBeforeSuite"], a["report:ReportAfterSuite"])
		}
	}
	sw.more = func(k *engine.Call) ([]engine.Outcome, bool) {
		if strings.HasSuffix(k.Name, "Reporter.SuiteDidEnd") {
			c.Check(k.St.Auto["report:ReportAfterSuite"] == "1", "after-suite reporting before the end", k.Pos(), k.St.Path(10), "the suite's end is announced with after-suite reporting run %d times", len(k.St.Auto["report:ReportAfterSuite"]))
			return k.Return(engine.Nil(k.T)), true
		}
		return nil, false
	}
	suiteRun(c, sw)
	c.Floor(4)

	c.Rule("suite-reporting-processes", "after-suite reporting runs on process one only, before-suite reporting on process one with the others waiting for its outcome; every node of the kind runs, with the suite report")
	reportProcesses(c)
	c.Floor(6)

	c.Rule("aggregated", "in parallel an after-suite reporting node gets the report extended by the aggregated one; failing to get it fails the node; otherwise the suite report is handed over")
	aggregated(c)
	c.Floor(4)
}

func recordHanded(c *Ctx, s0 string) {
	w := &attemptWalk{entry: s0, track: func(l string) bool { return strings.Contains(l, "NL{") || strings.HasSuffix(l, ".currentSpecReport") }}
	n := 0
	w.run = func(k *engine.Call, l nlist) {
		body := k.X.FieldOf(k.St, k.Args[1], "Body")
		if body == nil || body.Fn == nil {
			c.Undecided("the body of a report-each node is not a known closure: %v", body)
			return
		}
		cur := w.cur(k.X, k.St)
		for i := range body.Fn.FreeVars {
			fv := body.Fn.FreeVars[i]
			if i >= len(body.Args) || !strings.HasSuffix(engine.TypeStr(fv.Type()), "types.SpecReport") {
				continue
			}
			n++
			loc, _ := k.X.Deref(body.Args[i])
			rep := k.X.Load(k.St, loc, c.Type("types", "SpecReport"))
			key := rep.Key()
			stv := engine.Field(rep, "State", c.Type("types", "SpecState"))
			same := strings.Join(k.X.DomNames(k.St, stv), "|") == cur
			c.Check(strings.Contains(key, "currentSpecReport") && same, "record handed in state "+cur, k.Pos(), k.St.Path(8), "a report-each node is handed %s while the spec is %s", short(key), cur)
		}
	}
	nodeWalk(c, "(*internal.Suite).reportEach", w)
	if n == 0 {
		c.Undecided("no record captured by a report-each body")
	}
}

func short(s string) string {
	if len(s) > 160 {
		return s[:160] + "…"
	}
	return s
}

func reportProcesses(c *Ctx) {
	fn := c.Fn("(*internal.Suite).runReportSuiteNodesIfNeedBe")
	if fn == nil {
		return
	}
	pre := suitePrefix(fn)
	intT := engine.IntVal(0, nil).T
	for _, kn := range []string{"NodeTypeReportBeforeSuite", "NodeTypeReportAfterSuite"} {
		for _, proc := range []int64{1, 2} {
			for _, total := range []int64{1, 2} {
				if proc > total {
					continue
				}
				kn, proc, total := kn, proc, total
				var x *engine.Interp
				ran, waited, posted := false, false, ""
				x = engine.New(c.P, engine.Cfg{Root: fn,
					Args: []*engine.Val{engine.ParamSym(fn.Params[0]), c.ConstVal("types", kn)},
					Init: func(st *engine.State) {
						x.Store(st, pre+".config.ParallelProcess", engine.IntVal(proc, intT))
						x.Store(st, pre+".config.ParallelTotal", engine.IntVal(total, intT))
					},
					Track: func(l string) bool {
						return strings.HasPrefix(l, pre+".config") || strings.HasSuffix(l, "SuiteSucceeded")
					},
					TrackFact: func(v *engine.Val) bool { return true },
					OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
						switch {
						case k.Name == "(internal.Nodes).WithType":
							return k.Return(nlSym(nlist{{src: "suite", kinds: kindNames(c, k.Args[1]), order: "decl"}}, k.T)), true
						case k.Name == "(*internal.Suite).runReportSuiteNode":
							ran = true
							l, _ := listsIn(k.Args[1].Key())
							want := strings.TrimPrefix(kn, "NodeType")
							c.Check(len(l) == 1 && l[0].kinds == want && l[0].src == "suite", "nodes run: "+want, k.Pos(), nil, "%s runs node %s", kn, k.Args[1].Key())
							c.Check(strings.HasSuffix(strings.Split(k.Args[2].Key(), "{")[0], ".report") || strings.Contains(k.Args[2].Key(), pre+".report"), "report handed: "+want, k.Pos(), nil, "%s nodes get %s", want, k.Args[2].Key())
							return k.Return(engine.Nil(k.T)), true
						case k.Name == "(*internal.Suite).processCurrentSpecReport":
							s2 := k.St.Clone()
							x.Store(s2, pre+".report.SuiteSucceeded", engine.BoolVal(false))
							return []engine.Outcome{{St: k.St, Ret: engine.Nil(k.T)}, {St: s2, Ret: engine.Nil(k.T)}}, true
						case strings.HasSuffix(k.Name, "Client.BlockUntilReportBeforeSuiteCompleted"):
							waited = true
							var outs []engine.Outcome
							for _, m := range reportStates(c) {
								if m.Name != "SpecStatePassed" && m.Name != "SpecStateFailed" {
									continue
								}
								for _, er := range []bool{true, false} {
									st := k.St.Clone()
									st.Auto["proc1"] = m.Name + fmt.Sprint(er)
									var ev *engine.Val = engine.Nil(c.P.ErrorType())
									if er {
										ev = engine.Sym("nonnil:err:wait", c.P.ErrorType())
									}
									outs = append(outs, engine.Outcome{St: st, Ret: engine.Tuple(engine.IntVal(m.Val, c.Type("types", "SpecState")), ev)})
								}
							}
							return outs, true
						case strings.HasSuffix(k.Name, "Client.PostReportBeforeSuiteCompleted"):
							v, _ := x.Load(k.St, pre+".report.SuiteSucceeded", engine.BoolVal(true).T).Bool()
							_ = v
							posted += "1"
							k.St.Auto["posted"] += "1"
							ns := strings.Join(x.DomNames(k.St, k.Args[len(k.Args)-1]), "|")
							succ := x.Load(k.St, pre+".report.SuiteSucceeded", engine.BoolVal(true).T)
							known, isK := succ.Bool()
							if !isK {
								known, isK = k.St.FactBool(succ.Key())
							}
							if isK {
								want := "SpecStatePassed"
								if !known {
									want = "SpecStateFailed"
								}
								c.Check(ns == want, fmt.Sprintf("outcome announced succeeded=%v", known), k.Pos(), k.St.Path(8), "before-suite reporting succeeded=%v but %s is announced to the other processes", known, ns)
							}
							return k.Return(engine.Nil(k.T)), true
						}
						return nil, false
					}})
				c.Run(x)
				id := fmt.Sprintf("%s on process %d of %d", strings.TrimPrefix(kn, "NodeType"), proc, total)
				c.Check(ran == (proc == 1), id+" runs", fn.Pos(), nil, "%s: nodes run: %v", id, ran)
				c.Check(waited == (proc != 1 && kn == "NodeTypeReportBeforeSuite"), id+" waits", fn.Pos(), nil, "%s: waits for process one: %v", id, waited)
				c.Check((posted != "") == (proc == 1 && total > 1 && kn == "NodeTypeReportBeforeSuite"), id+" announces", fn.Pos(), nil, "%s: announces its outcome: %v", id, posted != "")
				for _, e := range x.Exits {
					if p := e.St.Auto["proc1"]; p != "" {
						v, _ := x.Load(e.St, pre+".report.SuiteSucceeded", engine.BoolVal(true).T).Bool()
						failed := x.Load(e.St, pre+".report.SuiteSucceeded", engine.BoolVal(true).T).Key() == "false"
						_ = v
						want := p != "SpecStatePassedfalse"
						c.Check(failed == want, id+" absorbs "+p, e.Pos, e.St.Path(8), "process one reported %s but this process's suite is marked failed: %v", p, failed)
					}
					if proc == 1 && total > 1 && kn == "NodeTypeReportBeforeSuite" {
						c.Check(len(e.St.Auto["posted"]) <= 1, id+" announces once", e.Pos, e.St.Path(8), "the outcome is announced %d times", len(e.St.Auto["posted"]))
					}
				}
			}
		}
	}
}

func aggregated(c *Ctx) {
	fn := c.Fn("(*internal.Suite).runReportSuiteNode")
	if fn == nil {
		return
	}
	pre := suitePrefix(fn)
	for _, kn := range []string{"NodeTypeReportBeforeSuite", "NodeTypeReportAfterSuite"} {
		for _, total := range []int64{1, 2} {
			kn, total := kn, total
			var x *engine.Interp
			node := engine.Agg(engine.Sym("node", fn.Params[1].Type()), map[string]*engine.Val{"NodeType": c.ConstVal("types", kn)}, fn.Params[1].Type())
			want := "suite-report"
			if kn == "NodeTypeReportAfterSuite" && total > 1 {
				want = "added"
			}
			id := fmt.Sprintf("%s total=%d", strings.TrimPrefix(kn, "NodeType"), total)
			ran := false
			x = engine.New(c.P, engine.Cfg{Root: fn,
				Args: []*engine.Val{engine.ParamSym(fn.Params[0]), node, engine.Sym("suite-report", fn.Params[2].Type())},
				Init: func(st *engine.State) {
					x.Store(st, pre+".config.ParallelTotal", engine.IntVal(total, nil))
				},
				Track: func(l string) bool {
					return strings.HasPrefix(l, pre+".config") || strings.HasSuffix(l, locState)
				},
				OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
					switch {
					case strings.HasSuffix(k.Name, "Client.BlockUntilAggregatedNonprimaryProcsReport"):
						a, b := k.St.Clone(), k.St.Clone()
						a.Auto["agg"], b.Auto["agg"] = "ok", "err"
						rt := c.Type("types", "Report")
						return []engine.Outcome{{St: a, Ret: engine.Tuple(engine.Sym("aggregate", rt), engine.Nil(c.P.ErrorType()))},
							{St: b, Ret: engine.Tuple(engine.Sym("garbage", rt), engine.Sym("nonnil:err:agg", c.P.ErrorType()))}}, true
					case k.Name == "(types.Report).Add":
						ks := k.Args[0].Key() + " " + k.Args[1].Key()
						if strings.Contains(ks, "suite-report") && strings.Contains(ks, "aggregate") {
							return k.Return(engine.Sym("added", k.T)), true
						}
					case k.Name == "(*internal.Suite).runNode":
						ran = true
						c.Check(k.St.Auto["agg"] != "err", id+" not run without the aggregated report", k.Pos(), k.St.Path(8), "the node runs although the aggregated report could not be had")
						body := k.X.FieldOf(k.St, k.Args[1], "Body")
						got := "?"
						if body != nil && body.Fn != nil {
							for i, fv := range body.Fn.FreeVars {
								if strings.HasSuffix(engine.TypeStr(fv.Type()), "types.Report") {
									v := body.Args[i]
									if v.K == engine.VPtr {
										loc, _ := k.X.Deref(v)
										v = k.X.Load(k.St, loc, c.Type("types", "Report"))
									}
									got = v.Key()
								}
							}
						}
						if got == "?" {
							c.Undecided("the body of a suite reporting node is not a known closure")
						} else {
							c.Check(got == want, id+" gets the report", k.Pos(), k.St.Path(8), "%s: the node is handed %s, want %s", id, short(got), want)
						}
						return k.Return(engine.Tuple(c.ConstVal("types", "SpecStatePassed"), engine.Nil(c.Type("types", "Failure")))), true
					}
					return nil, false
				}})
			c.Run(x)
			c.Check(ran, id+" runs", fn.Pos(), nil, "%s: the node never runs", id)
			for _, e := range x.Exits {
				if e.St.Auto["agg"] == "err" {
					s := strings.Join(x.DomNames(e.St, x.Load(e.St, pre+locState, c.Type("types", "SpecState"))), "|")
					c.Check(failStates[s], id+" failure to aggregate fails the node", e.Pos, e.St.Path(8), "the aggregated report could not be had but the node ends %s", s)
				}
			}
		}
	}
}
