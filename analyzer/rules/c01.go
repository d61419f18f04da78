package rules

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{ID: "C01", Technique: "abstract interpretation of the node runner with a symbolic clock over every bounded arrival order of completion, deadline, interrupt, progress poll and grace expiry, against a trace specification; budget table over all orders of the deadlines",
		Note: "Every sequence of up to four events at the runner's wait, for nodes with and without a context, allowed and not allowed to run after an interrupt. Time is a model clock of small integers; that a body which watches its context returns is the user's part.",
		Run:  c01})
}

func c01(c *Ctx) {
	c.Rule("budget", "the runner waits at most until the earliest of the suite's, the spec's and the node's deadline; when that has passed already or the run is interrupted, until the node's own timeout or else its grace period")
	c01budget(c)
	c.Floor(40)
	c.Rule("wait-loop", "a passed deadline or an interrupt that concerns the node cancels its context and starts its grace period before the runner waits again, or ends the wait; grace expiry ends it; the first of them is the recorded outcome whatever the node does later; the context is cancelled on every way out")
	c01loop(c)
	c.Floor(100)
	c.Rule("own-context", "the body receives the very context the runner cancels")
	c01context(c)
	c.Floor(2)
	c.Rule("progress-bounded", "collecting progress for a report can not hold the runner beyond a fixed time")
	c01progress(c)
	c.Floor(2)
}

// modelClock answers time arithmetic on model times ("t@n", the zero time) and constant durations.
type modelClock struct{ now int64 }

func (m modelClock) time(n int64, T types.Type) *engine.Val {
	return engine.Sym(fmt.Sprintf("t@%d", n), T)
}

func (m modelClock) of(v *engine.Val) (n int64, zero, ok bool) {
	if v == nil {
		return 0, false, false
	}
	if v.IsNil() {
		return 0, true, true
	}
	if s := v.Key(); strings.HasPrefix(s, "t@") {
		n, err := strconv.ParseInt(s[2:], 10, 64)
		return n, false, err == nil
	}
	return 0, false, false
}

func (m modelClock) call(k *engine.Call) ([]engine.Outcome, bool) {
	at := func(i int) (int64, bool, bool) {
		if i >= len(k.Args) {
			return 0, false, false
		}
		return m.of(k.Args[i])
	}
	dur := func(n int64) []engine.Outcome { return k.Return(engine.IntVal(n, k.T)) }
	b := func(v bool) []engine.Outcome { return k.Return(engine.BoolVal(v)) }
	switch k.Name {
	case "time.Now":
		return k.Return(m.time(m.now, k.T)), true
	case "(time.Time).IsZero":
		if _, z, ok := at(0); ok {
			return b(z), true
		}
	case "(time.Time).Before", "(time.Time).After", "(time.Time).Equal", "(time.Time).Sub", "(time.Time).Compare":
		x, xz, ok1 := at(0)
		y, yz, ok2 := at(1)
		if !ok1 || !ok2 {
			return nil, false
		}
		if xz {
			x = -1 << 40
		}
		if yz {
			y = -1 << 40
		}
		switch k.Name {
		case "(time.Time).Before":
			return b(x < y), true
		case "(time.Time).After":
			return b(x > y), true
		case "(time.Time).Equal":
			return b(x == y), true
		case "(time.Time).Sub":
			return dur(x - y), true
		}
		switch {
		case x < y:
			return dur(-1), true
		case x > y:
			return dur(1), true
		}
		return dur(0), true
	case "(time.Time).Add":
		x, z, ok := at(0)
		if d, ok2 := k.Args[1].Int(); ok && ok2 && !z {
			return k.Return(m.time(x+d, k.T)), true
		}
	case "time.Until", "time.Since":
		if x, z, ok := at(0); ok {
			if z {
				x = -1 << 40
			}
			if k.Name == "time.Until" {
				return dur(x - m.now), true
			}
			return dur(m.now - x), true
		}
	case "time.After", "time.NewTimer":
		d, ok := k.Args[0].Int()
		if !ok {
			return nil, false
		}
		k.St.Auto["timers"] += "t"
		name := fmt.Sprintf("timer@%d#%d", d, len(k.St.Auto["timers"]))
		k.St.Auto["timer"] = name
		if k.Name == "time.After" {
			return k.Return(engine.Sym("nonnil:"+name+".C", k.T)), true
		}
		return k.Return(engine.Sym("nonnil:"+name, k.T)), true
	}
	return nil, false
}

// timerChan recognises the channel of a model timer: its duration and number.
func timerChan(v *engine.Val) (d, n int64, ok bool) {
	if v == nil {
		return 0, 0, false
	}
	s := v.Key()
	i := strings.Index(s, "timer@")
	if i < 0 {
		return 0, 0, false
	}
	if k, err := fmt.Sscanf(s[i:], "timer@%d#%d", &d, &n); err != nil || k != 2 {
		return 0, 0, false
	}
	return d, n, true
}

type c01scene struct {
	suiteD, specD    int64 // 0: none
	timeout, grace   int64 // the node's own; grace -1: not set
	cfgGrace         int64
	hasContext       bool
	level            int64
	kind             string
	poll, pollRepeat int64
}

func (s c01scene) String() string {
	t := func(n int64) string {
		if n == 0 {
			return "none"
		}
		return fmt.Sprintf("t%+d", n-c01now)
	}
	return fmt.Sprintf("%s node (context %v, timeout %d, grace %d/%d, suite deadline %s, spec deadline %s, interrupt level %d)", s.kind, s.hasContext, s.timeout, s.grace, s.cfgGrace, t(s.suiteD), t(s.specD), s.level)
}

const c01now = 50

type c01run struct {
	c       *Ctx
	fn      *ssa.Function
	nodeP   int
	dlP     int
	pre     string
	timeT   types.Type
	durT    types.Type
	lvlT    types.Type
	causeT  types.Type
	statusT types.Type
	chanT   types.Type
	stT     types.Type
	ntT     types.Type
	follow  bool // follow the reporting of events, failures and progress instead of setting it aside
}

func newC01(c *Ctx) *c01run {
	r := &c01run{c: c, nodeP: -1, dlP: -1}
	r.fn = c.Fn("(*internal.Suite).runNode")
	r.lvlT, r.causeT, r.statusT = c.Type(ihPkg, "InterruptLevel"), c.Type(ihPkg, "InterruptCause"), c.Type(ihPkg, "InterruptStatus")
	r.stT, r.ntT = c.Type("types", "SpecState"), c.Type("types", "NodeType")
	if r.fn == nil || r.lvlT == nil || r.causeT == nil || r.statusT == nil || r.stT == nil || r.ntT == nil {
		return nil
	}
	for i, p := range r.fn.Params {
		switch engine.TypeStr(p.Type()) {
		case "internal.Node":
			r.nodeP = i
		case "time.Time":
			r.dlP, r.timeT = i, p.Type()
		}
	}
	r.chanT = fieldOfType(r.statusT, "Channel")
	if r.nodeP < 0 || r.dlP < 0 || r.chanT == nil {
		c.Undecided("running a node takes no node or no deadline, or an interrupt status has no channel")
		return nil
	}
	r.durT = fieldOfType(r.fn.Params[r.nodeP].Type(), "NodeTimeout")
	if r.durT == nil {
		c.Undecided("nodes have no timeout")
		return nil
	}
	r.pre = suitePrefix(r.fn)
	return r
}

// interp builds the interpreter for one scene; the hooks given are consulted first.
func (r *c01run) interp(s c01scene, hook func(*engine.Call) ([]engine.Outcome, bool), cfg engine.Cfg) *engine.Interp {
	clk := modelClock{c01now}
	T := r.fn.Params[r.nodeP].Type()
	d := func(n int64) *engine.Val { return engine.IntVal(n, r.durT) }
	node := engine.Agg(engine.ParamSym(r.fn.Params[r.nodeP]), map[string]*engine.Val{
		"NodeType": r.c.ConstVal("types", "NodeType"+s.kind), "HasContext": engine.BoolVal(s.hasContext),
		"NodeTimeout": d(s.timeout), "GracePeriod": d(s.grace), "PollProgressAfter": d(s.poll), "PollProgressInterval": d(s.pollRepeat)}, T)
	t := func(n int64) *engine.Val {
		if n == 0 {
			return engine.Nil(r.timeT)
		}
		return clk.time(n, r.timeT)
	}
	cfg.Root = r.fn
	cfg.Args = withArg(r.fn, r.nodeP, node)
	cfg.Args[r.dlP] = t(s.specD)
	cfg.Linear = true
	if cfg.Budget == 0 {
		cfg.Budget = 60000
	}
	var x *engine.Interp
	init := cfg.Init
	cfg.Init = func(st *engine.State) {
		x.Store(st, r.pre+".deadline", t(s.suiteD))
		x.Store(st, r.pre+".config.GracePeriod", d(s.cfgGrace))
		x.Store(st, r.pre+".config.PollProgressAfter", d(0))
		x.Store(st, r.pre+".config.PollProgressInterval", d(0))
		if init != nil {
			init(st)
		}
	}
	cfg.OnCall = func(k *engine.Call) ([]engine.Outcome, bool) {
		if hook != nil {
			if o, ok := hook(k); ok {
				return o, true
			}
		}
		if o, ok := clk.call(k); ok {
			return o, true
		}
		switch {
		case strings.HasSuffix(k.Name, ".Status") && k.T != nil && engine.TypeStr(k.T) == engine.TypeStr(r.statusT):
			cause := int64(0)
			if s.level > 0 {
				cause = 1
			}
			return k.Return(r.status(k, 0, s.level, cause)), true
		case k.Name == "context.WithCancelCause" || k.Name == "context.WithCancel":
			tup := k.T.(*types.Tuple)
			return k.Return(engine.Tuple(engine.Sym("nonnil:ctx", tup.At(0).Type()), engine.Sym("nonnil:cancel-function", tup.At(1).Type()))), true
		case k.Name == "context.WithValue":
			return k.Return(engine.Sym("nonnil:with("+k.Args[0].Key()+")", k.T)), true
		case isCancel(k):
			k.St.Auto["cancelled"] = k.FnVal.Key()
			return k.Return(engine.Nil(k.T)), true
		}
		if r.follow {
			return nil, false
		}
		// what is reported on the way is not the subject here
		for _, n := range []string{".generateProgressReport", ".emitProgressReport", ".handleSpecEvent", ".handleSpecEventEnd", ".generateTimelineLocation", "Reporter.EmitFailure", ".WithoutCapturedGinkgoWriterOutput", ".WithoutOtherGoroutines"} {
			if strings.HasSuffix(k.Name, n) {
				if k.T == nil {
					return k.Return(engine.Nil(k.T)), true
				}
				return k.Return(k.Fresh()), true
			}
		}
		return nil, false
	}
	x = engine.New(r.c.P, cfg)
	return x
}

func (r *c01run) status(k *engine.Call, gen int, level, cause int64) *engine.Val {
	return engine.Agg(k.Fresh(), map[string]*engine.Val{"Level": engine.IntVal(level, r.lvlT), "Cause": engine.IntVal(cause, r.causeT),
		"Channel": engine.Sym(fmt.Sprintf("nonnil:interrupt%d;", gen), r.chanT)}, r.statusT)
}

// isCancel recognises a call of a context's cancel function.
func isCancel(k *engine.Call) bool {
	if k.Fn != nil || k.FnVal == nil || k.Com == nil || k.Com.IsInvoke() {
		return false
	}
	t := engine.TypeStr(k.Com.Value.Type())
	return t == "context.CancelCauseFunc" || t == "context.CancelFunc"
}

func c01budget(c *Ctx) {
	r := newC01(c)
	if r == nil {
		return
	}
	abs := []int64{0, c01now - 20, c01now + 10, c01now + 30}
	for _, suiteD := range abs {
		for _, specD := range []int64{0, c01now - 30, c01now + 9, c01now + 31} {
			for _, timeout := range []int64{0, 5, 20, 40} {
				for _, level := range []int64{0, 1} {
					// -2: the configured grace period, and a node that takes no context
					for _, grace := range []int64{-2, -1, 0, 3} {
						s := c01scene{suiteD: suiteD, specD: specD, timeout: timeout, grace: grace, cfgGrace: 7, hasContext: grace != -2, level: level, kind: "AfterEach", poll: 0}
						// a negative node setting means the configured one
						g := grace
						if g < 0 {
							g = 7
						}
						want := int64(-1) // no deadline
						min := func(n int64) {
							if want < 0 || n < want {
								want = n
							}
						}
						if suiteD != 0 {
							min(suiteD)
						}
						if specD != 0 {
							min(specD)
						}
						if timeout > 0 {
							min(c01now + timeout)
						}
						if want >= 0 && want < c01now || level > 0 {
							want = c01now + g
							if timeout > 0 {
								want = c01now + timeout
							}
						}
						n := 0
						x := r.interp(s, nil, engine.Cfg{
							OnWait: func(x *engine.Interp, st *engine.State, in *ssa.Select, chs []*engine.Val) {
								n++
								got := int64(-1)
								for _, ch := range chs {
									if d, _, ok := timerChan(ch); ok && !ch.IsNil() {
										if got >= 0 {
											c.Undecided("%s: two timers at the first wait", s)
										}
										got = c01now + d
									}
								}
								show := func(n int64) string {
									if n < 0 {
										return "without limit"
									}
									return fmt.Sprintf("until t%+d", n-c01now)
								}
								what := "none passed"
								switch {
								case level > 0:
									what = "interrupted"
								case want == c01now+g || timeout > 0 && want == c01now+timeout:
									what = "own budget"
								case want < 0:
									what = "no deadline"
								}
								c.Check(got == want, "budget "+what, in.Pos(), st.Path(8), "%s: the runner waits %s instead of %s", s, show(got), show(want))
								st.Stop()
							}})
						c.Run(x)
						if n == 0 {
							c.Undecided("%s: the runner does not wait", s)
						}
					}
				}
			}
		}
	}
}

func c01loop(c *Ctx) {
	r := newC01(c)
	if r == nil {
		return
	}
	val := map[string]int64{}
	for _, n := range []string{"Passed", "Failed", "Interrupted", "Timedout", "Skipped"} {
		val[n], _ = c.ConstVal("types", "SpecState"+n).Int()
	}
	name := func(n int64) string {
		for k, v := range val {
			if v == n {
				return k
			}
		}
		return fmt.Sprint(n)
	}
	max := 4
	if c.Tier == "thorough" {
		max = 6
	}
	type cse struct{ kind, fin string }
	var cases []cse
	for _, k := range []string{"It", "AfterEach", "ReportAfterEach"} {
		for _, f := range []string{"Passed", "Failed", "Skipped"} {
			if k == "ReportAfterEach" && f == "Skipped" {
				continue
			}
			cases = append(cases, cse{k, f})
		}
	}
	for _, cs := range cases {
		kind, fin := cs.kind, cs.fin
		for _, hasContext := range []bool{true, false} {
			for _, timeout := range []int64{0, 20} {
				s := c01scene{timeout: timeout, grace: 3, cfgGrace: 7, hasContext: hasContext, kind: kind, poll: 1, pollRepeat: 1}
				grace := int64(3)
				if !hasContext {
					grace = 0
				}
				var x *engine.Interp
				num := func(st *engine.State, k string) int64 {
					var n int64
					fmt.Sscanf(st.Auto[k], "%d", &n)
					return n
				}
				done := ""
				x = r.interp(s, func(k *engine.Call) ([]engine.Outcome, bool) {
					au := k.St.Auto
					if strings.HasSuffix(k.Name, ".Status") && k.T != nil && engine.TypeStr(k.T) == engine.TypeStr(r.statusT) {
						if au["started"] == "" {
							au["gen"] = "0"
							return k.Return(r.status(k, 0, 0, 0)), true
						}
						if au["fresh"] != "interrupt" {
							// asked again without a new event: the same answer
							return k.Return(r.status(k, int(num(k.St, "gen")), num(k.St, "level"), num(k.St, "cause"))), true
						}
						au["fresh"] = ""
						old := num(k.St, "level")
						var outs []engine.Outcome
						for lv := old + 1; lv <= 3; lv++ {
							for cause := int64(1); cause <= 2; cause++ {
								if cause == 2 && (old != 0 || lv != 1) {
									continue
								}
								o := k.St.Clone()
								o.Auto["level"], o.Auto["cause"] = fmt.Sprint(lv), fmt.Sprint(cause)
								o.Auto["gen"] = fmt.Sprint(num(o, "gen") + 1)
								ignored := cause == 2 && kind != "It"
								if !ignored {
									if o.Auto["first"] == "" {
										o.Auto["first"] = "Interrupted"
									}
									if o.Auto["due"] != "" || lv == 3 {
										o.Auto["mayleave"] = "1"
									}
									if lv == 3 {
										o.Auto["mustleave"] = "bail-out"
									}
									o.Auto["due"] = "1"
									if o.Auto["gracet"] == "" {
										o.Auto["gracet"] = "pending"
									}
								}
								o.Note("%s: the interrupt level is %d, cause %d", c.P.RelPos(k.Pos()), lv, cause)
								outs = append(outs, engine.Outcome{St: o, Ret: r.status(k, int(num(o, "gen")), lv, cause)})
							}
						}
						return outs, true
					}
					return nil, false
				}, engine.Cfg{
					OnGo: func(k *engine.Call) { k.St.Auto["started"] = "1" },
					RecvVal: func(x *engine.Interp, st *engine.State, in ssa.Instruction, ch *engine.Val) *engine.Val {
						return handedOver(ch, engine.IntVal(val[fin], r.stT))
					},
					OnWait: func(x *engine.Interp, st *engine.State, in *ssa.Select, chs []*engine.Val) {
						p := st.Path(16)
						au := st.Auto
						if done == "" {
							done = "seen"
						}
						hasDone, hasIntr, hasGrace, hasDeadline := false, false, false, false
						other := ""
						for _, ch := range chs {
							if ch == nil || ch.IsNil() {
								continue
							}
							if _, n, ok := timerChan(ch); ok {
								if fmt.Sprint(n) == au["dlt"] {
									hasDeadline = true
								} else if fmt.Sprint(n) == au["gracetimer"] {
									hasGrace = true
								}
								continue
							}
							if i := strings.Index(ch.Key(), "interrupt"); i >= 0 {
								var g int64
								fmt.Sscanf(ch.Key()[i:], "interrupt%d;", &g)
								hasIntr = hasIntr || g == num(st, "gen")
								continue
							}
							hasDone = hasDone || handsOver(ch)
							if chT, ok := ch.T.Underlying().(*types.Chan); ok && !handsOver(ch) && strings.Contains(ch.Key(), "chan(") {
								other = engine.TypeStr(chT.Elem())
							}
						}
						if !hasDone && other != "" {
							c.Undecided("%s: how the node tells the runner that it has finished (a channel of %s) is not understood", s, other)
							st.Stop()
							return
						}
						c.Check(hasDone, "waits for completion", in.Pos(), p, "%s: the runner does not wait for the node to finish", s)
						c.Check(hasIntr, "waits for interrupts", in.Pos(), p, "%s: the runner does not watch the current interrupt channel", s)
						if au["mustleave"] != "" {
							c.Fail("leaves after "+au["mustleave"], in.Pos(), p, "%s: the runner goes on waiting after %s", s, au["mustleave"])
						}
						if au["due"] != "" {
							c.Check(au["cancelled"] != "", "context cancelled before grace", in.Pos(), p, "%s: the runner waits again after a deadline or interrupt without having cancelled the node's context", s)
							c.Check(hasGrace, "grace bounds the wait", in.Pos(), p, "%s: the runner waits again after a deadline or interrupt without a limit", s)
						} else {
							c.Check(au["cancelled"] == "", "context live until due", in.Pos(), p, "%s: the node's context is cancelled although nothing happened to it", s)
							c.Check(hasDeadline == (timeout > 0), "waits for the deadline", in.Pos(), p, "%s: deadline watched: %v", s, hasDeadline)
						}
					},
					OnSelect: func(x *engine.Interp, st *engine.State, in *ssa.Select, i int, ch *engine.Val) {
						au := st.Auto
						au["n"] += "e"
						if len(au["n"]) > max {
							st.Stop()
							return
						}
						if i < 0 || ch == nil {
							return
						}
						if _, n, ok := timerChan(ch); ok {
							switch fmt.Sprint(n) {
							case au["dlt"]:
								if au["first"] == "" {
									au["first"] = "Timedout"
								}
								au["due"] = "1"
								if au["gracet"] == "" {
									au["gracet"] = "pending"
								}
								st.Note("the deadline passes")
							case au["gracetimer"]:
								au["mustleave"], au["mayleave"] = "grace expiry", "1"
								st.Note("the grace period is over")
							}
							return
						}
						if strings.Contains(ch.Key(), "interrupt") {
							au["fresh"] = "interrupt"
							return
						}
						if handsOver(ch) {
							au["mustleave"], au["mayleave"] = "completion", "1"
							au["completed"] = "1"
						}
					}})
				// timers are told apart by when they are made: before anything is due it is the deadline, afterwards the grace period
				prev := x.Cfg.OnCall
				x.Cfg.OnCall = func(k *engine.Call) ([]engine.Outcome, bool) {
					before := k.St.Auto["timers"]
					o, ok := prev(k)
					if ok && k.St.Auto["timers"] != before && len(o) == 1 {
						n := fmt.Sprint(len(k.St.Auto["timers"]))
						d, _ := k.Args[0].Int()
						switch {
						case k.St.Auto["due"] != "":
							c.Check(d == grace, "grace period", k.Pos(), k.St.Path(12), "%s: the runner gives the node %d of grace instead of %d", s, d, grace)
							if k.St.Auto["gracetimer"] == "" {
								k.St.Auto["gracetimer"] = n
							} else {
								c.Fail("grace given once", k.Pos(), k.St.Path(16), "%s: the node is given another grace period", s)
							}
						case d == timeout:
							k.St.Auto["dlt"] = n
						}
					}
					return o, ok
				}
				c.Run(x)
				if done == "" {
					c.Undecided("%s: the runner does not wait", s)
				}
				for _, e := range x.Exits {
					if e.Kind != engine.ExitReturn || e.St.Auto["started"] == "" {
						continue
					}
					au := e.St.Auto
					p := e.St.Path(18)
					c.Check(au["cancelled"] != "", "context cancelled on the way out", e.Pos, p, "%s: the runner leaves the node without cancelling its context", s)
					c.Check(au["mayleave"] != "", "leaves only when done", e.Pos, p, "%s: the runner stops waiting although the node may still finish in time", s)
					if len(e.Ret.Args) == 0 {
						c.Undecided("%s: the outcome is not known", s)
						continue
					}
					if len(e.Ret.Args) < 2 {
						c.Undecided("%s: the failure is not known", s)
						continue
					}
					n, ok := e.Ret.Args[0].Int()
					if !ok {
						c.Undecided("%s: the outcome is not known", s)
						continue
					}
					failure := e.Ret.Args[1]
					if au["first"] == "" {
						c.Check(n == val[fin], "outcome of the body", e.Pos, p, "%s: the body ended %s but the outcome is %s", s, fin, name(n))
						if fin != "Passed" {
							m := x.FieldOf(e.St, failure, "Message")
							c.Check(m.Mentions("body-failure"), "failure of the body", e.Pos, p, "%s: the body ended %s but its failure is not the one returned (message %s)", s, fin, m.Key())
						}
						continue
					}
					c.Check(n == val[au["first"]], "outcome "+au["first"], e.Pos, p, "%s: the node was first %s but the outcome is %s", s, strings.ToLower(au["first"]), name(n))
					if au["completed"] != "" && fin != "Passed" {
						add := x.FieldOf(e.St, failure, "AdditionalFailure")
						c.Check(!add.IsNil(), "late failure kept", e.Pos, p, "%s: the node ended %s after it was %s and the failure is lost", s, fin, au["first"])
						if loc, _ := x.Deref(add); !add.IsNil() {
							l := x.Load(e.St, loc+".Failure.Location", c.Type("types", "CodeLocation"))
							c.Check(l.Mentions("body-failure"), "late failure's place", e.Pos, p, "%s: the failure attached to a %s node is not the body's (%s)", s, au["first"], l.Key())
						}
					}
				}
			}
		}
	}
}

// c01context: the context handed to the body is the one the runner cancels.
func c01context(c *Ctx) {
	fn := c.Fn("internal.NewSpecContext")
	if fn != nil {
		x := engine.New(c.P, engine.Cfg{Root: fn, Linear: true, Budget: 4000,
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				switch k.Name {
				case "context.WithCancelCause", "context.WithCancel":
					tup := k.T.(*types.Tuple)
					return k.Return(engine.Tuple(engine.Sym("nonnil:ctx-cancellable", tup.At(0).Type()), engine.Sym("nonnil:cancel-function", tup.At(1).Type()))), true
				case "context.WithValue":
					return k.Return(engine.Sym("nonnil:with("+k.Args[0].Key()+")", k.T)), true
				case "context.WithoutCancel":
					return k.Return(engine.Sym("nonnil:detached", k.T)), true
				}
				return nil, false
			}})
		c.Run(x)
		for _, e := range x.Exits {
			if e.Kind != engine.ExitReturn || e.Ret == nil {
				continue
			}
			loc, _ := x.Deref(e.Ret)
			ctx := x.Load(e.St, loc+".Context", types.Universe.Lookup("error").Type())
			can := x.Load(e.St, loc+".cancel", types.Universe.Lookup("error").Type())
			if !strings.Contains(can.Key(), "cancel-function") {
				c.Undecided("how a spec context is cancelled")
				continue
			}
			c.Check(strings.Contains(ctx.Key(), "ctx-cancellable"), "context is the cancelled one", e.Pos, e.St.Path(6), "the context offered (%s) does not descend from the one that is cancelled", ctx.Key())
		}
	}
	r := newC01(c)
	if r == nil {
		return
	}
	s := c01scene{timeout: 20, grace: 3, cfgGrace: 7, hasContext: true, kind: "It", poll: 0}
	made := map[string]bool{}
	var x *engine.Interp
	x = r.interp(s, func(k *engine.Call) ([]engine.Outcome, bool) {
		if k.Name == "internal.NewSpecContext" {
			v := engine.Sym("nonnil:the-spec-context", k.T)
			made[v.Key()] = true
			return k.Return(v), true
		}
		return nil, false
	}, engine.Cfg{
		OnGo: func(k *engine.Call) {
			if k.Fn == nil {
				return
			}
			var y *engine.Interp
			y = engine.New(c.P, engine.Cfg{Root: k.Fn, Bind: k.Bind, Args: k.Args, Linear: true, Budget: 4000,
				Init: func(st *engine.State) { st.CopyMem(k.St) },
				OnCall: func(b *engine.Call) ([]engine.Outcome, bool) {
					if b.Com != nil && isNodeBody(c)(b.Com) && len(b.Args) > 0 {
						got := b.Args[len(b.Args)-1].Unbox().Key()
						c.Check(made[got], "body receives its context", b.Pos(), b.St.Path(6), "the body receives %s, not the context the runner cancels", got)
						b.St.Stop()
						return nil, false
					}
					return nil, false
				}})
			y.ContinueTokens(k.X)
			c.Run(y)
		},
		OnSelect: func(x *engine.Interp, st *engine.State, in *ssa.Select, i int, ch *engine.Val) {
			if i < 0 || ch == nil || st.Auto["sel"] != "" {
				st.Stop()
				return
			}
			st.Auto["sel"] = "1"
			if _, _, ok := timerChan(ch); !ok {
				st.Stop()
			}
		},
		OnWait: func(x *engine.Interp, st *engine.State, in *ssa.Select, chs []*engine.Val) {
			if st.Auto["sel"] != "" {
				c.Check(strings.Contains(st.Auto["cancelled"], "the-spec-context"), "cancels the body's context", in.Pos(), st.Path(8), "after a timeout %s is called, not the cancellation of the body's context", orNone(st.Auto["cancelled"]))
			}
		}})
	c.Run(x)
}

// reachesCall: f can reach a function with the given method name.
func reachesCall(c *Ctx, f *ssa.Function, method string) bool {
	for _, g := range c.P.Reach(f, nil) {
		if g.Name() == method {
			return true
		}
	}
	return false
}

// c01progress: queries of user-supplied progress reporters are bounded by a timeout.
func c01progress(c *Ctx) {
	fn := c.Fn("(*internal.Suite).generateProgressReport")
	if fn != nil {
		n := 0
		var x *engine.Interp
		x = engine.New(c.P, engine.Cfg{Root: fn, Budget: 20000,
			Track:     func(l string) bool { return false },
			TrackFact: func(*engine.Val) bool { return false },
			Opaque: func(f *ssa.Function) bool {
				return !reachesCall(c, f, "QueryProgressReporters")
			},
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				switch {
				case k.Name == "context.WithTimeout" || k.Name == "context.WithDeadline":
					tup := k.T.(*types.Tuple)
					return k.Return(engine.Tuple(engine.Sym("nonnil:bounded", tup.At(0).Type()), engine.Sym("nonnil:cancel", tup.At(1).Type()))), true
				case strings.HasPrefix(k.Name, "context."):
					return k.Return(engine.Sym("nonnil:unbounded", k.T)), true
				case strings.HasSuffix(k.Name, ".QueryProgressReporters"):
					n++
					ok := false
					for _, a := range k.Args {
						if a != nil && strings.Contains(a.Key(), "bounded") && !strings.Contains(a.Key(), "unbounded") {
							ok = true
						}
					}
					c.Check(ok, "query has a deadline", k.Pos(), k.St.Path(6), "progress reporters are queried without a deadline")
					return k.Return(k.Fresh()), true
				}
				return nil, false
			}})
		c.Run(x)
		if n == 0 {
			c.Undecided("where progress reporters are queried")
		}
	}
	q := c.Fn("(*internal.ProgressReporterManager).QueryProgressReporters")
	if q == nil {
		return
	}
	waits := 0
	var x *engine.Interp
	x = engine.New(c.P, engine.Cfg{Root: q, Budget: 20000,
		TrackFact: func(*engine.Val) bool { return false },
		OnRecv: func(_ *engine.Interp, st *engine.State, in ssa.Instruction, ch *engine.Val) {
			if _, ok := in.(*ssa.UnOp); ok && st.Auto["insel"] == "" {
				c.Fail("bounded wait", in.Pos(), st.Path(6), "the answer of a progress reporter is awaited without a limit")
			}
		},
		OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			if strings.HasSuffix(k.Name, "Context.Done") {
				return k.Return(engine.Sym("nonnil:expired", k.T)), true
			}
			if k.Fn == nil && k.FnVal != nil && k.Com.Signature().Params().Len() == 0 && k.Com.Signature().Results().Len() == 1 && !strings.HasPrefix(k.Name, "builtin") && engine.TypeStr(k.T) == "string" {
				c.Fail("reporter on the runner's goroutine", k.Pos(), k.St.Path(6), "a progress reporter is called on the goroutine that collects the report")
			}
			return nil, false
		},
		Opaque: func(f *ssa.Function) bool { return f.Parent() == nil },
		OnWait: func(_ *engine.Interp, st *engine.State, in *ssa.Select, chs []*engine.Val) {
			waits++
			ok := !in.Blocking
			for _, ch := range chs {
				ok = ok || ch != nil && strings.Contains(ch.Key(), "expired")
			}
			c.Check(ok, "bounded wait", in.Pos(), st.Path(6), "the answer of a progress reporter is awaited without a limit")
		},
		OnSelect: func(_ *engine.Interp, st *engine.State, in *ssa.Select, i int, ch *engine.Val) {
			if ch != nil && strings.Contains(ch.Key(), "expired") {
				st.Auto["expired"] += "1"
				c.Check(len(st.Auto["expired"]) < 2, "stops when expired", in.Pos(), st.Path(6), "goes on querying after the time for it is over")
			}
			st.Auto["n"] += "s"
			if len(st.Auto["n"]) > 3 {
				st.Stop()
			}
		}})
	c.Run(x)
	if waits == 0 {
		c.Undecided("how answers of progress reporters are awaited")
	}
}

// handsOver: the channel brings the runner the outcome of the body, alone or together with its failure.
func handsOver(ch *engine.Val) bool {
	v := handedOver(ch, engine.BoolVal(true))
	return v != nil && engine.TypeStr(v.T) != "types.Failure"
}

// handedOver is what the runner receives from the body over the channel, nil for other channels.
func handedOver(ch *engine.Val, outcome *engine.Val) *engine.Val {
	if ch == nil || ch.T == nil {
		return nil
	}
	chT, ok := ch.T.Underlying().(*types.Chan)
	if !ok {
		return nil
	}
	switch engine.TypeStr(chT.Elem()) {
	case "types.SpecState":
		return outcome
	case "types.Failure":
		return engine.Sym("body-failure", chT.Elem())
	}
	st, ok := chT.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	fields, known := map[string]*engine.Val{}, false
	for i := 0; i < st.NumFields(); i++ {
		switch f := st.Field(i); engine.TypeStr(f.Type()) {
		case "types.SpecState":
			fields[f.Name()], known = outcome, true
		case "types.Failure":
			fields[f.Name()] = engine.Sym("body-failure", f.Type())
		default:
			fields[f.Name()] = engine.Sym("handed over "+f.Name(), f.Type())
		}
	}
	if !known {
		return nil
	}
	return engine.Agg(engine.Nil(chT.Elem()), fields, chT.Elem())
}
