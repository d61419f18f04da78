package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{ID: "C02", Technique: "abstract interpretation of the interrupt listener over every bounded event sequence and of the node runner over every node kind and interrupt level, against a state machine",
		Note: "The listener and the abort poller are followed through every sequence of up to five signals, aborts, polls and stops; a query through every level and coordinator answer. Of the delivery of signals by the operating system only the room in the notified channel is checked.",
		Run:  c02})
}

const ihPkg = "internal/interrupt_handler"

func c02(c *Ctx) {
	c.Rule("one-step-per-event", "each signal raises the level by one up to bail-out and becomes the cause, an abort announced by another process only takes an uninterrupted run to the first level; each step closes the channel handed out before and installs a new one under the same lock")
	c02listener(c)
	c.Floor(60)
	c.Rule("level-never-falls", "nothing else lowers the level")
	c02monotone(c)
	c.Rule("query", "a query answers with one consistent level, cause and channel, and never says uninterrupted when another process has aborted")
	c02status(c)
	c.Floor(10)
	c.Rule("delivery", "the channel that is notified of signals has room for one, so a signal that arrives while the listener is busy is not dropped")
	c02delivery(c)
	c.Floor(1)
	c.Rule("level-gates", "uninterrupted, every node may start; after the first interrupt cleanup and reporting nodes, after the second reporting nodes, after the third none; a node that may not start ends skipped")
	c02gates(c)
	c.Floor(60)
}

type ihLaunch struct {
	fn     *ssa.Function
	bind   []*engine.Val
	args   []*engine.Val
	st     *engine.State
	x      *engine.Interp
	sig    string // key of the signal channel
	h      string // location of the handler
	client bool
	pos    token.Pos
}

// ihLaunches constructs a handler and lists the goroutines it starts.
func ihLaunches(c *Ctx, client bool) []ihLaunch {
	fn := c.Fn("internal/interrupt_handler.NewInterruptHandler")
	if fn == nil {
		return nil
	}
	cl := engine.Nil(fn.Params[0].Type())
	if client {
		cl = engine.Sym("nonnil:client", fn.Params[0].Type())
	}
	var out []ihLaunch
	sig := ""
	args := withArg(fn, 0, cl)
	for i, p := range fn.Params {
		if i > 0 {
			if _, ok := p.Type().Underlying().(*types.Slice); ok {
				args[i] = engine.SliceAt("*signals", 1, p.Type())
			}
		}
	}
	var x *engine.Interp
	x = engine.New(c.P, engine.Cfg{Root: fn, Args: args, Linear: true, Budget: 4000,
		OnGo: func(k *engine.Call) {
			if k.Fn != nil {
				out = append(out, ihLaunch{fn: k.Fn, bind: k.Bind, args: k.Args, st: k.St.Clone(), client: client, pos: k.Pos()})
			} else {
				c.Undecided("%s: what this goroutine runs is not known", c.P.RelPos(k.Pos()))
			}
		},
		OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			if k.Name == "os/signal.Notify" {
				sig = k.Args[0].Key()
				return k.Return(engine.Nil(k.T)), true
			}
			return nil, false
		}})
	c.Run(x)
	h := ""
	for _, e := range x.Exits {
		if e.Kind == engine.ExitReturn && e.Ret != nil {
			h, _ = x.Deref(e.Ret)
		}
	}
	seen := map[string]bool{}
	var uniq []ihLaunch
	for _, l := range out {
		key := c.P.CalleeName(l.fn) + c.P.RelPos(l.pos)
		if seen[key] { // the default signals make no difference
			continue
		}
		seen[key] = true
		l.sig, l.x, l.h = sig, x, h
		uniq = append(uniq, l)
	}
	return uniq
}

func (l ihLaunch) argv() []*engine.Val {
	args := make([]*engine.Val, len(l.fn.Params))
	copy(args, l.args)
	return args
}

func storesTo(c *Ctx, fn *ssa.Function, field string) bool {
	return len(c.P.FieldStores(c.P.Reach(fn, nil), field)) > 0
}

func c02listener(c *Ctx) {
	lvlT, causeT := c.Type(ihPkg, "InterruptLevel"), c.Type(ihPkg, "InterruptCause")
	if lvlT == nil || causeT == nil {
		return
	}
	level := map[string]int64{}
	for i, n := range []string{"InterruptLevelUninterrupted", "InterruptLevelCleanupAndReport", "InterruptLevelReportOnly", "InterruptLevelBailOut"} {
		v, ok := c.ConstVal(ihPkg, n).Int()
		if !ok || v != int64(i) {
			c.Undecided("%s is not level %d", n, i)
			return
		}
		level[n] = v
	}
	sigCause, _ := c.ConstVal(ihPkg, "InterruptCauseSignal").Int()
	abCause, _ := c.ConstVal(ihPkg, "InterruptCauseAbortByOtherProcess").Int()
	lv := "internal/interrupt_handler.InterruptHandler.level"
	events := 5
	if c.Tier == "thorough" {
		events = 8
	}
	for _, client := range []bool{false, true} {
		listeners, pollers := 0, 0
		for _, l := range ihLaunches(c, client) {
			c.Funcs[c.P.CalleeName(l.fn)] = true
			if storesTo(c, l.fn, lv) {
				listeners++
				c02listen(c, l, events, lvlT, causeT, sigCause, abCause)
			} else if client {
				pollers++
				c02poll(c, l)
			}
		}
		if listeners == 0 {
			c.Undecided("no goroutine raises the interrupt level")
		}
		if client && pollers == 0 {
			c.Undecided("no goroutine asks whether another process aborted")
		}
	}
}

func c02listen(c *Ctx, l ihLaunch, events int, lvlT, causeT types.Type, sigCause, abCause int64) {
	var x *engine.Interp
	h := ""
	load := func(st *engine.State, f string, t types.Type) (int64, bool) {
		return x.Load(st, h+f, t).Int()
	}
	env := "without other processes"
	if l.client {
		env = "with other processes"
	}
	// expected level and cause after the events so far, kept in the state
	num := func(st *engine.State, k string) int64 {
		var n int64
		fmt.Sscanf(st.Auto[k], "%d", &n)
		return n
	}
	settle := func(st *engine.State, pos token.Pos) {
		if st.Auto["ev"] == "" {
			return
		}
		p := st.Path(24)
		gotL, ok1 := load(st, ".level", lvlT)
		gotC, ok2 := load(st, ".cause", causeT)
		if !ok1 || !ok2 {
			c.Undecided("%s: the level or cause after an event is not known", c.P.RelPos(pos))
			return
		}
		wantL, wantC, from := num(st, "level"), num(st, "cause"), num(st, "from")
		ev := st.Auto["ev"]
		c.Check(gotL == wantL, fmt.Sprintf("level after %s at %d", ev, from), pos, p, "%s: after %s the level is %d, not %d", env, st.Auto["hist"], gotL, wantL)
		c.Check(gotC == wantC, fmt.Sprintf("cause after %s at %d", ev, from), pos, p, "%s: after %s the cause is %d, not %d", env, st.Auto["hist"], gotC, wantC)
		stepped := wantL != from
		c.Check((st.Auto["closed"] == "1") == stepped, fmt.Sprintf("waiters notified of %s at %d", ev, from), pos, p, "%s: after %s (level %d to %d) the channel handed out was closed %q times", env, st.Auto["hist"], from, wantL, st.Auto["closed"])
		if stepped {
			ch := x.Load(st, h+".c", types.NewChan(types.SendRecv, types.Typ[types.Invalid]))
			c.Check(ch.Key() != st.Auto["oldc"], fmt.Sprintf("new channel after %s at %d", ev, from), pos, p, "%s: after %s the closed channel is still handed out", env, st.Auto["hist"])
			c.Check(st.Auto["sections"] == "" || len(st.Auto["sections"]) == 1, fmt.Sprintf("one critical section for %s at %d", ev, from), pos, p, "%s: level, cause and channel change in %d separate critical sections", env, len(st.Auto["sections"]))
		}
	}
	x = engine.New(c.P, engine.Cfg{Root: l.fn, Bind: l.bind, Args: l.argv(), Linear: true, Budget: 60000,
		Init: func(st *engine.State) {
			st.CopyMem(l.st)
			h = l.h
			x.Store(st, h+".level", engine.IntVal(0, lvlT))
			x.Store(st, h+".cause", engine.IntVal(0, causeT))
		},
		OnStore: func(_ *engine.Interp, st *engine.State, in ssa.Instruction, loc string, old, v *engine.Val) {
			if loc == h+".level" || loc == h+".cause" || loc == h+".c" {
				c.Check(st.Auto["locked"] == "1", "change under lock", in.Pos(), st.Path(8), "%s changes without the handler's lock", loc[len(h)+1:])
				sec := st.Auto["nlock"]
				if sec != st.Auto["lastsec"] {
					st.Auto["sections"] += "s"
					st.Auto["lastsec"] = sec
				}
			}
		},
		OnClose: func(_ *engine.Interp, st *engine.State, in ssa.Instruction, ch *engine.Val) {
			if ch.Key() == st.Auto["oldc"] {
				st.Auto["closed"] += "1"
			}
		},
		OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			switch {
			case strings.HasSuffix(k.Name, "Mutex).Lock"):
				k.St.Auto["locked"] = "1"
				k.St.Auto["nlock"] += "l"
				return k.Return(engine.Nil(k.T)), true
			case strings.HasSuffix(k.Name, "Mutex).Unlock"):
				k.St.Auto["locked"] = ""
				return k.Return(engine.Nil(k.T)), true
			}
			return nil, false
		},
		OnSelect: func(_ *engine.Interp, st *engine.State, in *ssa.Select, i int, ch *engine.Val) {
			settle(st, in.Pos())
			c.Check(st.Auto["locked"] == "", "waits unlocked", in.Pos(), st.Path(8), "the listener waits with the handler's lock held")
			if i < 0 || ch == nil {
				return
			}
			from := num(st, "level")
			for _, k := range []string{"closed", "sections", "lastsec", "nlock"} {
				delete(st.Auto, k)
			}
			st.Auto["from"] = fmt.Sprint(from)
			st.Auto["oldc"] = x.Load(st, h+".c", types.NewChan(types.SendRecv, types.Typ[types.Invalid])).Key()
			stop := x.Load(st, h+".stop", types.NewChan(types.SendRecv, types.Typ[types.Invalid])).Key()
			switch {
			case ch.Key() == l.sig:
				if from < 3 {
					st.Auto["level"] = fmt.Sprint(from + 1)
				}
				st.Auto["cause"] = fmt.Sprint(sigCause)
				st.Auto["ev"] = "signal"
			case ch.Key() == stop:
				st.Auto["ev"] = ""
				return
			default:
				if from == 0 {
					st.Auto["level"] = "1"
					st.Auto["cause"] = fmt.Sprint(abCause)
				}
				st.Auto["ev"] = "abort"
			}
			st.Auto["n"] += "e"
			if st.Auto["hist"] != "" {
				st.Auto["hist"] += ", "
			}
			st.Auto["hist"] += st.Auto["ev"]
			if len(st.Auto["n"]) > events {
				st.Stop()
			}
		}})
	x.ContinueTokens(l.x)
	c.Run(x)
	if h == "" || l.sig == "" {
		c.Undecided("the handler or its signal channel is not known")
	}
}

func c02poll(c *Ctx, l ihLaunch) {
	var x *engine.Interp
	x = engine.New(c.P, engine.Cfg{Root: l.fn, Bind: l.bind, Args: l.argv(), Linear: true, Budget: 60000,
		Init: func(st *engine.State) { st.CopyMem(l.st) },
		OnClose: func(_ *engine.Interp, st *engine.State, in ssa.Instruction, ch *engine.Val) {
			st.Auto["closed"] += "1"
			c.Check(st.Auto["abort"] == "1", "announces only aborts", in.Pos(), st.Path(10), "an abort is announced although none was reported")
		},
		OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			if strings.HasSuffix(k.Name, "Client.ShouldAbort") {
				o := k.St.Clone()
				o.Auto["abort"] = "1"
				o.Note("%s: another process has aborted", c.P.RelPos(k.Pos()))
				return []engine.Outcome{{St: k.St, Ret: engine.BoolVal(false)}, {St: o, Ret: engine.BoolVal(true)}}, true
			}
			return nil, false
		},
		OnSelect: func(_ *engine.Interp, st *engine.State, in *ssa.Select, i int, ch *engine.Val) {
			if st.Auto["abort"] == "1" {
				c.Check(st.Auto["closed"] == "1", "abort announced", in.Pos(), st.Path(10), "another process has aborted but the listener is not told")
			}
			st.Auto["n"] += "e"
			if ch != nil {
				stop := x.Load(st, l.h+".stop", types.NewChan(types.SendRecv, types.Typ[types.Invalid])).Key()
				if ch.Key() == stop {
					st.Auto["stopped"] = "1"
				}
			}
			if len(st.Auto["n"]) > 4 {
				st.Stop()
			}
		}})
	x.ContinueTokens(l.x)
	c.Run(x)
	for _, e := range x.Exits {
		if e.Kind != engine.ExitReturn {
			continue
		}
		if e.St.Auto["abort"] == "1" {
			c.Check(e.St.Auto["closed"] == "1", "abort announced once", e.Pos, e.St.Path(10), "another process has aborted; the listener is told %d times", len(e.St.Auto["closed"]))
		} else {
			c.Check(e.St.Auto["stopped"] == "1", "keeps asking", e.Pos, e.St.Path(10), "stops asking whether another process aborted while the run goes on")
		}
	}
}

// c02monotone: any other function that sets the level never lowers it.
func c02monotone(c *Ctx) {
	t := c.Type(ihPkg, "InterruptHandler")
	lvlT := c.Type(ihPkg, "InterruptLevel")
	if t == nil || lvlT == nil {
		return
	}
	field := "internal/interrupt_handler.InterruptHandler.level"
	all := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		all[f] = true
	}
	var fns []*ssa.Function
	seen := map[*ssa.Function]bool{}
	n := 0
	for _, f := range c.P.Funcs {
		if !strings.HasSuffix(f.Pkg.Pkg.Path(), ihPkg) || f.Parent() != nil || seen[f] {
			continue
		}
		seen[f] = true
		if f.Signature.Recv() != nil && storesTo(c, f, field) {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	for _, f := range fns {
		pre := "*" + f.Params[0].Name()
		for lv := int64(0); lv < 4; lv++ {
			var x *engine.Interp
			x = engine.New(c.P, engine.Cfg{Root: f, Linear: true, Budget: 4000,
				Init: func(st *engine.State) { x.Store(st, pre+".level", engine.IntVal(lv, lvlT)) },
				OnStore: func(_ *engine.Interp, st *engine.State, in ssa.Instruction, loc string, old, v *engine.Val) {
					if loc != pre+".level" {
						return
					}
					n++
					if to, ok := v.Int(); ok {
						if from, ok := old.Int(); ok {
							c.Check(to >= from, "level set in "+c.P.CalleeName(f), in.Pos(), st.Path(6), "the level is set from %d to %d", from, to)
						}
					}
				}})
			x.Run()
		}
	}
	c.Ok("functions that set the level outside the listener: %d stores checked", n)
}

func c02status(c *Ctx) {
	fn := c.Fn("(*internal/interrupt_handler.InterruptHandler).Status")
	lvlT, causeT := c.Type(ihPkg, "InterruptLevel"), c.Type(ihPkg, "InterruptCause")
	t := c.Type(ihPkg, "InterruptHandler")
	if fn == nil || lvlT == nil || causeT == nil || t == nil {
		return
	}
	pre := "*" + fn.Params[0].Name()
	chT := fieldOfType(t, "c")
	clT := fieldOfType(t, "client")
	if chT == nil || clT == nil {
		c.Undecided("the handler has no channel or no client")
		return
	}
	for lv := int64(0); lv < 4; lv++ {
		for _, client := range []bool{false, true} {
			for _, aborted := range []bool{false, true} {
				if aborted && !client {
					continue
				}
				env := fmt.Sprintf("at level %d, other processes %v, one of them aborted %v", lv, client, aborted)
				set := func(x *engine.Interp, st *engine.State, gen, l, cause int64) {
					x.Store(st, pre+".level", engine.IntVal(l, lvlT))
					x.Store(st, pre+".cause", engine.IntVal(cause, causeT))
					x.Store(st, pre+".c", engine.Sym(fmt.Sprintf("nonnil:chan%d", gen), chT))
				}
				waited := func(x *engine.Interp, st *engine.State, ch *engine.Val) {
					if ch != nil && ch.Key() == x.Load(st, pre+".c", chT).Key() {
						st.Auto["waited"] = "1"
						set(x, st, 1, lv+1, 2)
						st.Note("the listener raises the level")
					}
				}
				var x *engine.Interp
				x = engine.New(c.P, engine.Cfg{Root: fn, Linear: true, Budget: 8000,
					Init: func(st *engine.State) {
						cause := int64(0)
						if lv > 0 {
							cause = 1
						}
						set(x, st, 0, lv, cause)
						if client {
							x.Store(st, pre+".client", engine.Sym("nonnil:client", clT))
						} else {
							x.Store(st, pre+".client", engine.Nil(clT))
						}
					},
					OnRecv: func(_ *engine.Interp, st *engine.State, in ssa.Instruction, ch *engine.Val) { waited(x, st, ch) },
					OnSelect: func(_ *engine.Interp, st *engine.State, in *ssa.Select, i int, ch *engine.Val) {
						waited(x, st, ch)
						st.Auto["sel"] += "s"
						if len(st.Auto["sel"]) > 4 {
							st.Stop()
						}
					},
					OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
						switch {
						case strings.HasSuffix(k.Name, "Client.ShouldAbort"):
							return k.Return(engine.BoolVal(aborted)), true
						case strings.HasSuffix(k.Name, "Mutex).Lock"), strings.HasSuffix(k.Name, "Mutex).Unlock"):
							outs := k.Return(engine.Nil(k.T))
							if lv < 3 && k.St.Auto["raced"] == "" && k.St.Auto["waited"] == "" {
								// a signal may arrive whenever the lock is free
								o := k.St.Clone()
								o.Auto["raced"] = "1"
								o.Note("%s: a signal arrives", c.P.RelPos(k.Pos()))
								set(x, o, 1, lv+1, 1)
								outs = append(outs, engine.Outcome{St: o, Ret: engine.Nil(k.T)})
							}
							return outs, true
						}
						return nil, false
					}})
				c.Run(x)
				for _, e := range x.Exits {
					if e.Kind != engine.ExitReturn {
						continue
					}
					p := e.St.Path(10)
					l, ok1 := x.FieldOf(e.St, e.Ret, "Level").Int()
					cs, ok2 := x.FieldOf(e.St, e.Ret, "Cause").Int()
					ch := x.FieldOf(e.St, e.Ret, "Channel").Key()
					if !ok1 || !ok2 {
						c.Undecided("%s: what a query answers is not known", env)
						continue
					}
					gen, ll, cc := "chan0", lv, int64(0)
					if lv > 0 {
						cc = 1
					}
					if l != lv { // the later state
						gen, ll, cc = "chan1", lv+1, 1
						if e.St.Auto["waited"] != "" {
							cc = 2
						}
					}
					c.Check(l == ll && cs == cc && strings.Contains(ch, gen), fmt.Sprintf("answer at level %d", lv), e.Pos, p, "%s: the answer is level %d, cause %d with channel %s: no state the handler was in", env, l, cs, ch)
					if aborted {
						c.Check(l > 0, "abort is not overlooked", e.Pos, p, "%s: the answer is uninterrupted", env)
					}
				}
			}
		}
	}
}

func c02gates(c *Ctx) {
	fn := c.Fn("(*internal.Suite).runNode")
	lvlT, causeT, statusT := c.Type(ihPkg, "InterruptLevel"), c.Type(ihPkg, "InterruptCause"), c.Type(ihPkg, "InterruptStatus")
	ntT := c.Type("types", "NodeType")
	if fn == nil || lvlT == nil || causeT == nil || statusT == nil || ntT == nil {
		return
	}
	nodeP := -1
	for i, p := range fn.Params {
		if engine.TypeStr(p.Type()) == "internal.Node" {
			nodeP = i
		}
	}
	if nodeP < 0 {
		c.Undecided("running a node takes no node")
		return
	}
	cleanup := "|AfterEach|JustAfterEach|AfterAll|AfterSuite|SynchronizedAfterSuite|CleanupAfterEach|CleanupAfterAll|CleanupAfterSuite|"
	report := "|ReportBeforeEach|ReportAfterEach|ReportBeforeSuite|ReportAfterSuite|"
	skipped, _ := c.ConstVal("types", "SpecStateSkipped").Int()
	for _, m := range c.P.EnumDomain(ntT) {
		kind := strings.TrimPrefix(m.Name, "NodeType")
		if kind == "Invalid" || kind == "Container" {
			continue
		}
		for lv := int64(0); lv < 4; lv++ {
			for cause := int64(0); cause < 3; cause++ {
				if (lv == 0) != (cause == 0) || cause == 2 && lv > 1 {
					continue
				}
				allowed := lv == 0 || lv == 1 && strings.Contains(cleanup+report, "|"+kind+"|") || lv == 2 && strings.Contains(report, "|"+kind+"|")
				started := 0
				var x *engine.Interp
				x = engine.New(c.P, engine.Cfg{Root: fn, Budget: 20000,
					Args:      withArg(fn, nodeP, engine.Agg(engine.ParamSym(fn.Params[nodeP]), map[string]*engine.Val{"NodeType": engine.IntVal(m.Val, ntT)}, fn.Params[nodeP].Type())),
					Track:     func(l string) bool { return strings.HasPrefix(l, "local") },
					TrackFact: func(*engine.Val) bool { return false },
					OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
						if strings.HasSuffix(k.Name, ".Status") && k.T != nil && engine.TypeStr(k.T) == engine.TypeStr(statusT) {
							return k.Return(engine.Agg(k.Fresh(), map[string]*engine.Val{"Level": engine.IntVal(lv, lvlT), "Cause": engine.IntVal(cause, causeT)}, statusT)), true
						}
						return nil, false
					},
					OnGo: func(k *engine.Call) {
						started++
						c.Check(allowed, fmt.Sprintf("%s at level %d", kind, lv), k.Pos(), k.St.Path(6), "a %s node starts after interrupt number %d", kind, lv)
						k.St.Stop()
					}})
				c.Run(x)
				for _, e := range x.Exits {
					if e.Kind != engine.ExitReturn || e.Ret == nil {
						continue
					}
					if !c.Check(!allowed, fmt.Sprintf("%s runs at level %d", kind, lv), e.Pos, e.St.Path(8), "a %s node does not start although the level is %d", kind, lv) {
						continue
					}
					if len(e.Ret.Args) > 0 {
						if s, ok := e.Ret.Args[0].Int(); ok {
							c.Check(s == skipped, fmt.Sprintf("%s skipped at level %d", kind, lv), e.Pos, e.St.Path(6), "a %s node that may not start at level %d ends in state %d", kind, lv, s)
						} else {
							c.Undecided("the outcome of a %s node at level %d is not known", kind, lv)
						}
					}
				}
				if started == 0 && len(x.Exits) == 0 {
					c.Undecided("%s at level %d: nothing happens", kind, lv)
				}
			}
		}
	}
}

// c02delivery: os/signal never waits for a receiver, so the channel it notifies must have room.
func c02delivery(c *Ctx) {
	for _, fn := range c.P.Funcs {
		p := fn.Pkg
		if p == nil || !strings.HasSuffix(p.Pkg.Path(), ihPkg) && !strings.HasSuffix(p.Pkg.Path(), "/internal") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := call.Common().StaticCallee()
				if f == nil || f.String() != "os/signal.Notify" || len(call.Common().Args) < 1 {
					continue
				}
				name := c.P.CalleeName(fn)
				makes, all := madeChans(c, call.Common().Args[0], map[ssa.Value]bool{})
				if !all || len(makes) == 0 {
					c.Undecided("cannot see where the channel notified of signals in %s is made", name)
					continue
				}
				for _, m := range makes {
					if unread(m) {
						c.Ok("signals delivered to the channel in %s are only swallowed", name)
						continue
					}
					k, ok := m.Size.(*ssa.Const)
					if !ok {
						c.Undecided("the capacity of the channel notified of signals in %s is computed", name)
						continue
					}
					c.Check(k.Int64() > 0, "signal channel in "+name, m.Pos(), nil, "the channel notified of signals in %s has no room: a signal that arrives while its receiver is busy is dropped", name)
				}
			}
		}
	}
}

// unread reports whether nothing but the notification uses the channel: it only swallows signals.
func unread(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.ChangeType:
			if !unread(r) {
				return false
			}
		case ssa.CallInstruction:
			if f := r.Common().StaticCallee(); f == nil || f.String() != "os/signal.Notify" {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// madeChans lists the makes a channel value may come from; all is false when some source is out of sight.
func madeChans(c *Ctx, v ssa.Value, seen map[ssa.Value]bool) (out []*ssa.MakeChan, all bool) {
	if seen[v] {
		return nil, true
	}
	seen[v] = true
	join := func(vs ...ssa.Value) ([]*ssa.MakeChan, bool) {
		var o []*ssa.MakeChan
		ok := true
		for _, e := range vs {
			m, a := madeChans(c, e, seen)
			o = append(o, m...)
			ok = ok && a
		}
		return o, ok
	}
	switch v := v.(type) {
	case *ssa.MakeChan:
		return []*ssa.MakeChan{v}, true
	case *ssa.ChangeType:
		return join(v.X)
	case *ssa.Phi:
		return join(v.Edges...)
	case *ssa.Const:
		return nil, v.IsNil()
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return nil, false
		}
		var srcs []ssa.Value
		switch a := v.X.(type) {
		case *ssa.Alloc:
			for _, r := range *a.Referrers() {
				switch r := r.(type) {
				case *ssa.Store:
					if r.Addr == ssa.Value(a) {
						srcs = append(srcs, r.Val)
					}
				case *ssa.UnOp, *ssa.MakeClosure, *ssa.DebugRef:
				default:
					return nil, false
				}
			}
		case *ssa.FieldAddr:
			for _, g := range c.P.Funcs {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						st, ok := in.(*ssa.Store)
						if !ok {
							continue
						}
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.Field == a.Field && types.Identical(fa.X.Type(), a.X.Type()) {
							srcs = append(srcs, st.Val)
						}
					}
				}
			}
		default:
			return nil, false
		}
		if len(srcs) == 0 {
			return nil, false
		}
		return join(srcs...)
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil || len(f.Blocks) == 0 {
			return nil, false
		}
		var rets []ssa.Value
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
				rets = append(rets, r.Results[0])
			}
		}
		if len(rets) == 0 {
			return nil, false
		}
		return join(rets...)
	}
	return nil, false
}
