package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{ID: "O02", Technique: "abstract interpretation of the node runner, By, report entries and progress reports with a model counter, over every bounded arrival order at the runner's wait, judging the trace of emitted and stored events; lock and critical-section analysis of the counter; table of the timeline",
		Note: "Every sequence of up to four events at the runner's wait. The writer's contents, user progress reporters and the goroutine dump are left open.",
		Run:  o02})
}

func o02(c *Ctx) {
	c.Rule("position", "a timeline position is drawn by advancing the suite's counter and reading it in one critical section, so no two are alike and a later one is greater")
	o02counter(c)
	c.Floor(2)
	c.Rule("node", "a node that starts emits one start event first and, on every way out of the runner, one end event with the same kind, text and place last; events, progress reports and failures met on the way are stored as they are forwarded, each at a fresh position")
	o02nodes(c)
	c.Floor(100)
	c.Rule("body-failure", "the failure a node's body leaves is given a fresh position before it is handed to the runner, whether the body returned, panicked or ended its goroutine")
	o02body(c)
	c.Floor(3)
	c.Rule("step", "a step emits its start; with a callback it emits one end with the same text and place when the callback returns, panics or ends the goroutine, and the step in progress is cleared")
	o02steps(c)
	c.Floor(4)
	c.Rule("entries", "a report entry and a progress report are stored and forwarded with the same fresh position; a progress report of a parallel process goes to the coordinator as well")
	o02entries(c)
	c.Floor(4)
	c.Rule("leaf-failure", "a failure made outside a node's body has a fresh position and the node's place")
	o02leaf(c)
	c.Floor(1)
	c.Rule("timeline", "the timeline of a spec holds its failure, the failures added to it, its entries, progress reports and events, ordered by position")
	o02timeline(c)
	c.Floor(4)
}

// o02counter: the counter is changed only by advancing it, under a lock, and what is handed out is read before the lock
// is released.
func o02counter(c *Ctx) {
	suiteT := c.Type("internal", "Suite")
	if suiteT == nil {
		c.Undecided("no suite")
		return
	}
	// the counter: the integer field of the suite that the position's Order is taken from
	field := "internal.Suite.timelineOrder"
	accs := c.P.Accesses(field)
	if len(accs) == 0 {
		c.Undecided("the suite has no counter of timeline positions")
		return
	}
	li := c.P.Locks()
	byFn := map[*ssa.Function][]engine.Access{}
	for _, a := range accs {
		if a.Fresh || underConstruction(c, a, 0) {
			continue
		}
		byFn[a.Fn] = append(byFn[a.Fn], a)
	}
	for _, fn := range c.P.Funcs {
		as := byFn[fn]
		if len(as) == 0 {
			continue
		}
		c.Funcs[c.P.CalleeName(fn)] = true
		for _, a := range as {
			held := len(li.Must[a.In]) > 0
			c.Check(held, "counter used under a lock in "+c.P.CalleeName(fn), a.In.Pos(), nil, "%s is used without a lock held", field)
			if s, ok := a.In.(*ssa.Store); ok {
				ok := false
				if b, isBin := s.Val.(*ssa.BinOp); isBin && b.Op == token.ADD {
					for _, pair := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
						if k, isC := pair[1].(*ssa.Const); isC && k.Int64() > 0 {
							if u, isU := pair[0].(*ssa.UnOp); isU && u.Op == token.MUL {
								for _, o := range as {
									ok = ok || o.In == ssa.Instruction(u)
								}
							}
						}
					}
				} else if !isBin {
					if _, isCall := s.Val.(*ssa.Call); isCall {
						c.Undecided("how %s is advanced", field)
						continue
					}
				}
				c.Check(ok, "counter only advanced in "+c.P.CalleeName(fn), s.Pos(), nil, "%s is set to something other than a later value", field)
			}
		}
		// one critical section: no lock is released between two uses in one activation
		var unlocks []ssa.Instruction
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok {
					if f := call.Call.StaticCallee(); f != nil && (f.Name() == "Unlock" || f.Name() == "RUnlock") && strings.HasPrefix(f.String(), "(*sync.") {
						unlocks = append(unlocks, in)
					}
				}
			}
		}
		for _, a := range as {
			for _, b := range as {
				if a.In == b.In {
					continue
				}
				for _, u := range unlocks {
					if comesAfter(a.In, u) && comesAfter(u, b.In) && !comesAfter(b.In, a.In) {
						c.Fail("counter read in the section that advances it in "+c.P.CalleeName(fn), b.In.Pos(), []string{c.P.RelPos(a.In.Pos()) + ": the counter is used", c.P.RelPos(u.Pos()) + ": the lock is released", c.P.RelPos(b.In.Pos()) + ": the counter is used again"}, "the lock is released between advancing %s and reading it", field)
					}
				}
			}
		}
		c.Ok("%s: uses of the counter in one critical section", c.P.CalleeName(fn))
	}
	fn := c.Fn("(*internal.Suite).generateTimelineLocation")
	if fn == nil {
		return
	}
	var x *engine.Interp
	pre := suitePrefix(fn)
	x = engine.New(c.P, engine.Cfg{Root: fn, Linear: true, Budget: 4000, Init: func(st *engine.State) {
		x.Store(st, pre+".timelineOrder", engine.IntVal(7, types.Typ[types.Int]))
	}})
	c.Run(x)
	for _, e := range x.Exits {
		if e.Kind != engine.ExitReturn || e.Ret == nil {
			continue
		}
		got, ok1 := x.FieldOf(e.St, e.Ret, "Order").Int()
		left, ok2 := x.Load(e.St, pre+".timelineOrder", types.Typ[types.Int]).Int()
		if !ok1 || !ok2 {
			c.Undecided("the position drawn is not known")
			continue
		}
		c.Check(got >= 7 && left > 7 && left >= got && !(got == 7 && left == 7), "position drawn is new", e.Pos, e.St.Path(6), "with the counter at 7 the position drawn is %d and the counter is left at %d", got, left)
		tm := x.FieldOf(e.St, e.Ret, "Time")
		c.Check(tm == nil || !tm.IsNil(), "position has a time", e.Pos, e.St.Path(6), "the position drawn has no time")
	}
}

// comesAfter: j can be executed after i within one activation.
func comesAfter(i, j ssa.Instruction) bool {
	if i.Block() == j.Block() {
		for _, in := range i.Block().Instrs {
			if in == i {
				return true
			}
			if in == j {
				break
			}
		}
	}
	return reachesBlock(i.Block(), j.Block())
}

// o02ev is one event seen by the reporter.
type o02trace struct {
	c *Ctx
	x *engine.Interp
}

func (t *o02trace) show(st *engine.State, v *engine.Val) string {
	if v == nil {
		return "?"
	}
	return v.Key()
}

// identity of an event: everything but its type, position and duration
func (t *o02trace) event(st *engine.State, v *engine.Val) (typ, id, order string) {
	x := t.x
	f := func(n string) string { return t.show(st, x.FieldOf(st, v, n)) }
	typ = f("SpecEventType")
	id = f("NodeType") + " " + f("Message") + " " + f("CodeLocation") + " " + f("Attempt")
	order = t.order(st, v)
	return
}

func (t *o02trace) order(st *engine.State, v *engine.Val) string {
	l := t.x.FieldOf(st, v, "TimelineLocation")
	if l == nil {
		return "?"
	}
	return t.show(st, t.x.FieldOf(st, l, "Order"))
}

func (t *o02trace) failure(st *engine.State, v *engine.Val) string {
	x := t.x
	return t.show(st, x.FieldOf(st, v, "Message")) + " at " + t.show(st, x.FieldOf(st, v, "Location")) + " position " + t.order(st, v)
}

const o02sep = "\x01"

func o02add(st *engine.State, key, s string) { st.Auto[key] += s + o02sep }
func o02list(st *engine.State, key string) []string {
	if st.Auto[key] == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(st.Auto[key], o02sep), o02sep)
}

// observe records what is handed to the reporter and the coordinator; it answers progress report building.
func (t *o02trace) observe(k *engine.Call) ([]engine.Outcome, bool) {
	st := k.St
	last := func() *engine.Val {
		if len(k.Args) == 0 {
			return nil
		}
		return k.Args[len(k.Args)-1]
	}
	switch {
	case strings.HasSuffix(k.Name, "Reporter.EmitSpecEvent"):
		typ, id, order := t.event(st, last())
		o02add(st, "events", typ+"|"+id+"|"+order)
		o02add(st, "orders", order)
		st.Note("%s: an event of type %s is forwarded", t.c.P.RelPos(k.Pos()), typ)
		return k.Return(engine.Nil(k.T)), true
	case strings.HasSuffix(k.Name, "Reporter.EmitProgressReport"):
		o := t.order(st, last())
		o02add(st, "progress", o)
		o02add(st, "orders", o)
		st.Note("%s: a progress report is forwarded", t.c.P.RelPos(k.Pos()))
		return k.Return(engine.Nil(k.T)), true
	case strings.HasSuffix(k.Name, "Reporter.EmitReportEntry"):
		o := t.order(st, last())
		o02add(st, "entries", o)
		o02add(st, "orders", o)
		return k.Return(engine.Nil(k.T)), true
	case strings.HasSuffix(k.Name, "Reporter.EmitFailure"):
		o02add(st, "failures", t.failure(st, last()))
		o02add(st, "forders", t.order(st, last()))
		st.Note("%s: a failure is forwarded", t.c.P.RelPos(k.Pos()))
		return k.Return(engine.Nil(k.T)), true
	case strings.HasSuffix(k.Name, ".PostEmitProgressReport"):
		o02add(st, "posted", t.order(st, last()))
		return k.Return(engine.Nil(k.T)), true
	case strings.HasSuffix(k.Name, "internal.NewProgressReport"):
		tup, ok := k.T.(*types.Tuple)
		if !ok {
			return nil, false
		}
		var loc *engine.Val
		for i, p := range k.Fn.Params {
			if engine.TypeStr(p.Type()) == "types.TimelineLocation" && i < len(k.Args) {
				loc = k.Args[i]
			}
		}
		if loc == nil {
			return nil, false
		}
		pr := engine.Agg(engine.Nil(tup.At(0).Type()), map[string]*engine.Val{"TimelineLocation": loc}, tup.At(0).Type())
		return k.Return(engine.Tuple(pr, engine.Nil(tup.At(1).Type()))), true
	case strings.HasSuffix(k.Name, ".QueryProgressReporters"), strings.HasPrefix(k.Name, "types.NewCodeLocation"):
		return k.Return(k.Fresh()), true
	}
	return nil, false
}

// stored lists what the record holds.
func (t *o02trace) stored(st *engine.State, pre, field string, one func(*engine.Val) string) ([]string, bool) {
	loc := pre + ".currentSpecReport." + field
	repT := t.c.Type("types", "SpecReport")
	ft := fieldOfType(repT, field)
	if ft == nil {
		return nil, false
	}
	es, ok := t.x.Elems(st, t.x.Load(st, loc, ft))
	if !ok {
		return nil, false
	}
	var out []string
	for _, e := range es {
		out = append(out, one(e))
	}
	return out, true
}

// distinct judges the positions used so far: integers, increasing, none twice.
func (t *o02trace) distinct(e *engine.Exit, what, key string) {
	prev := int64(0)
	for _, o := range o02list(e.St, key) {
		var n int64
		if k, _ := fmt.Sscanf(o, "%d", &n); k != 1 {
			continue
		}
		t.c.Check(n > prev, what+": positions increase", e.Pos, e.St.Path(16), "%s: position %d is used after position %d", what, n, prev)
		prev = n
	}
}

func o02init(c *Ctx, x *engine.Interp, st *engine.State, pre string) {
	repT := c.Type("types", "SpecReport")
	for _, f := range []string{"SpecEvents", "ProgressReports", "ReportEntries"} {
		if ft := fieldOfType(repT, f); ft != nil {
			x.Store(st, pre+".currentSpecReport."+f, engine.Nil(ft))
		}
	}
	x.Store(st, pre+".timelineOrder", engine.IntVal(0, types.Typ[types.Int]))
}

func o02nodes(c *Ctx) {
	r := newC01(c)
	if r == nil {
		return
	}
	r.follow = true
	failT := c.Type("types", "Failure")
	evT := c.Type("types", "SpecEventType")
	if failT == nil || evT == nil {
		c.Undecided("no failures or no event types")
		return
	}
	start, end := c.ConstVal("types", "SpecEventNodeStart"), c.ConstVal("types", "SpecEventNodeEnd")
	if start == nil || end == nil {
		c.Undecided("no event types for a node's start and end")
		return
	}
	max, budget := 3, 600000
	if c.Tier == "thorough" {
		max, budget = 4, 1500000
	}
	val := map[string]int64{}
	for _, n := range []string{"Passed", "Failed", "Interrupted", "Timedout", "Skipped"} {
		val[n], _ = c.ConstVal("types", "SpecState"+n).Int()
	}
	for _, kind := range []string{"It", "AfterEach", "ReportAfterEach", "BeforeSuite"} {
		for _, fin := range []string{"Passed", "Failed", "Skipped"} {
			for _, hasContext := range []bool{true, false} {
				for level := int64(0); level <= 3; level++ {
					if level > 0 && (fin != "Failed" || !hasContext) {
						continue
					}
					s := c01scene{timeout: 20, grace: 3, cfgGrace: 7, hasContext: hasContext, kind: kind, poll: 1, pollRepeat: 1, level: level}
					if fin != "Failed" {
						s.poll = 0
					}
					t := &o02trace{c: c}
					var x *engine.Interp
					num := func(st *engine.State, k string) int64 {
						var n int64
						fmt.Sscanf(st.Auto[k], "%d", &n)
						return n
					}
					x = r.interp(s, func(k *engine.Call) ([]engine.Outcome, bool) {
						if o, ok := t.observe(k); ok {
							return o, true
						}
						au := k.St.Auto
						if strings.HasSuffix(k.Name, ".Status") && k.T != nil && engine.TypeStr(k.T) == engine.TypeStr(r.statusT) && au["started"] != "" {
							if au["fresh"] == "" {
								return k.Return(r.status(k, int(num(k.St, "gen")), num(k.St, "level"), num(k.St, "cause"))), true
							}
							au["fresh"] = ""
							var outs []engine.Outcome
							old := num(k.St, "level")
							if old < level {
								old = level
							}
							for lv := old + 1; lv <= 3; lv++ {
								for cause := int64(1); cause <= 2; cause++ {
									o := k.St.Clone()
									o.Auto["level"], o.Auto["cause"] = fmt.Sprint(lv), fmt.Sprint(cause)
									o.Auto["gen"] = fmt.Sprint(num(o, "gen") + 1)
									outs = append(outs, engine.Outcome{St: o, Ret: r.status(k, int(num(o, "gen")), lv, cause)})
								}
							}
							return outs, true
						}
						return nil, false
					}, engine.Cfg{
						Budget: budget,
						Init: func(st *engine.State) {
							o02init(c, x, st, r.pre)
						},
						OnGo: func(k *engine.Call) { k.St.Auto["started"] = "1" },
						RecvVal: func(x *engine.Interp, st *engine.State, in ssa.Instruction, ch *engine.Val) *engine.Val {
							return handedOver(ch, engine.IntVal(val[fin], r.stT))
						},
						OnSelect: func(x *engine.Interp, st *engine.State, in *ssa.Select, i int, ch *engine.Val) {
							au := st.Auto
							au["n"] += "e"
							if len(au["n"]) > max+1 {
								st.Stop()
								return
							}
							if ch != nil && strings.Contains(ch.Key(), "interrupt") {
								if num(st, "level") >= 3 || level >= 3 {
									st.Stop()
									return
								}
								au["fresh"] = "1"
							}
						}})
					t.x = x
					c.Run(x)
					n := 0
					for _, e := range x.Exits {
						if e.Kind == engine.ExitStop {
							continue
						}
						n++
						o02judgeNode(c, t, r, s, fin, e, start.Key(), end.Key(), val)
					}
					if n == 0 {
						c.Undecided("%s: the runner is never left", s)
					}
				}
			}
		}
	}
}

func o02judgeNode(c *Ctx, t *o02trace, r *c01run, s c01scene, fin string, e *engine.Exit, start, end string, val map[string]int64) {
	p := e.St.Path(18)
	evs := o02list(e.St, "events")
	ran := e.St.Auto["started"] != ""
	starts, ends := []int{}, []int{}
	for i, ev := range evs {
		switch strings.SplitN(ev, "|", 2)[0] {
		case start:
			starts = append(starts, i)
		case end:
			ends = append(ends, i)
		}
	}
	if ran {
		c.Check(len(starts) == 1, "node start event", e.Pos, p, "%s: a node that runs emits %d start events", s, len(starts))
	}
	c.Check(len(starts) == len(ends), "node end event", e.Pos, p, "%s: %d start events and %d end events are emitted", s, len(starts), len(ends))
	if len(starts) == 1 && len(ends) == 1 {
		a, b := strings.Split(evs[starts[0]], "|"), strings.Split(evs[ends[0]], "|")
		c.Check(len(a) == 3 && len(b) == 3 && a[1] == b[1], "node end identity", e.Pos, p, "%s: the end event (%s) is not for the node of the start event (%s)", s, b[1], a[1])
		c.Check(starts[0] == 0 && ends[0] == len(evs)-1, "node events enclose", e.Pos, p, "%s: the start and end events are not the first and the last", s)
		nt := c.ConstVal("types", "NodeType"+s.kind)
		c.Check(nt == nil || strings.HasPrefix(a[1], nt.Key()+" "), "node event kind", e.Pos, p, "%s: the event is of a %s", s, a[1])
		c.Check(strings.Contains(a[1], "CodeLocation"), "node event place", e.Pos, p, "%s: the event does not carry the node's place (%s)", s, a[1])
	}
	t.distinct(e, "everything forwarded", "orders")
	judge := func(field, key string, one func(*engine.Val) string) {
		got, ok := t.stored(e.St, r.pre, field, one)
		if !ok {
			c.Undecided("%s: what the record holds (%s) is not known", s, field)
			return
		}
		want := o02list(e.St, key)
		c.Check(strings.Join(got, o02sep) == strings.Join(want, o02sep), "stored as forwarded: "+field, e.Pos, p, "%s: the record's %s are [%s] and [%s] were forwarded", s, field, strings.Join(got, "; "), strings.Join(want, "; "))
	}
	judge("SpecEvents", "events", func(v *engine.Val) string {
		typ, id, order := t.event(e.St, v)
		return typ + "|" + id + "|" + order
	})
	judge("ProgressReports", "progress", func(v *engine.Val) string { return t.order(e.St, v) })
	if e.Kind != engine.ExitReturn || len(e.Ret.Args) < 2 {
		return
	}
	n, ok := e.Ret.Args[0].Int()
	if !ok {
		c.Undecided("%s: the outcome is not known", s)
		return
	}
	fs := o02list(e.St, "failures")
	count := func(f string) (n int) {
		for _, g := range fs {
			if g == f {
				n++
			}
		}
		return
	}
	failure := e.Ret.Args[1]
	if !ran || n == val["Passed"] {
		c.Check(len(fs) == 0, "no failure without one", e.Pos, p, "%s: a failure is forwarded though the node was not run or passed", s)
		return
	}
	id := t.failure(e.St, failure)
	c.Check(count(id) == 1, "failure forwarded once", e.Pos, p, "%s: the failure returned (%s) is forwarded %d times (%s)", s, id, count(id), strings.Join(fs, "; "))
	o := t.order(e.St, failure)
	if o != "?" {
		c.Check(o != "0", "failure has a position", e.Pos, p, "%s: the failure returned has no position", s)
		for _, used := range o02list(e.St, "orders") {
			if used == o && !strings.Contains(o, "body-failure") {
				c.Fail("failure's position its own", e.Pos, p, "%s: the failure's position %s is also that of an event", s, o)
			}
		}
	}
	want := 1
	if add := t.x.FieldOf(e.St, failure, "AdditionalFailure"); add != nil && !add.IsNil() {
		want = 2
		loc, _ := t.x.Deref(add)
		f := t.x.Load(e.St, loc+".Failure", c.Type("types", "Failure"))
		id := t.failure(e.St, f)
		c.Check(count(id) == 1, "additional failure forwarded", e.Pos, p, "%s: the additional failure (%s) is forwarded %d times (%s)", s, id, count(id), strings.Join(fs, "; "))
		c.Check(strings.Contains(t.order(e.St, f), "body-failure"), "additional failure's position", e.Pos, p, "%s: the additional failure is placed at %s, not where the body failed", s, t.order(e.St, f))
	}
	c.Check(len(fs) == want, "failures forwarded are the record's", e.Pos, p, "%s: %d failures are forwarded and %d recorded", s, len(fs), want)
}

// o02body: what the body's goroutine sends.
func o02body(c *Ctx) {
	r := newC01(c)
	if r == nil {
		return
	}
	s := c01scene{timeout: 0, grace: 3, cfgGrace: 7, hasContext: true, kind: "It"}
	seen := map[string]int{}
	var x *engine.Interp
	x = r.interp(s, nil, engine.Cfg{
		Init: func(st *engine.State) { o02init(c, x, st, r.pre) },
		OnGo: func(k *engine.Call) {
			if k.Fn == nil {
				return
			}
			for _, how := range []string{"returns", "panics", "ends the goroutine"} {
				how := how
				var y *engine.Interp
				t := &o02trace{c: c}
				y = engine.New(c.P, engine.Cfg{Root: k.Fn, Bind: k.Bind, Args: k.Args, Linear: true, Budget: 4000,
					Init: func(st *engine.State) { st.CopyMem(k.St); o02init(c, y, st, r.pre) },
					OnSend: func(x *engine.Interp, st *engine.State, in ssa.Instruction, ch, v *engine.Val) {
						if v != nil && v.T != nil {
							if sT, ok := v.T.Underlying().(*types.Struct); ok && engine.TypeStr(v.T) != "types.Failure" {
								for i := 0; i < sT.NumFields(); i++ {
									if f := sT.Field(i); engine.TypeStr(f.Type()) == "types.Failure" {
										v = x.FieldOf(st, v, f.Name()) // handed over together with the outcome
										break
									}
								}
							}
						}
						if v == nil || v.T == nil || engine.TypeStr(v.T) != "types.Failure" {
							return
						}
						seen[how]++
						o := t.order(st, v)
						var n int64
						k, _ := fmt.Sscanf(o, "%d", &n)
						c.Check(k == 1 && n > 0, "position of a body's failure", in.Pos(), st.Path(8), "the body %s and its failure is handed over with position %s, not a fresh one", how, o)
					},
					OnCall: func(b *engine.Call) ([]engine.Outcome, bool) {
						switch {
						case b.Com != nil && isNodeBody(c)(b.Com):
							switch how {
							case "returns":
								return b.Return(engine.Nil(b.T)), true
							case "panics":
								return []engine.Outcome{{St: b.St, Kind: engine.ExitPanic}}, true
							}
							return []engine.Outcome{{St: b.St, Kind: engine.ExitGoexit}}, true
						case strings.HasPrefix(b.Name, "types.NewCodeLocation"), strings.HasSuffix(b.Name, "Failer).Panic"):
							if b.T == nil {
								return b.Return(engine.Nil(b.T)), true
							}
							return b.Return(b.Fresh()), true
						case strings.HasSuffix(b.Name, ".Drain"):
							tup, ok := b.T.(*types.Tuple)
							if !ok {
								return nil, false
							}
							return b.Return(engine.Tuple(engine.Sym("drained-state", tup.At(0).Type()), engine.Sym("drained", tup.At(1).Type()))), true
						}
						return nil, false
					}})
				t.x = y
				y.ContinueTokens(k.X)
				c.Run(y)
			}
		},
		OnSelect: func(x *engine.Interp, st *engine.State, in *ssa.Select, i int, ch *engine.Val) { st.Stop() },
	})
	c.Run(x)
	for _, how := range []string{"returns", "panics", "ends the goroutine"} {
		if seen[how] == 0 {
			c.Undecided("the body %s: nothing is handed to the runner", how)
		}
	}
}

// phaseRun puts the suite in the running phase.
func o02phase(c *Ctx, x *engine.Interp, st *engine.State, pre string) bool {
	ph := c.ConstVal("internal", "PhaseRun")
	if ph == nil {
		c.Undecided("no running phase")
		return false
	}
	x.Store(st, pre+".phase", ph)
	return true
}

func o02steps(c *Ctx) {
	fn := c.Fn("(*internal.Suite).By")
	if fn == nil || len(fn.Params) < 3 {
		return
	}
	start, end := c.ConstVal("types", "SpecEventByStart"), c.ConstVal("types", "SpecEventByEnd")
	if start == nil || end == nil {
		c.Undecided("no event types for a step")
		return
	}
	pre := suitePrefix(fn)
	cbT := fn.Params[2].Type()
	stepT := fieldOfType(c.Type("internal", "Suite"), "currentByStep")
	for _, how := range []string{"none", "returns", "panics", "ends the goroutine"} {
		how := how
		t := &o02trace{c: c}
		var x *engine.Interp
		cb := engine.Nil(cbT)
		if how != "none" {
			cb = engine.SliceAt("*callbacks", 1, cbT)
		}
		x = engine.New(c.P, engine.Cfg{Root: fn, Linear: true, Budget: 8000, Args: withArg(fn, 2, cb),
			Init: func(st *engine.State) {
				o02init(c, x, st, pre)
				o02phase(c, x, st, pre)
				if how != "none" {
					x.Store(st, "*callbacks[0]", engine.Sym("nonnil:callback", cbT.Underlying().(*types.Slice).Elem()))
				}
			},
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				if o, ok := t.observe(k); ok {
					return o, true
				}
				if k.Fn == nil && k.FnVal != nil && strings.Contains(k.FnVal.Key(), "callback") && (k.Com == nil || !k.Com.IsInvoke()) {
					k.St.Auto["ran"] += "1"
					if stepT != nil {
						step := x.Load(k.St, pre+".currentByStep", stepT)
						_, id, _ := t.event(k.St, step)
						evs := o02list(k.St, "events")
						c.Check(len(evs) == 1 && strings.Contains(evs[0], "|"+id+"|"), "step in progress", k.Pos(), k.St.Path(6), "the callback runs while the step in progress is %s", id)
					}
					switch how {
					case "returns":
						return k.Return(engine.Nil(k.T)), true
					case "panics":
						return []engine.Outcome{{St: k.St, Kind: engine.ExitPanic}}, true
					}
					return []engine.Outcome{{St: k.St, Kind: engine.ExitGoexit}}, true
				}
				return nil, false
			}})
		t.x = x
		c.Run(x)
		n := 0
		for _, e := range x.Exits {
			if e.Kind == engine.ExitStop {
				continue
			}
			n++
			p := e.St.Path(12)
			var types []string
			ids := map[string]bool{}
			for _, ev := range o02list(e.St, "events") {
				f := strings.Split(ev, "|")
				types = append(types, f[0])
				ids[f[1]] = true
			}
			want := []string{start.Key()}
			if how != "none" {
				want = append(want, end.Key())
				c.Check(e.St.Auto["ran"] == "1", "callback run", e.Pos, p, "the callback is called %d times", len(e.St.Auto["ran"]))
			}
			c.Check(strings.Join(types, ",") == strings.Join(want, ","), "step events", e.Pos, p, "callback %s: events of types [%s] are forwarded instead of [%s]", how, strings.Join(types, ","), strings.Join(want, ","))
			c.Check(len(ids) <= 1, "step identity", e.Pos, p, "callback %s: the events of a step carry different texts or places", how)
			for id := range ids {
				c.Check(strings.Contains(id, fn.Params[1].Name()), "step text", e.Pos, p, "the event does not carry the step's text (%s)", id)
			}
			t.distinct(e, "steps", "orders")
			if how != "none" && stepT != nil {
				step := x.Load(e.St, pre+".currentByStep", stepT)
				_, id, _ := t.event(e.St, step)
				_, zero, _ := t.event(e.St, engine.Nil(stepT))
				c.Check(id == zero, "step cleared", e.Pos, p, "callback %s: the step in progress is still %s afterwards", how, id)
			}
			got, ok := t.stored(e.St, pre, "SpecEvents", func(v *engine.Val) string {
				typ, id, order := t.event(e.St, v)
				return typ + "|" + id + "|" + order
			})
			if !ok {
				c.Undecided("step: what the record holds is not known")
				continue
			}
			c.Check(strings.Join(got, o02sep) == strings.Join(o02list(e.St, "events"), o02sep), "step stored as forwarded", e.Pos, p, "callback %s: stored [%s], forwarded [%s]", how, strings.Join(got, "; "), strings.Join(o02list(e.St, "events"), "; "))
			wantKind := map[string]engine.ExitKind{"none": engine.ExitReturn, "returns": engine.ExitReturn, "panics": engine.ExitPanic, "ends the goroutine": engine.ExitGoexit}[how]
			c.Check(e.Kind == wantKind, "step passes on", e.Pos, p, "callback %s: what it did is not passed on", how)
		}
		if n == 0 {
			c.Undecided("callback %s: the step is never left", how)
		}
	}
}

func o02entries(c *Ctx) {
	run := func(name string, total int64, args func(fn *ssa.Function) []*engine.Val, judge func(t *o02trace, pre string, e *engine.Exit)) {
		fn := c.Fn(name)
		if fn == nil {
			return
		}
		pre := suitePrefix(fn)
		t := &o02trace{c: c}
		var x *engine.Interp
		x = engine.New(c.P, engine.Cfg{Root: fn, Linear: true, Budget: 8000, Args: args(fn),
			Init: func(st *engine.State) {
				o02init(c, x, st, pre)
				o02phase(c, x, st, pre)
				x.Store(st, pre+".config.ParallelTotal", engine.IntVal(total, types.Typ[types.Int]))
			},
			OnCall: t.observe})
		t.x = x
		c.Run(x)
		n := 0
		for _, e := range x.Exits {
			if e.Kind == engine.ExitReturn {
				n++
				judge(t, pre, e)
			}
		}
		if n == 0 {
			c.Undecided("%s never returns", name)
		}
	}
	same := func(t *o02trace, pre, field, key, what string, e *engine.Exit) {
		got, ok := t.stored(e.St, pre, field, func(v *engine.Val) string { return t.order(e.St, v) })
		if !ok {
			c.Undecided("%s: what the record holds is not known", what)
			return
		}
		want := o02list(e.St, key)
		p := e.St.Path(8)
		c.Check(len(want) == 1, what+" forwarded", e.Pos, p, "%s is forwarded %d times", what, len(want))
		c.Check(strings.Join(got, ",") == strings.Join(want, ","), what+" stored as forwarded", e.Pos, p, "%s: stored at [%s], forwarded at [%s]", what, strings.Join(got, ","), strings.Join(want, ","))
		for _, o := range want {
			var n int64
			k, _ := fmt.Sscanf(o, "%d", &n)
			c.Check(k == 1 && n > 0, what+" positioned", e.Pos, p, "%s is at position %s, not a fresh one", what, o)
		}
	}
	run("(*internal.Suite).AddReportEntry", 1, func(fn *ssa.Function) []*engine.Val { return nil }, func(t *o02trace, pre string, e *engine.Exit) {
		same(t, pre, "ReportEntries", "entries", "a report entry", e)
	})
	for _, total := range []int64{1, 2} {
		total := total
		run("(*internal.Suite).handleProgressSignal", total, func(fn *ssa.Function) []*engine.Val { return nil }, func(t *o02trace, pre string, e *engine.Exit) {
			same(t, pre, "ProgressReports", "progress", "a progress report", e)
			posted := o02list(e.St, "posted")
			if total > 1 {
				c.Check(len(posted) == 1, "progress report posted", e.Pos, e.St.Path(8), "in a parallel process a progress report is posted %d times", len(posted))
			} else {
				c.Check(len(posted) == 0, "progress report not posted", e.Pos, e.St.Path(8), "a progress report is posted without a coordinator")
			}
		})
	}
}

func o02leaf(c *Ctx) {
	fn := c.Fn("(*internal.Suite).failureForLeafNodeWithMessage")
	if fn == nil {
		return
	}
	pre := suitePrefix(fn)
	t := &o02trace{c: c}
	var x *engine.Interp
	x = engine.New(c.P, engine.Cfg{Root: fn, Linear: true, Budget: 4000, Init: func(st *engine.State) { o02init(c, x, st, pre) }})
	t.x = x
	c.Run(x)
	for _, e := range x.Exits {
		if e.Kind != engine.ExitReturn {
			continue
		}
		var n int64
		o := t.order(e.St, e.Ret)
		k, _ := fmt.Sscanf(o, "%d", &n)
		c.Check(k == 1 && n > 0, "position of a leaf failure", e.Pos, e.St.Path(6), "the failure is at position %s, not a fresh one", o)
		loc := x.FieldOf(e.St, e.Ret, "Location")
		c.Check(loc.Mentions("CodeLocation"), "place of a leaf failure", e.Pos, e.St.Path(6), "the failure is not at the node's place (%s)", loc.Key())
	}
}

func o02timeline(c *Ctx) {
	fn := c.Fn("(types.SpecReport).Timeline")
	repT := c.Type("types", "SpecReport")
	failT := c.Type("types", "Failure")
	if fn != nil && repT != nil && failT != nil {
		lists := map[string]int{"AdditionalFailures": 2, "ReportEntries": 2, "ProgressReports": 2, "SpecEvents": 3}
		for _, withFailure := range []bool{false, true} {
			for _, withAdd := range []bool{false, true} {
				if withAdd && !withFailure {
					continue
				}
				fields := map[string]*engine.Val{}
				want := map[string]int{}
				for f, n := range lists {
					ft := fieldOfType(repT, f)
					if ft == nil {
						c.Undecided("a spec report has no %s", f)
						return
					}
					fields[f] = engine.SliceAt("*"+f, n, ft)
					for i := 0; i < n; i++ {
						want[fmt.Sprintf("%s/%d", f, i)] = 1
					}
				}
				addT := fieldOfType(failT, "AdditionalFailure")
				fail := engine.Nil(failT)
				if withFailure {
					add := engine.Nil(addT)
					if withAdd {
						add = engine.Sym("nonnil:~more", addT)
						want["extra-failure"] = 1
					}
					fail = engine.Agg(engine.Sym("the-failure", failT), map[string]*engine.Val{"AdditionalFailure": add}, failT)
					want["the-failure"] = 1
				}
				fields["Failure"] = fail
				rep := engine.Agg(engine.Sym("report", repT), fields, repT)
				var x *engine.Interp
				x = engine.New(c.P, engine.Cfg{Root: fn, Linear: true, Budget: 20000, Args: []*engine.Val{rep},
					Concrete: func(*ssa.Phi) bool { return true },
					Init: func(st *engine.State) {
						for f, n := range lists {
							et := fieldOfType(repT, f).Underlying().(*types.Slice).Elem()
							for i := 0; i < n; i++ {
								x.Store(st, fmt.Sprintf("*%s[%d]", f, i), engine.Sym(fmt.Sprintf("%s/%d", f, i), et))
							}
						}
						if withAdd {
							if p, ok := addT.Underlying().(*types.Pointer); ok {
								loc, _ := x.Deref(engine.Sym("nonnil:~more", addT))
								x.Store(st, loc, engine.Sym("extra-failure", p.Elem()))
							}
						}
					},
					OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
						if strings.HasSuffix(k.Name, "Failure).IsZero") {
							return k.Return(engine.BoolVal(!withFailure)), true
						}
						if strings.HasPrefix(k.Name, "sort.") || strings.HasPrefix(k.Name, "slices.Sort") {
							k.St.Auto["sorted"] += "1"
							return k.Return(engine.Nil(k.T)), true
						}
						return nil, false
					}})
				c.Run(x)
				for _, e := range x.Exits {
					if e.Kind != engine.ExitReturn {
						continue
					}
					p := e.St.Path(8)
					es, ok := x.Elems(e.St, e.Ret)
					if !ok {
						c.Undecided("what the timeline holds is not known")
						continue
					}
					got := map[string]int{}
					for _, v := range es {
						k := v.Unbox().Key()
						for w := range want {
							if strings.Contains(k, w) {
								got[w]++
							}
						}
					}
					c.Check(len(es) == len(want), "timeline complete", e.Pos, p, "failure %v, additional %v: the timeline has %d elements instead of %d", withFailure, withAdd, len(es), len(want))
					for _, w := range sortedKeys(want) {
						c.Check(got[w] == 1, "timeline has "+strings.SplitN(w, "/", 2)[0], e.Pos, p, "failure %v, additional %v: %s occurs %d times in the timeline", withFailure, withAdd, w, got[w])
					}
					c.Check(e.St.Auto["sorted"] != "", "timeline sorted", e.Pos, p, "the timeline is not sorted")
				}
			}
		}
	}
	less := c.Fn("(types.Timeline).Less")
	tlT := c.Type("types", "Timeline")
	if less == nil || tlT == nil {
		return
	}
	for _, pair := range [][2]int64{{1, 2}, {2, 1}, {2, 2}, {9, 10}, {10, 9}} {
		pair := pair
		var x *engine.Interp
		x = engine.New(c.P, engine.Cfg{Root: less, Linear: true, Budget: 4000,
			Args: []*engine.Val{engine.SliceAt("*tl", 2, tlT), engine.IntVal(0, types.Typ[types.Int]), engine.IntVal(1, types.Typ[types.Int])},
			Init: func(st *engine.State) {
				et := tlT.Underlying().(*types.Slice).Elem()
				for i := range pair {
					x.Store(st, fmt.Sprintf("*tl[%d]", i), engine.Sym(fmt.Sprintf("nonnil:event%d", i), et))
				}
			},
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				if strings.HasSuffix(k.Name, ".GetTimelineLocation") {
					for i, n := range pair {
						if v := k.Recv; v != nil && strings.Contains(v.Key(), fmt.Sprintf("event%d", i)) || len(k.Args) > 0 && k.Args[0] != nil && strings.Contains(k.Args[0].Key(), fmt.Sprintf("event%d", i)) {
							return k.Return(engine.Agg(k.Fresh(), map[string]*engine.Val{"Order": engine.IntVal(n, types.Typ[types.Int]), "Offset": engine.IntVal(5, types.Typ[types.Int]), "Time": engine.Sym("t@5", fieldOfType(k.T, "Time"))}, k.T)), true
						}
					}
				}
				return modelClock{c01now}.call(k)
			}})
		c.Run(x)
		for _, e := range x.Exits {
			if e.Kind != engine.ExitReturn {
				continue
			}
			got, ok := e.Ret.Bool()
			if !ok {
				c.Undecided("how events at %d and %d are ordered", pair[0], pair[1])
				continue
			}
			c.Check(got == (pair[0] < pair[1]), "timeline order", e.Pos, e.St.Path(6), "an event at position %d is before one at %d: %v", pair[0], pair[1], got)
		}
	}
	// the kinds of events report their own position
	for _, n := range []string{"Failure", "AdditionalFailure", "ReportEntry", "ProgressReport", "SpecEvent"} {
		m := c.Fn("(types." + n + ").GetTimelineLocation")
		if m == nil {
			continue
		}
		x := engine.New(c.P, engine.Cfg{Root: m, Linear: true, Budget: 1000})
		c.Run(x)
		for _, e := range x.Exits {
			if e.Kind == engine.ExitReturn {
				c.Check(e.Ret.Mentions("TimelineLocation") && e.Ret.Mentions(m.Params[0].Name()), "position of a "+n, e.Pos, nil, "the position of a %s is %s", n, e.Ret.Key())
			}
		}
	}
}
