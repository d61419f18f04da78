package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{ID: "L05", Technique: "abstract interpretation of the group runner over a bounded family of ordered trees with every outcome sequence, against trace invariants",
		Note: "The runner's own code is interpreted on small concrete trees (up to three specs, two nested containers, once-per-ordered outer nodes, cleanups, retries, continue-on-failure, a deselected last spec) with node bodies abstract: each node forks over passed, failed, skipped and interrupted, with at most two (thorough: three) outcomes other than passed per history. Larger trees are covered only as far as they compose from these. That a group is scheduled whole is decided on a bounded family of spec trees (see C09).",
		Run:  l05})
}

type onode struct {
	id, kind string
	n, level int
	once     bool // OncePerOrdered
	ordered  bool
	cont     bool
	flake    int
	cleanup  bool // registers a cleanup when it runs
}

// otree is one group: the nodes of each spec in declaration order, and what they mean.
type otree struct {
	name  string
	nodes []onode
	specs [][]string // node ids, containers first, subject last
	skip  map[int]bool
	// scope of each run-once node: the container it runs once for
	scope map[string]string
	retry int
	cont  bool
	// how it is explored and judged; the defaults are those of L05
	outcomes []string
	odd      int
	judgeBy  func(evs []oevent) []finding
}

func (t *otree) node(id string) *onode {
	for i := range t.nodes {
		if t.nodes[i].id == id {
			return &t.nodes[i]
		}
	}
	return nil
}

func orderedTrees() []otree {
	c := func(id string, n, lvl int, ordered bool) onode {
		return onode{id: id, kind: "Container", n: n, level: lvl, ordered: ordered}
	}
	nd := func(id, kind string, n, lvl int) onode { return onode{id: id, kind: kind, n: n, level: lvl} }
	its := func(from, lvl, k int) []onode {
		var out []onode
		for i := 0; i < k; i++ {
			out = append(out, nd(fmt.Sprintf("it%d", i+1), "It", from+i, lvl))
		}
		return out
	}
	once := func(o onode) onode { o.once = true; return o }
	cl := func(o onode) onode { o.cleanup = true; return o }

	var out []otree
	basic := otree{name: "one container", nodes: append([]onode{c("C", 1, 0, true), nd("ba", "BeforeAll", 2, 1), nd("be", "BeforeEach", 3, 1), nd("ae", "AfterEach", 4, 1), nd("aa", "AfterAll", 5, 1)}, its(11, 1, 3)...),
		scope: map[string]string{"ba": "C", "aa": "C"}}
	for i := 1; i <= 3; i++ {
		basic.specs = append(basic.specs, []string{"C", "ba", "be", "ae", "aa", fmt.Sprintf("it%d", i)})
	}
	out = append(out, basic)

	two := basic
	two.specs = basic.specs[:2]
	flake := two
	flake.name, flake.retry = "one container, two attempts", 2
	out = append(out, flake)

	cont := basic
	cont.name, cont.cont = "one container, continue on failure", true
	cont.nodes = append([]onode{}, basic.nodes...)
	cont.nodes[0].cont = true
	out = append(out, cont)

	contf := cont
	contf.name, contf.retry, contf.specs = "one container, continue on failure, two attempts", 2, cont.specs[:2]
	out = append(out, contf)

	desel := basic
	desel.name, desel.skip = "one container, last spec deselected", map[int]bool{2: true}
	out = append(out, desel)
	desel1 := basic
	desel1.name, desel1.skip = "one container, first spec deselected", map[int]bool{0: true}
	out = append(out, desel1)

	outer := otree{name: "once-per-ordered nodes outside the container", nodes: append([]onode{c("O", 1, 0, false), once(nd("obe", "BeforeEach", 2, 1)), once(nd("ojb", "JustBeforeEach", 3, 1)), once(nd("oae", "AfterEach", 4, 1)), once(nd("oja", "JustAfterEach", 6, 1)), c("C", 7, 1, true), nd("ba", "BeforeAll", 8, 2), nd("aa", "AfterAll", 9, 2)}, its(11, 2, 2)...),
		scope: map[string]string{"obe": "C", "ojb": "C", "oae": "C", "oja": "C", "ba": "C", "aa": "C"}}
	for i := 1; i <= 2; i++ {
		outer.specs = append(outer.specs, []string{"O", "obe", "ojb", "oae", "oja", "C", "ba", "aa", fmt.Sprintf("it%d", i)})
	}
	out = append(out, outer)

	nested := otree{name: "nested containers", nodes: append([]onode{c("C", 1, 0, true), nd("ba", "BeforeAll", 2, 1), nd("aa", "AfterAll", 3, 1), c("D", 4, 1, false), nd("dba", "BeforeAll", 5, 2), nd("daa", "AfterAll", 6, 2)}, its(11, 2, 3)...),
		scope: map[string]string{"ba": "C", "aa": "C", "dba": "D", "daa": "D"},
		specs: [][]string{{"C", "ba", "aa", "D", "dba", "daa", "it1"}, {"C", "ba", "aa", "D", "dba", "daa", "it2"}, {"C", "ba", "aa", "it3"}}}
	nested.nodes[len(nested.nodes)-1].level = 1
	out = append(out, nested)
	nest2 := nested
	nest2.name = "nested container last"
	nest2.specs = [][]string{nested.specs[2], nested.specs[0], nested.specs[1]}
	out = append(out, nest2)
	nestc := nested
	nestc.name, nestc.cont = "nested containers, continue on failure", true
	nestc.nodes = append([]onode{}, nested.nodes...)
	nestc.nodes[0].cont = true
	out = append(out, nestc)

	cleans := otree{name: "cleanups", nodes: append([]onode{c("C", 1, 0, true), cl(nd("ba", "BeforeAll", 2, 1)), cl(nd("be", "BeforeEach", 3, 1)), cl(nd("aa", "AfterAll", 5, 1))}, its(11, 1, 2)...),
		scope: map[string]string{"ba": "C", "aa": "C"}}
	for i := 1; i <= 2; i++ {
		cleans.specs = append(cleans.specs, []string{"C", "ba", "be", "aa", fmt.Sprintf("it%d", i)})
	}
	out = append(out, cleans)
	cleanf := cleans
	cleanf.name, cleanf.retry = "cleanups, two attempts", 2
	out = append(out, cleanf)
	cleanc := cleans
	cleanc.name, cleanc.cont, cleanc.retry = "cleanups, continue on failure, two attempts", true, 2
	cleanc.nodes = append([]onode{}, cleans.nodes...)
	cleanc.nodes[0].cont = true
	out = append(out, cleanc)
	// the other ways to fail
	for _, how := range []string{"SpecStateTimedout", "SpecStatePanicked"} {
		b := two
		b.name, b.outcomes = "one container, "+strings.ToLower(strings.TrimPrefix(how, "SpecState")), []string{"SpecStatePassed", how}
		out = append(out, b)
		b.name, b.retry = b.name+", two attempts", 2
		out = append(out, b)
		b.name, b.cont = b.name+", continue on failure", true
		b.nodes = append([]onode{}, b.nodes...)
		b.nodes[0].cont = true
		out = append(out, b)
	}
	return out
}

// oevent is one node run.
type oevent struct {
	spec, attempt int
	node, outcome string
	clean         bool // the cleanup registered by node
}

func l05(c *Ctx) {
	if fn := c.Fn("internal.OrderSpecs"); fn != nil {
		c.Rule("ordered-together", "for every tree and permutation of a bounded family the specs of an outermost ordered container form one scheduled group, in declaration order, and every other spec its own")
		orderingTable(c, func(t ordTree, o ordCfg, specs []*tspec, r ordRun, done map[string]string) {
			keepsGroups(c, fn, t, o, specs, r)
		})
		c.Floor(300)
	}
	l05traces(c)
}

func l05traces(c *Ctx) {
	c.Rule("ordered-traces", "on every history: a passed run-once setup node is not rerun for its container; a run-once teardown runs after the last spec of its container that runs and never before another one; after a failure the rest of the container is skipped unless it continues on failure; nothing due is omitted")
	ts := orderedTrees()
	for i := range ts {
		l05tree(c, &ts[i])
	}
	c.Floor(len(ts))
}

func l05tree(c *Ctx, t *otree) {
	fn := c.Fn("(*internal.group).run")
	if fn == nil {
		return
	}
	nodeT, specT := c.Type("internal", "Node"), c.Type("internal", "Spec")
	nodesT := c.Type("internal", "Nodes")
	ntT := c.Type("types", "NodeType")
	stT, faT := c.Type("types", "SpecState"), c.Type("types", "Failure")
	if nodeT == nil || specT == nil {
		return
	}
	intT, uintT := types.Typ[types.Int], types.Typ[types.Uint]
	pre := suitePrefix(fn)
	gp := "*" + fn.Params[0].Name()
	groupT := fn.Params[0].Type().(*types.Pointer).Elem()
	suiteT := c.Type("internal", "Suite")
	listT := fieldOfType(suiteT, "cleanupNodes")
	retry := max(t.retry, 1)
	odd := 2
	if c.Tier == "thorough" {
		odd = 3
	}
	if t.odd > 0 {
		odd = t.odd
	}
	byID := map[string]string{}
	mk := func(o *onode) *engine.Val {
		byID[fmt.Sprint(o.n)] = o.id
		f := map[string]*engine.Val{"ID": engine.IntVal(int64(o.n), uintT), "NodeType": c.ConstVal("types", "NodeType"+o.kind), "NestingLevel": engine.IntVal(int64(o.level), intT)}
		if o.ordered {
			f["MarkedOrdered"] = engine.BoolVal(true)
		}
		if o.once {
			f["MarkedOncePerOrdered"] = engine.BoolVal(true)
		}
		if o.cont {
			f["MarkedContinueOnFailure"] = engine.BoolVal(true)
		}
		return engine.Agg(engine.Nil(nodeT), f, nodeT)
	}
	outcomes := []string{"SpecStatePassed", "SpecStateFailed", "SpecStateSkipped", "SpecStateInterrupted"}
	if t.outcomes != nil {
		outcomes = t.outcomes
	}
	judge := t.judgeBy
	if judge == nil {
		judge = func(evs []oevent) []finding { return t.judge(evs, retry) }
	}
	var x *engine.Interp
	args := []*engine.Val{engine.ParamSym(fn.Params[0]), engine.SliceAt("*specs", len(t.specs), fn.Params[1].Type())}
	broken := ""
	cfg := engine.Cfg{Root: fn, Args: args, Budget: 30000000, MaxDepth: 14, Linear: true,
		Concrete:  func(*ssa.Phi) bool { return true },
		TrackFact: func(*engine.Val) bool { return false },
		Track: func(l string) bool {
			return !strings.Contains(l, ".currentSpecReport.") || strings.HasSuffix(l, locState) || strings.HasSuffix(l, "NumAttempts") || strings.HasSuffix(l, "MaxFlakeAttempts") || strings.HasSuffix(l, "MaxMustPassRepeatedly")
		},
		Init: func(st *engine.State) {
			for i, s := range t.specs {
				for j, id := range s {
					x.Store(st, fmt.Sprintf("*nodes%d[%d]", i, j), mk(t.node(id)))
				}
				sk := engine.BoolVal(t.skip[i])
				x.Store(st, fmt.Sprintf("*specs[%d]", i), engine.Agg(engine.Nil(specT), map[string]*engine.Val{"Nodes": engine.SliceAt(fmt.Sprintf("*nodes%d", i), len(s), nodesT), "Skip": sk}, specT))
			}
			set := func(f string, v *engine.Val) { x.Store(st, gp+"."+f, v) }
			n := 0
			if s, ok := groupT.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					f := s.Field(i)
					if _, ok := f.Type().Underlying().(*types.Map); ok {
						n++
						set(f.Name(), engine.Sym(fmt.Sprintf("nonnil:map#g%d;", n), f.Type()))
					} else if f.Name() != "suite" {
						set(f.Name(), engine.Nil(f.Type()))
					}
				}
			}
			set("succeeded", engine.BoolVal(true))
			x.Store(st, pre+".config", engine.Nil(c.Type("types", "SuiteConfig")))
			x.Store(st, pre+".config.FlakeAttempts", engine.IntVal(int64(t.retry), intT))
			x.Store(st, pre+".config.MustPassRepeatedly", engine.IntVal(0, intT))
			x.Store(st, pre+".config.DryRun", engine.BoolVal(false))
			x.Store(st, pre+".skipAll", engine.BoolVal(false))
			x.Store(st, pre+".cleanupNodes", engine.SliceAt("*pending", 0, listT))
			st.Auto["spec"] = "-1"
		},
		OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			n := k.Name
			switch {
			case n == "(*internal.group).initialReportForSpec":
				return k.Return(engine.Agg(engine.Sym("initial", k.T), map[string]*engine.Val{"State": engine.IntVal(0, stT), "NumAttempts": engine.IntVal(0, intT), "MaxFlakeAttempts": engine.IntVal(0, intT), "MaxMustPassRepeatedly": engine.IntVal(0, intT)}, k.T)), true
			case strings.HasSuffix(n, "Reporter.WillRun"):
				var i int
				fmt.Sscan(k.St.Auto["spec"], &i)
				k.St.Auto["spec"] = fmt.Sprint(i + 1)
				return k.Return(engine.Nil(k.T)), true
			case n == "(*internal.Suite).reportEach" && t.continues() && k.St.Auto["odd"] != "" && k.St.Auto["rep"] == "" && kindNames(c, k.Args[len(k.Args)-1]) == "ReportAfterEach" && !strings.Contains(" "+k.St.Auto["log"], " "+k.St.Auto["spec"]+"/"):
				// a reporting node that fails turns a spec that was skipped, because of what failed before, into a failing one
				outs := []engine.Outcome{{St: k.St.Clone(), Ret: k.Fresh()}}
				st := k.St.Clone()
				st.Auto["rep"] = "1"
				x.Store(st, pre+locState, c.ConstVal("types", "SpecStateFailed"))
				return append(outs, engine.Outcome{St: st, Ret: k.Fresh()}), true
			case n == "(*internal.Suite).reportEach" || n == "(*internal.Suite).processCurrentSpecReport" || n == "(*internal.Suite).handleSpecEvent",
				strings.Contains(n, "OutputInterceptor.") || strings.Contains(n, "WriterInterface."), n == "(*internal.Suite).failureForLeafNodeWithMessage":
				return k.Return(k.Fresh()), true
			case strings.HasPrefix(n, "(sync.") || strings.HasPrefix(n, "(*sync."), n == "(internal.Nodes).BestTextFor", n == "(internal.Spec).BestTextFor", n == "time.Since", strings.HasPrefix(n, "fmt."):
				return k.Return(k.Fresh()), true
			case n == "(time.Time).IsZero":
				return k.Return(engine.BoolVal(true)), true
			case n == "(internal.Spec).SpecTimeout":
				return k.Return(engine.IntVal(0, k.T)), true
			case strings.HasSuffix(n, "InterruptStatus).Interrupted"):
				return k.Return(engine.BoolVal(k.St.Auto["stopped"] != "")), true
			case n == "(*internal.Suite).runNode":
				return l05node(c, t, k, x, stT, faT, nodeT, ntT, listT, pre, byID, outcomes, odd, &broken), true
			}
			if o, ok := nodeListModel(c, k); ok {
				return o, ok
			}
			return sortHook(c)(k)
		},
	}
	x = engine.New(c.P, cfg)
	c.Run(x)
	if broken != "" {
		c.Undecided("%s: %s", t.name, broken)
	}
	nh := 0
	for _, e := range x.Exits {
		if e.Kind == engine.ExitStop {
			continue
		}
		if e.Kind == engine.ExitPanic {
			c.Undecided("%s: the runner panics in the abstract: %v", t.name, e.Ret)
			continue
		}
		nh++
		var evs []oevent
		for _, s := range strings.Fields(e.St.Auto["log"]) {
			p := strings.Split(s, "/")
			var ev oevent
			fmt.Sscan(p[0], &ev.spec)
			fmt.Sscan(p[1], &ev.attempt)
			ev.node, ev.outcome, ev.clean = p[2], p[3], p[4] == "c"
			evs = append(evs, ev)
		}
		for _, bad := range judge(evs) {
			c.Check(false, t.name+": "+bad.what, fn.Pos(), historyOf(evs), "%s: %s", t.name, bad.msg)
		}
	}
	c.Check(true, t.name, fn.Pos(), nil, "")
	c.Ok("%s: %d histories", t.name, nh)
	if nh == 0 {
		c.Undecided("%s: no history", t.name)
	}
}

// continues tells whether a container of the tree continues on failure.
func (t *otree) continues() bool {
	for _, s := range t.specs {
		for _, id := range s {
			if n := t.node(id); n != nil && n.cont {
				return true
			}
		}
	}
	return false
}

func historyOf(evs []oevent) []string {
	var out []string
	for _, e := range evs {
		n := e.node
		if e.clean {
			n = "cleanup of " + n
		}
		out = append(out, fmt.Sprintf("spec %d attempt %d: %s %s", e.spec+1, e.attempt, n, strings.TrimPrefix(e.outcome, "SpecState")))
	}
	return out
}

func l05node(c *Ctx, t *otree, k *engine.Call, x *engine.Interp, stT, faT, nodeT, ntT, listT types.Type, pre string, byID map[string]string, outcomes []string, odd int, broken *string) []engine.Outcome {
	intT, uintT := types.Typ[types.Int], types.Typ[types.Uint]
	idv := x.FieldOf(k.St, k.Args[1], "ID")
	num, ok := idv.Int()
	if !ok {
		*broken = "a node of unknown identity is run: " + k.Args[1].Key()
		k.St.Stop()
		return []engine.Outcome{{St: k.St}}
	}
	st0 := k.St
	name, tag := byID[fmt.Sprint(num)], "n"
	es, ok := x.Elems(st0, x.Load(st0, pre+".cleanupNodes", listT))
	if !ok {
		*broken = "the pending cleanups are not known"
		k.St.Stop()
		return []engine.Outcome{{St: k.St}}
	}
	if num >= 100 {
		gen, _ := x.FieldOf(st0, k.Args[1], "NodeIDWhereCleanupWasGenerated").Int()
		name, tag = byID[fmt.Sprint(gen)], "c"
	}
	if name == "" {
		*broken = fmt.Sprintf("node %d is not of this tree", num)
	}
	// the pending list afterwards: without this cleanup, with the one this node registers
	var keep []*engine.Val
	for _, e := range es {
		if n, _ := x.FieldOf(st0, e, "ID").Int(); n != num {
			keep = append(keep, e)
		}
	}
	if o := t.node(name); tag == "n" && o != nil && o.cleanup {
		cn := 0
		fmt.Sscan(st0.Auto["cn"], &cn)
		st0.Auto["cn"] = fmt.Sprint(cn + 1)
		kind := "CleanupAfterEach"
		if o.kind == "BeforeAll" || o.kind == "AfterAll" {
			kind = "CleanupAfterAll"
		}
		keep = append(keep, engine.Agg(engine.Nil(nodeT), map[string]*engine.Val{"ID": engine.IntVal(int64(100+cn), uintT), "NodeType": c.ConstVal("types", "NodeType"+kind), "NestingLevel": engine.IntVal(int64(o.level), intT), "NodeIDWhereCleanupWasGenerated": engine.IntVal(int64(o.n), uintT)}, nodeT))
	}
	for i, e := range keep {
		x.Store(st0, fmt.Sprintf("*pending%d[%d]", len(st0.Auto["log"]), i), e)
	}
	x.Store(st0, pre+".cleanupNodes", engine.SliceAt(fmt.Sprintf("*pending%d", len(st0.Auto["log"])), len(keep), listT))
	att, _ := x.Load(st0, pre+".currentSpecReport.NumAttempts", intT).Int()
	var outs []engine.Outcome
	oddSeen := 0
	fmt.Sscan(st0.Auto["odd"], &oddSeen)
	// interrupts arrive while setup and subject nodes run; what they do to a teardown is C01 and C02
	on := t.node(name)
	teardown := on == nil || strings.Contains(on.kind, "After")
	for _, o := range outcomes {
		if o != "SpecStatePassed" && (oddSeen >= odd || tag == "c" || o == "SpecStateInterrupted" && teardown) {
			continue
		}
		st := st0.Clone()
		if o != "SpecStatePassed" {
			st.Auto["odd"] = fmt.Sprint(oddSeen + 1)
		}
		if o == "SpecStateInterrupted" {
			st.Auto["stopped"] = "1"
		}
		st.Auto["log"] += fmt.Sprintf("%s/%d/%s/%s/%s ", st.Auto["spec"], att, name, o, tag)
		v := c.ConstVal("types", o)
		outs = append(outs, engine.Outcome{St: st, Ret: engine.Tuple(v, engine.Nil(faT))})
	}
	return outs
}

type finding struct{ what, msg string }

// judge checks one history against the invariants.
func (t *otree) judge(evs []oevent, retry int) []finding {
	var out []finding
	add := func(what, f string, a ...any) { out = append(out, finding{what, fmt.Sprintf(f, a...)}) }
	isSetup := func(o *onode) bool { return strings.Contains(o.kind, "Before") }
	isTear := func(o *onode) bool { return strings.Contains(o.kind, "After") }
	has := func(spec int, id string) bool {
		for _, n := range t.specs[spec] {
			if n == id {
				return true
			}
		}
		return false
	}
	type att struct {
		evs   []oevent
		bad   string // first outcome other than passed among setup and subject
		badN  *onode
		final bool
		state string
	}
	specs := map[int][]*att{}
	for _, e := range evs {
		for len(specs[e.spec]) < e.attempt {
			specs[e.spec] = append(specs[e.spec], &att{})
		}
		if e.attempt < 1 || e.attempt != len(specs[e.spec]) {
			add("attempt order", "node %s runs in attempt %d after attempt %d", e.node, e.attempt, len(specs[e.spec]))
			return out
		}
		a := specs[e.spec][e.attempt-1]
		a.evs = append(a.evs, e)
		o := t.node(e.node)
		if e.clean || o == nil {
			continue
		}
		if !isTear(o) && a.bad == "" && e.outcome != "SpecStatePassed" {
			a.bad, a.badN = e.outcome, o
		}
		if a.state == "" || a.state == "SpecStatePassed" || (a.state == "SpecStateSkipped" && failStates[e.outcome]) {
			a.state = e.outcome
		}
	}
	ran := func(a *att, id string, clean bool) bool {
		for _, e := range a.evs {
			if e.node == id && e.clean == clean {
				return true
			}
		}
		return false
	}
	passedOnce := map[string]bool{} // run-once setup nodes that have passed
	groupFailed, onceFailed, stopped, either := false, false, false, false
	onceSkipped := map[string]bool{}
	for s := range t.specs {
		as := specs[s]
		blocked := t.skip[s] || stopped || (groupFailed && !t.cont) || onceFailed
		for id := range onceSkipped {
			blocked = blocked || has(s, id)
		}
		if blocked && len(as) > 0 {
			add("skipped specs", "spec %d runs although it must be skipped", s+1)
		}
		if !blocked && len(as) == 0 && !either {
			add("runnable specs", "spec %d is not run although nothing prevents it", s+1)
		}
		if len(as) == 0 {
			continue
		}
		last := as[len(as)-1]
		last.final = true
		for _, a := range as {
			for _, id := range t.specs[s] {
				o := t.node(id)
				reached := a.badN == nil || o.level <= a.badN.level
				switch {
				case isSetup(o) && t.scope[id] != "":
					if passedOnce[id] && ran(a, id, false) {
						add("run-once setup", "%s runs again for spec %d after it passed", id, s+1)
					}
					if a.bad == "" && !passedOnce[id] && !ran(a, id, false) {
						add("run-once setup", "%s has not run before the subject of spec %d", id, s+1)
					}
				case isSetup(o) && a.bad == "" && !ran(a, id, false):
					add("setup", "%s is not run for spec %d", id, s+1)
				case isTear(o) && t.scope[id] == "" && reached && !ran(a, id, false):
					add("teardown", "%s is not run for spec %d", id, s+1)
				case isTear(o) && !reached && ran(a, id, false):
					add("teardown", "%s runs for spec %d although its level was not reached", id, s+1)
				}
			}
			for _, e := range a.evs {
				o := t.node(e.node)
				if !e.clean && isSetup(o) && t.scope[e.node] != "" {
					if e.outcome == "SpecStatePassed" {
						passedOnce[e.node] = true
					}
				}
			}
		}
		for _, e := range last.evs {
			o := t.node(e.node)
			if !e.clean && isSetup(o) && t.scope[e.node] != "" {
				if failStates[e.outcome] {
					onceFailed = true
				}
				if e.outcome == "SpecStateSkipped" {
					onceSkipped[e.node] = true
				}
			}
		}
		for _, a := range as {
			for _, e := range a.evs {
				stopped = stopped || e.outcome == "SpecStateInterrupted"
			}
		}
		if failStates[last.state] {
			groupFailed = true
			if last.bad == "SpecStateSkipped" && t.scope[last.badN.id] != "" {
				either = true // skipped in run-once setup, then failed: whether the rest is skipped is not specified
			}
		}
	}
	// run-once teardown and cleanups of run-once setup
	for _, o := range t.nodes {
		sc := t.scope[o.id]
		if sc == "" {
			continue
		}
		lastSpec := -1
		for s := range t.specs {
			if has(s, o.id) && len(specs[s]) > 0 {
				lastSpec = s
			}
		}
		if lastSpec < 0 {
			continue
		}
		if isTear(&o) {
			for s := range t.specs {
				if s != lastSpec && len(specs[s]) > 0 && ran(specs[s][len(specs[s])-1], o.id, false) {
					add("run-once teardown too early", "%s runs after spec %d although spec %d of its container still runs", o.id, s+1, lastSpec+1)
				}
			}
			a := specs[lastSpec][len(specs[lastSpec])-1]
			if (a.badN == nil || o.level <= a.badN.level) && !ran(a, o.id, false) {
				add("run-once teardown omitted", "%s does not run after spec %d, the last of its container to run", o.id, lastSpec+1)
			}
		}
		if o.cleanup {
			regs, cls := 0, 0
			for _, e := range evs {
				if e.node == o.id && !e.clean {
					regs++
				}
				if e.node == o.id && e.clean {
					cls++
					if isSetup(&o) && e.spec != lastSpec && e.attempt == len(specs[e.spec]) {
						add("cleanup too early", "the cleanup of %s runs after spec %d although spec %d of its container still runs", o.id, e.spec+1, lastSpec+1)
					}
				}
			}
			// what a teardown node or a node that runs for every attempt registers is cleaned up in the same attempt
			for s, as := range specs {
				for n, a := range as {
					r, l := 0, 0
					for _, e := range a.evs {
						if e.node == o.id && e.clean {
							l++
						} else if e.node == o.id {
							r++
						}
					}
					if isTear(&o) && r != l {
						add("cleanup in its attempt", "in attempt %d of spec %d %s registers %d cleanups and %d run", n+1, s+1, o.id, r, l)
					}
				}
			}
			if regs != cls {
				add("cleanup count", "%s registered %d cleanups, %d ran", o.id, regs, cls)
			}
		}
	}
	return out
}

// nodeListModel evaluates the node-list helpers on lists of known nodes; the helpers themselves are decided by the
// list-helpers-exact rule of L02.
func nodeListModel(c *Ctx, k *engine.Call) ([]engine.Outcome, bool) {
	if !strings.HasPrefix(k.Name, "(internal.Nodes).") {
		return nil, false
	}
	m := strings.TrimPrefix(k.Name, "(internal.Nodes).")
	es, ok := k.X.Elems(k.St, k.Args[0])
	if !ok {
		return nil, false
	}
	num := func(e *engine.Val, f string) int64 {
		v := k.X.FieldOf(k.St, e, f)
		if v == nil {
			return 0
		}
		n, _ := v.Int()
		return n
	}
	var keep func(e *engine.Val) bool
	switch m {
	case "WithType", "FirstNodeWithType":
		want, ok := k.Args[1].Int()
		if !ok {
			return nil, false
		}
		keep = func(e *engine.Val) bool { return num(e, "NodeType")&want != 0 }
	case "WithinNestingLevel":
		lv, ok := k.Args[1].Int()
		if !ok && !k.Args[1].IsNil() {
			return nil, false
		}
		keep = func(e *engine.Val) bool { return num(e, "NestingLevel") <= lv }
	case "FirstWithNestingLevel":
		lv, ok := k.Args[1].Int()
		if !ok && !k.Args[1].IsNil() {
			return nil, false
		}
		keep = func(e *engine.Val) bool { return num(e, "NestingLevel") == lv }
	case "FirstNodeMarkedOrdered":
		keep = func(e *engine.Val) bool { b, _ := k.X.FieldOf(k.St, e, "MarkedOrdered").Bool(); return b }
	case "HasNodeMarkedPending":
		return k.Return(engine.BoolVal(false)), true
	case "SortedByAscendingNestingLevel", "SortedByDescendingNestingLevel":
		o := append([]*engine.Val{}, es...)
		sort.SliceStable(o, func(a, b int) bool {
			if m == "SortedByAscendingNestingLevel" {
				return num(o[a], "NestingLevel") < num(o[b], "NestingLevel")
			}
			return num(o[a], "NestingLevel") > num(o[b], "NestingLevel")
		})
		return k.Return(k.NewSlice(o, k.T)), true
	case "Reverse":
		var o []*engine.Val
		for i := len(es) - 1; i >= 0; i-- {
			o = append(o, es[i])
		}
		return k.Return(k.NewSlice(o, k.T)), true
	default:
		return nil, false
	}
	var o []*engine.Val
	for _, e := range es {
		if keep(e) {
			o = append(o, e)
		}
	}
	if strings.HasPrefix(m, "First") {
		if len(o) == 0 {
			return k.Return(engine.Nil(k.T)), true
		}
		return k.Return(o[0]), true
	}
	return k.Return(k.NewSlice(o, k.T)), true
}
