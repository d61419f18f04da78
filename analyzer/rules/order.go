package rules

import (
	"fmt"
	"sort"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

// attemptTrees are single specs with several nodes of every kind at several levels, cleanups registered by some.
func attemptTrees() []otree {
	nd := func(id, kind string, n, lvl int) onode { return onode{id: id, kind: kind, n: n, level: lvl} }
	cl := func(o onode) onode { o.cleanup = true; return o }
	all := func(t *otree) {
		var ids []string
		for _, n := range t.nodes {
			ids = append(ids, n.id)
		}
		t.specs = [][]string{ids}
	}
	levels := otree{name: "three levels", nodes: []onode{
		nd("be0", "BeforeEach", 1, 0), cl(nd("be0b", "BeforeEach", 2, 0)), nd("jbe0", "JustBeforeEach", 3, 0), cl(nd("ae0", "AfterEach", 4, 0)), nd("ae0b", "AfterEach", 5, 0), nd("jae0", "JustAfterEach", 6, 0), nd("C", "Container", 7, 0),
		cl(nd("ae1", "AfterEach", 8, 1)), nd("jae1", "JustAfterEach", 9, 1), nd("jbe1", "JustBeforeEach", 10, 1), cl(nd("be1", "BeforeEach", 11, 1)), nd("D", "Container", 12, 1),
		nd("be2", "BeforeEach", 13, 2), nd("ae2", "AfterEach", 14, 2), nd("ae2b", "AfterEach", 15, 2), nd("jae2", "JustAfterEach", 16, 2), cl(nd("jae2b", "JustAfterEach", 17, 2)), nd("jbe2", "JustBeforeEach", 18, 2), nd("jbe2b", "JustBeforeEach", 19, 2), cl(nd("it", "It", 20, 2)),
	}}
	ordered := otree{name: "ordered", nodes: []onode{
		cl(nd("be0", "BeforeEach", 1, 0)), nd("ae0", "AfterEach", 2, 0), {id: "C", kind: "Container", n: 3, level: 0, ordered: true},
		cl(nd("ba1", "BeforeAll", 4, 1)), nd("ba1b", "BeforeAll", 5, 1), cl(nd("be1", "BeforeEach", 6, 1)), cl(nd("aa1", "AfterAll", 7, 1)), nd("aa1b", "AfterAll", 8, 1), cl(nd("ae1", "AfterEach", 9, 1)), nd("jae1", "JustAfterEach", 10, 1), cl(nd("it", "It", 11, 1)),
	}, scope: map[string]string{"ba1": "C", "ba1b": "C", "aa1": "C", "aa1b": "C"}}
	bare := otree{name: "no teardown nodes", nodes: []onode{cl(nd("be0", "BeforeEach", 1, 0)), nd("C", "Container", 2, 0), cl(nd("jbe1", "JustBeforeEach", 3, 1)), cl(nd("it", "It", 4, 1))}}
	barest := otree{name: "ordered, no teardown nodes", nodes: []onode{{id: "C", kind: "Container", n: 1, level: 0, ordered: true}, cl(nd("ba1", "BeforeAll", 2, 1)), cl(nd("it", "It", 3, 1))}, scope: map[string]string{"ba1": "C"}}
	inner := otree{name: "teardown nodes below", nodes: []onode{cl(nd("be0", "BeforeEach", 1, 0)), nd("C", "Container", 2, 0), cl(nd("be1", "BeforeEach", 3, 1)), nd("ae1", "AfterEach", 4, 1), cl(nd("it", "It", 5, 1))}}
	out := []otree{levels, ordered, bare, barest, inner}
	for i := range out {
		all(&out[i])
	}
	return out
}

// byLevel sorts the nodes of the given kinds, kinds first, stably by level.
func (t *otree) byLevel(desc bool, kinds ...string) []onode {
	var out []onode
	for _, k := range kinds {
		for _, n := range t.nodes {
			if n.kind == k {
				out = append(out, n)
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool {
		if desc {
			return out[i].level > out[j].level
		}
		return out[i].level < out[j].level
	})
	return out
}

// expected is what an attempt runs, given the outcomes of its setup and subject nodes: the phases in order.
func (t *otree) expected(outcome map[string]string) (setup, teardown, cleanups []string) {
	var pend []onode
	add := func(n onode) {
		if n.cleanup {
			pend = append(pend, n)
		}
	}
	level := 1 << 30
	s := append(append(t.byLevel(false, "BeforeAll", "BeforeEach"), t.byLevel(false, "JustBeforeEach")...), t.byLevel(false, "It")...)
	for _, n := range s {
		setup = append(setup, n.id)
		add(n)
		if o := outcome[n.id]; o != "SpecStatePassed" {
			level = n.level
			break
		}
	}
	for _, n := range append(t.byLevel(true, "JustAfterEach"), t.byLevel(true, "AfterEach", "AfterAll")...) {
		if n.level <= level {
			teardown = append(teardown, n.id)
			add(n)
		}
	}
	for _, all := range []bool{false, true} {
		for i := len(pend) - 1; i >= 0; i-- {
			if strings.HasSuffix(pend[i].kind, "All") == all {
				cleanups = append(cleanups, "cleanup of "+pend[i].id)
			}
		}
	}
	return
}

// attemptOrder explores an attempt of each tree with every node ending in every outcome (one or two other than passed)
// and has what ran compared with what should.
func attemptOrder(c *Ctx, judge func(t *otree, got, setup, teardown, cleanups []string) []finding) {
	for _, cfg := range []struct {
		odd int
		out []string
	}{{1, []string{"SpecStatePassed", "SpecStateFailed", "SpecStateSkipped", "SpecStatePanicked", "SpecStateTimedout", "SpecStateInterrupted", "SpecStateAborted"}}, {2, []string{"SpecStatePassed", "SpecStateFailed"}}} {
		ts := attemptTrees()
		for i := range ts {
			t := &ts[i]
			t.odd, t.outcomes = cfg.odd, cfg.out
			t.judgeBy = func(evs []oevent) []finding {
				outcome := map[string]string{}
				var got []string
				for _, e := range evs {
					if e.clean {
						got = append(got, "cleanup of "+e.node)
						continue
					}
					if _, ok := outcome[e.node]; !ok {
						outcome[e.node] = e.outcome
					}
					got = append(got, e.node)
				}
				s, td, cl := t.expected(outcome)
				return judge(t, got, s, td, cl)
			}
			l05tree(c, t)
		}
	}
	c.Floor(4)
}

func only(xs []string, in map[string]bool) []string {
	var out []string
	for _, x := range xs {
		if in[x] {
			out = append(out, x)
		}
	}
	return out
}

// l02order: what runs, runs in the order it should.
func l02order(c *Ctx) {
	c.Rule("attempt-traces", "on every history of an attempt of a family of specs with several nodes of every kind at several levels, the nodes that run do so in the documented order")
	attemptOrder(c, func(t *otree, got, s, td, cl []string) []finding {
		want := append(append(append([]string{}, s...), td...), cl...)
		g, w := only(got, setOf(want)), only(want, setOf(got))
		if strings.Join(g, " ") == strings.Join(w, " ") {
			return nil
		}
		for i := range w {
			if i < len(g) && g[i] != w[i] {
				return []finding{{"order", fmt.Sprintf("%s runs where %s should (order %s)", g[i], w[i], strings.Join(g, ", "))}}
			}
		}
		return []finding{{"order", "nodes run twice: " + strings.Join(g, ", ")}}
	})
}

// l03order: every teardown node at or above the level reached and every pending cleanup runs, and nothing deeper.
func l03order(c *Ctx) {
	c.Rule("teardown-traces", "on every history of an attempt of a family of specs, exactly the teardown nodes at or above the level reached run, and every cleanup that was registered")
	attemptOrder(c, func(t *otree, got, s, td, cl []string) []finding {
		g := setOf(got)
		for _, n := range td {
			if !g[n] {
				return []finding{{"teardown node omitted", fmt.Sprintf("%s is not run (ran %s)", n, strings.Join(got, ", "))}}
			}
		}
		for _, n := range cl {
			if !g[n] {
				return []finding{{"cleanup omitted", fmt.Sprintf("the %s is not run (ran %s)", n, strings.Join(got, ", "))}}
			}
		}
		want := setOf(append(append(append([]string{}, s...), td...), cl...))
		for _, n := range got {
			if !want[n] {
				return []finding{{"node beyond the level reached", fmt.Sprintf("%s runs although its level was not reached (ran %s)", n, strings.Join(got, ", "))}}
			}
		}
		return nil
	})
}

// l04orderTraces: cleanups run once each, in reverse order of registration within a scope.
func l04orderTraces(c *Ctx) {
	c.Rule("cleanup-traces", "on every history of an attempt, each registered cleanup runs exactly once, the per-spec ones before the container's, last registered first")
	attemptOrder(c, func(t *otree, got, s, td, cl []string) []finding {
		var g []string
		for _, n := range got {
			if strings.HasPrefix(n, "cleanup of ") {
				g = append(g, n)
			}
		}
		if strings.Join(g, "|") != strings.Join(cl, "|") {
			return []finding{{"cleanups", fmt.Sprintf("the cleanups run are [%s], want [%s]", strings.Join(g, ", "), strings.Join(cl, ", "))}}
		}
		return nil
	})
}

// suiteCleanupTraces runs suite teardown on a concrete list of suite nodes and pending cleanups.
func suiteCleanupTraces(c *Ctx) {
	fn := c.Fn("(*internal.Suite).runAfterSuiteCleanup")
	if fn == nil || c.Fn("(*internal.Suite).runSuiteNode") == nil {
		return
	}
	pre := suitePrefix(fn)
	nodeT := c.Type("internal", "Node")
	suiteT := c.Type("internal", "Suite")
	listT, nodesT := fieldOfType(suiteT, "cleanupNodes"), fieldOfType(suiteT, "suiteNodes")
	stT := c.Type("types", "SpecState")
	for _, as := range []string{"", "AfterSuite", "SynchronizedAfterSuite"} {
		for n := 0; n <= 3; n++ {
			id := fmt.Sprintf("%d cleanups after %q", n, as)
			var x *engine.Interp
			mk := func(i int, kind string) *engine.Val {
				return engine.Agg(engine.Nil(nodeT), map[string]*engine.Val{"ID": engine.IntVal(int64(i), fieldOfType(nodeT, "ID")), "NodeType": c.ConstVal("types", "NodeType"+kind)}, nodeT)
			}
			args := []*engine.Val{engine.ParamSym(fn.Params[0])}
			for _, p := range fn.Params[1:] {
				if b, ok := p.Type().Underlying().(interface{ String() string }); ok && b.String() == "int" {
					args = append(args, engine.IntVal(2, p.Type()))
				} else {
					args = append(args, engine.ParamSym(p))
				}
			}
			want := ""
			if as != "" {
				want = "10 "
			}
			for i := n; i >= 1; i-- {
				want += fmt.Sprintf("%d ", i)
			}
			broken := ""
			x = engine.New(c.P, engine.Cfg{Root: fn, Args: args, Linear: true, Budget: 200000,
				Concrete:  func(*ssa.Phi) bool { return true },
				TrackFact: func(*engine.Val) bool { return false },
				Init: func(st *engine.State) {
					k := 0
					for i := 1; i <= n; i++ {
						x.Store(st, fmt.Sprintf("*pend[%d]", k), mk(i, "CleanupAfterSuite"))
						k++
						if i == 1 { // one of another scope that was left behind
							x.Store(st, fmt.Sprintf("*pend[%d]", k), mk(20, "CleanupAfterEach"))
							k++
						}
					}
					x.Store(st, pre+".cleanupNodes", engine.SliceAt("*pend", k, listT))
					k = 0
					for i, kind := range []string{"ReportAfterSuite", "BeforeSuite", as} {
						if kind != "" {
							x.Store(st, fmt.Sprintf("*snodes[%d]", k), mk([]int{31, 32, 10}[i], kind))
							k++
						}
					}
					x.Store(st, pre+".suiteNodes", engine.SliceAt("*snodes", k, nodesT))
				},
				OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
					switch {
					case k.Name == "(*internal.Suite).runSuiteNode":
						v, ok := x.FieldOf(k.St, k.Args[1], "ID").Int()
						if !ok {
							broken = "a node of unknown identity is run: " + k.Args[1].Key()
						}
						var outs []engine.Outcome
						for _, o := range []string{"SpecStatePassed", "SpecStateFailed", "SpecStateSkipped", "SpecStateAborted"} {
							st := k.St.Clone()
							st.Auto["log"] += fmt.Sprintf("%d ", v)
							x.Store(st, pre+locState, engine.IntVal(constInt(c, "types", o), stT))
							outs = append(outs, engine.Outcome{St: st, Ret: engine.Nil(k.T)})
						}
						return outs, true
					case k.Name == "(*internal.Suite).processCurrentSpecReport" || strings.HasSuffix(k.Name, "Reporter.WillRun"), strings.Contains(k.Name, "sync."):
						return k.Return(k.Fresh()), true
					case strings.HasSuffix(k.Name, "InterruptHandlerInterface.Status"):
						return k.Return(k.Fresh()), true
					}
					return nodeListModel(c, k)
				}})
			c.Run(x)
			if broken != "" {
				c.Undecided("%s: %s", id, broken)
				continue
			}
			for _, e := range x.Exits {
				if e.Kind != engine.ExitReturn {
					continue
				}
				c.Check(e.St.Auto["log"] == want, id, fn.Pos(), e.St.Path(10), "with %s suite teardown runs nodes [%s], want [%s] (cleanups are numbered in order of registration, 10 is the after-suite node)", id, e.St.Auto["log"], want)
			}
		}
	}
}

func constInt(c *Ctx, pkg, name string) int64 {
	n, _ := c.ConstVal(pkg, name).Int()
	return n
}

// reportEachTraces runs reportEach on concrete lists of reporting nodes.
func reportEachTraces(c *Ctx) {
	fn := c.Fn("(*internal.Suite).reportEach")
	if fn == nil || c.Fn("(*internal.Suite).runNode") == nil {
		return
	}
	pre := suitePrefix(fn)
	nodeT, specT := c.Type("internal", "Node"), c.Type("internal", "Spec")
	nodesT := c.Type("internal", "Nodes")
	stT := c.Type("types", "SpecState")
	var specArg, kindArg = -1, -1
	for i, p := range fn.Params {
		switch engine.TypeStr(p.Type()) {
		case "internal.Spec":
			specArg = i
		case "types.NodeType":
			kindArg = i
		}
	}
	if nodeT == nil || specT == nil || specArg < 0 || kindArg < 0 {
		c.Undecided("reportEach does not take a spec and a kind of node")
		return
	}
	type nd struct {
		n, level int
		kind     string
	}
	nodes := []nd{{1, 0, "ReportAfterEach"}, {2, 0, "ReportBeforeEach"}, {3, 0, "BeforeEach"}, {4, 0, "ReportAfterEach"}, {5, 1, "ReportBeforeEach"}, {6, 1, "ReportAfterEach"}, {7, 1, "ReportBeforeEach"}, {8, 2, "ReportAfterEach"}, {9, 2, "ReportBeforeEach"}, {10, 2, "AfterEach"}, {11, 2, "It"}}
	for _, kind := range []string{"ReportBeforeEach", "ReportAfterEach"} {
		for _, cut := range []int{0, 4, 7, 9, 11} {
			var ws []nd
			for _, n := range nodes[:cut] {
				if n.kind == kind {
					ws = append(ws, n)
				}
			}
			sort.SliceStable(ws, func(i, j int) bool {
				if kind == "ReportAfterEach" {
					return ws[i].level > ws[j].level
				}
				return ws[i].level < ws[j].level
			})
			want := ""
			for _, n := range ws {
				want += fmt.Sprintf("%d ", n.n)
			}
			id := fmt.Sprintf("%s among %d nodes", kind, cut)
			args := make([]*engine.Val, len(fn.Params))
			for i, p := range fn.Params {
				args[i] = engine.ParamSym(p)
			}
			args[specArg] = engine.Agg(engine.Nil(specT), map[string]*engine.Val{"Nodes": engine.SliceAt("*rnodes", cut, nodesT)}, specT)
			args[kindArg] = c.ConstVal("types", "NodeType"+kind)
			broken := ""
			var x *engine.Interp
			x = engine.New(c.P, engine.Cfg{Root: fn, Args: args, Linear: true, Budget: 200000,
				Concrete:  func(*ssa.Phi) bool { return true },
				TrackFact: func(*engine.Val) bool { return false },
				Track: func(l string) bool {
					return !strings.Contains(l, ".currentSpecReport.") || strings.HasSuffix(l, locState)
				},
				Init: func(st *engine.State) {
					for i, n := range nodes[:cut] {
						x.Store(st, fmt.Sprintf("*rnodes[%d]", i), engine.Agg(engine.Nil(nodeT), map[string]*engine.Val{"ID": engine.IntVal(int64(n.n), fieldOfType(nodeT, "ID")), "NestingLevel": engine.IntVal(int64(n.level), fieldOfType(nodeT, "NestingLevel")), "NodeType": c.ConstVal("types", "NodeType"+n.kind)}, nodeT))
					}
					x.Store(st, pre+locState, engine.IntVal(constInt(c, "types", "SpecStatePassed"), stT))
				},
				OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
					switch {
					case k.Name == "(*internal.Suite).runNode":
						v, ok := x.FieldOf(k.St, k.Args[1], "ID").Int()
						if !ok {
							broken = "a node of unknown identity is run: " + k.Args[1].Key()
						}
						var outs []engine.Outcome
						for _, o := range []string{"SpecStatePassed", "SpecStateFailed", "SpecStateAborted"} {
							st := k.St.Clone()
							st.Auto["log"] += fmt.Sprintf("%d ", v)
							outs = append(outs, engine.Outcome{St: st, Ret: engine.Tuple(engine.IntVal(constInt(c, "types", o), stT), engine.Sym("failure", c.Type("types", "Failure")))})
						}
						return outs, true
					case strings.Contains(k.Name, "sync."), strings.Contains(k.Name, "OutputInterceptor."), strings.Contains(k.Name, "WriterInterface."), strings.HasSuffix(k.Name, ".BestTextFor"):
						return k.Return(k.Fresh()), true
					}
					if o, ok := nodeListModel(c, k); ok {
						return o, ok
					}
					return sortHook(c)(k)
				}})
			c.Run(x)
			if broken != "" {
				c.Undecided("%s: %s", id, broken)
				continue
			}
			for _, e := range x.Exits {
				if e.Kind != engine.ExitReturn {
					continue
				}
				c.Check(e.St.Auto["log"] == want, id, fn.Pos(), e.St.Path(10), "the %s nodes of a spec run as [%s], want [%s]", kind, e.St.Auto["log"], want)
			}
		}
	}
}
