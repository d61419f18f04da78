package rules

import (
	"strings"

	"ginkgoverif/engine"
)

func init() {
	register(&Def{ID: "L02", Technique: "abstract interpretation of every history of an attempt over a bounded family of specs, compared with the documented order; list-helper tables and tree walks for what a spec consists of",
		Note: "A bounded family of specs (several nodes of each kind at several levels), every outcome of one node and pass/fail of two. The order read off the list expressions at each run site is an advisory rule: a disagreement alone is undecided. Which nodes a spec has, at which level and in which order, is decided on a bounded family of trees.",
		Run:  l02})
	register(&Def{ID: "L03", Technique: "abstract interpretation of every history of an attempt over a bounded family of specs, compared with the set of teardown nodes and cleanups due; typestate and ordering of suite teardown",
		Note: "Every path through an attempt for every outcome of every node, every path of the suite run. Assumes node IDs are non-zero and that nodes terminate or time out (C01).",
		Run:  l03})
}

var wantOrder = map[int]string{1: "asc", 2: "asc", 3: "first", 4: "desc", 5: "desc", 6: "rev", 7: "rev"}
var rankName = map[int]string{1: "before-all/before-each", 2: "just-before-each", 3: "subject", 4: "just-after-each", 5: "after-each/after-all", 6: "per-spec cleanup", 7: "container cleanup"}

func l02(c *Ctx) {
	c.Rule("attempt-order", "the lists of nodes run by an attempt are ordered before* (ascending level), just-before* (ascending), subject, just-after* (descending), after* (descending), spec cleanups (last registered first), container cleanups (last registered first), and are traversed first to last")
	ranks := map[int]bool{}
	c.soft = true
	attempt(c, &attemptWalk{
		run: func(k *engine.Call, l nlist) {
			prev := 0
			for _, s := range l {
				r := segRank(s)
				if !c.Check(r != 0, "kinds "+s.kinds, k.Pos(), k.St.Path(8), "the attempt runs a mix of node kinds %s from one list segment", s.kinds) {
					continue
				}
				ranks[r] = true
				c.Check(r > prev, rankName[r]+" after "+rankName[prev], k.Pos(), k.St.Path(8), "%s nodes are placed after %s nodes (list %s)", rankName[r], rankName[prev], l)
				prev = r
				o := s.order
				if s.first {
					o = "first"
				}
				c.Check(o == wantOrder[r], rankName[r]+" order "+wantOrder[r], k.Pos(), k.St.Path(8), "%s nodes run in order %q, want %q", rankName[r], o, wantOrder[r])
				src := "spec"
				if r >= 6 {
					src = "cleanup"
				}
				c.Check(s.src == src, rankName[r]+" source", k.Pos(), nil, "%s nodes are taken from %s", rankName[r], s.src)
				for _, kn := range strings.Split(map[int]string{1: "BeforeEach+BeforeAll", 2: "JustBeforeEach", 3: "It", 4: "JustAfterEach", 5: "AfterEach+AfterAll", 6: "CleanupAfterEach", 7: "CleanupAfterAll"}[r], "+") {
					c.Check(strings.Contains("+"+s.kinds+"+", "+"+kn+"+"), rankName[r]+" includes "+kn, k.Pos(), nil, "%s nodes are not sorted together with the others of their phase (segment has %s)", kn, s.kinds)
				}
			}
			lo, hi := listRanks(l)
			if p := k.St.Auto["rank"]; p == "t" {
				c.Check(lo >= 4, "no setup after teardown", k.Pos(), k.St.Path(8), "setup nodes run after the teardown phase began")
			} else if hi >= 4 {
				k.St.Auto["rank"] = "t"
			}
			key := k.Args[1].Key()
			idx := key[strings.LastIndex(key, "[")+1:]
			c.Check(strings.Contains(key, "first(") || (strings.Contains(idx, "loop:") && !strings.Contains(idx, "loopdown:") && !strings.Contains(idx, "-(")), "traversal "+rankName[lo], k.Pos(), k.St.Path(8), "the list is not traversed from first to last (element %s)", key)
		},
	})
	for r := 1; r <= 7; r++ {
		c.Check(ranks[r], "an attempt runs "+rankName[r]+" nodes", 0, nil, "no path of an attempt runs %s nodes", rankName[r])
	}
	c.Floor(40)
	c.soft = false
	l02order(c)
	listHelperTable(c)
	specsOfTree(c)

	c.Rule("suite-cleanup-order", "suite-level cleanups run after the after-suite node, last registered first; per-spec reporting nodes run outermost-first before and innermost-first after the spec")
	c.soft = true
	suiteNodeLists(c)
	c.Floor(6)
	c.soft = false
	c.Rule("report-each-traces", "the ReportBeforeEach nodes of a spec all run outermost first, its ReportAfterEach nodes innermost first, in declaration order within a level, whatever each ends in")
	reportEachTraces(c)
	c.Floor(8)
	c.Rule("suite-teardown-traces", "suite teardown runs the after-suite node first and then the suite cleanups, last registered first")
	suiteCleanupTraces(c)
	c.Floor(12)
}

// suiteNodeLists checks the lists reportEach and runAfterSuiteCleanup traverse.
func suiteNodeLists(c *Ctx) {
	no := &nodeOps{c: c}
	for _, root := range []string{"(*internal.Suite).reportEach", "(*internal.Suite).runAfterSuiteCleanup"} {
		fn := c.Fn(root)
		if fn == nil {
			continue
		}
		seen := 0
		x := c.Run(engine.New(c.P, engine.Cfg{Root: fn,
			Track: func(l string) bool { return false },
			TrackFact: func(v *engine.Val) bool {
				return engine.TypeStr(v.T) == "types.NodeType" || strings.Contains(v.Key(), "nodeType")
			},
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				if k.Name == "(internal.Nodes).WithType" {
					if _, ok := k.Args[1].Int(); !ok {
						// kind comes from a parameter: fork over the two report-each kinds
						var outs []engine.Outcome
						for _, kn := range []string{"NodeTypeReportBeforeEach", "NodeTypeReportAfterEach"} {
							st := k.St.Clone()
							st.Auto["kind"] = kn
							outs = append(outs, engine.Outcome{St: st, Ret: nlSym(nlist{{src: "spec", kinds: strings.TrimPrefix(kn, "NodeType"), order: "decl"}}, k.T)})
						}
						return outs, true
					}
				}
				if o, ok := no.call(k); ok {
					return o, ok
				}
				if k.Name == "(*internal.Suite).runSuiteNode" || k.Name == "(*internal.Suite).runNode" {
					l, ok := listsIn(k.Args[1].Key())
					if !ok || len(l) == 0 {
						c.Undecided("cannot tell which nodes %s runs: %s", root, k.Args[1].Key())
						return k.Return(k.Fresh()), true
					}
					s := l[0]
					seen++
					key := k.Args[1].Key()
					idx := key[strings.LastIndex(key, "[")+1:]
					dir := strings.Contains(key, "first(") || (!strings.Contains(idx, "loopdown:") && !strings.Contains(idx, "-("))
					switch {
					case s.kinds == "CleanupAfterSuite":
						c.Check(s.order == "rev" && dir || s.order == "decl" && strings.Contains(idx, "loopdown:"), "suite cleanups last registered first", k.Pos(), k.St.Path(8), "suite cleanups run in order %q", s.order)
						k.St.Auto["clean"] = "1"
					case strings.Contains(s.kinds, "AfterSuite"):
						c.Check(k.St.Auto["clean"] == "", "after-suite before suite cleanups", k.Pos(), k.St.Path(8), "the after-suite node runs after a suite cleanup")
						c.Check(strings.Contains(s.kinds, "SynchronizedAfterSuite") && strings.Contains("+"+s.kinds+"+", "+AfterSuite+"), "after-suite kinds", k.Pos(), nil, "suite teardown selects %s", s.kinds)
					case k.St.Auto["kind"] != "":
						want := "asc"
						if k.St.Auto["kind"] == "NodeTypeReportAfterEach" {
							want = "desc"
						}
						// the branch facts say which kind this path is for
						v := engine.Sym(fn.Params[2].Name(), fn.Params[2].Type())
						feasible := false
						for _, n := range k.X.DomNames(k.St, v) {
							if n == k.St.Auto["kind"] {
								feasible = true
							}
						}
						if feasible {
							c.Check(s.order == want && dir, s.kinds+" order "+want, k.Pos(), k.St.Path(8), "%s nodes run in order %q, want %q", s.kinds, s.order, want)
						}
					}
					return k.Return(k.Fresh()), true
				}
				return nil, false
			}}))
		_ = x
		c.Check(seen > 0, root+" runs nodes", fn.Pos(), nil, "%s runs no node", root)
	}
}

func l03(c *Ctx) {
	c.Rule("drained", "every return of an attempt is preceded by a teardown-and-cleanup list that was computed after the last node ran and found empty; no other exit exists")
	full := []string{"JustAfterEach", "AfterEach", "AfterAll", "CleanupAfterEach", "CleanupAfterAll"}
	n := 0
	c.soft = true
	attempt(c, &attemptWalk{
		exit: func(x *engine.Interp, e *engine.Exit) {
			if e.Kind != engine.ExitReturn {
				c.Fail("attemptSpec exit "+string(e.Kind), e.Pos, e.St.Path(10), "an attempt can end by %s without running teardown", e.Kind)
				return
			}
			n++
			dr := e.St.Auto["dr"]
			l, _ := listsIn(dr)
			ks := setOf(strings.Split(unionKinds(l), "+"))
			for _, k := range full {
				c.Check(ks[k] && e.St.Auto["cl"] == "fresh", "return drains "+k+" after "+e.St.Auto["last"], e.Pos, e.St.Path(14), "an attempt returns (last node ended %s) without a final, empty evaluation of the pending %s nodes (last evaluated list: %s)", e.St.Auto["last"], k, dr)
			}
		},
		run: func(k *engine.Call, l nlist) {
			lo, _ := listRanks(l)
			if lo < 4 {
				if k.St.Auto["nl.level"] != "" {
					c.Fail("setup level", k.Pos(), k.St.Path(8), "setup nodes are restricted by nesting level")
				}
				return
			}
			terminated := k.St.Auto["setupend"]
			for _, s := range l {
				if segRank(s) >= 6 {
					c.Check(!s.level, "cleanups not level-restricted", k.Pos(), k.St.Path(8), "pending cleanups are restricted to a nesting level: a cleanup may never run")
					continue
				}
				if terminated == "SpecStatePassed" {
					c.Check(!s.level, "teardown unrestricted after passing setup", k.Pos(), k.St.Path(8), "all setup and subject nodes passed but teardown is restricted to a nesting level")
				} else {
					c.Check(s.level, "teardown restricted after setup ended "+terminated, k.Pos(), k.St.Path(8), "setup ended %s but teardown nodes deeper than the level reached are run", terminated)
					lv := k.St.Auto["nl.level"]
					c.Check(strings.Contains(lv, "NL{") && strings.Contains(lv, ".NestingLevel"), "teardown level is the terminating node's", k.Pos(), k.St.Path(8), "teardown is restricted to level %s, not to the level of the node that ended the setup phase", lv)
				}
			}
		},
		settle: func(x *engine.Interp, st *engine.State) {
			if st.Auto["ph"] == "setup" {
				st.Auto["setupend"] = st.Auto["last"]
			}
		},
	})
	c.Check(n > 0, "attempt returns", 0, nil, "no returning path of an attempt was found")
	c.Floor(40)
	c.soft = false
	l03order(c)

	c.Rule("suite-teardown", "once before-suite was attempted, every path of the run reaches suite teardown exactly once; and suite teardown runs the after-suite node and every suite cleanup whatever happened")
	suiteRun(c, &suiteWalk{
		exit: func(x *engine.Interp, e *engine.Exit) {
			a := e.St.Auto
			if e.Kind != engine.ExitReturn {
				c.Fail("runSpecs exit "+string(e.Kind), e.Pos, e.St.Path(12), "the suite run can end by %s", e.Kind)
				return
			}
			if a["before"] != "" {
				c.Check(a["after"] == "1", "teardown after before-suite", e.Pos, e.St.Path(14), "before-suite was entered but suite teardown runs %q times on this path", a["after"])
			}
		},
		call: func(k *engine.Call, what string) {
			if what == "group" {
				c.Check(k.St.Auto["after"] == "", "no specs after suite teardown", k.Pos(), k.St.Path(8), "specs run after suite teardown")
			}
		},
	})
	afterSuiteUnconditional(c)
	c.Floor(6)
}
