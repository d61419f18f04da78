package rules

import (
	"fmt"
	"go/types"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{ID: "L04", Technique: "decision-table extraction of the registration scope over every declared node kind and phase, heap typestate of the pending list, and path conditions of the callback's error handling (abstract interpretation)",
		Note: "Every declared node kind, phase and emptiness of the current node is enumerated; the pending list is a three-element abstraction. Order and exactly-once are decided on every history of a bounded family of attempts and of suite teardowns; the list-domain rule is advisory. Whether a registration races with the runner is C03.",
		Run:  l04})
}

// cleanupScope is the property's table: where a cleanup registered in a node of each kind belongs; "" rejects.
var cleanupScope = map[string]string{
	"BeforeSuite": "CleanupAfterSuite", "SynchronizedBeforeSuite": "CleanupAfterSuite", "AfterSuite": "CleanupAfterSuite", "SynchronizedAfterSuite": "CleanupAfterSuite",
	"BeforeAll": "CleanupAfterAll", "AfterAll": "CleanupAfterAll",
	"BeforeEach": "CleanupAfterEach", "JustBeforeEach": "CleanupAfterEach", "It": "CleanupAfterEach", "AfterEach": "CleanupAfterEach", "JustAfterEach": "CleanupAfterEach",
	"ReportBeforeEach": "", "ReportAfterEach": "", "ReportBeforeSuite": "", "ReportAfterSuite": "",
	"CleanupInvalid": "", "CleanupAfterEach": "", "CleanupAfterAll": "", "CleanupAfterSuite": "",
}

func l04(c *Ctx) {
	c.Rule("scope-table", "a cleanup registered while a node of each kind runs joins the pending list at that node's scope, level and identity; registration outside a running node, in a cleanup or in a reporting node is rejected and changes nothing")
	l04scope(c)
	c.Floor(40)
	c.Rule("removed-when-started", "a cleanup node has left the pending list before its body can start and on every way out of running it; running any other node leaves the list alone")
	l04removed(c)
	c.Floor(8)
	c.Rule("reverse-order", "pending cleanups of every scope are taken in reverse order of registration")
	c.soft = true
	l04order(c)
	c.Floor(2)
	c.soft = false
	l04orderTraces(c)
	c.Rule("suite-cleanup-traces", "suite teardown runs the after-suite node, then every pending suite cleanup once, last registered first, whatever each ends in")
	suiteCleanupTraces(c)
	c.Floor(12)
	c.Rule("callback-error", "a cleanup callback whose last result is a non-nil error fails the spec on every path, with or without a context")
	l04callback(c)
	c.Floor(2)
}

func l04scope(c *Ctx) {
	fn := c.Fn("(*internal.Suite).pushCleanupNode")
	if fn == nil {
		return
	}
	pre := suitePrefix(fn)
	ntT := c.Type("types", "NodeType")
	nodeT := c.Type("internal", "Node")
	phT := c.Type("internal", "Phase")
	listT := fieldOfType(fn.Params[0].Type().(*types.Pointer).Elem(), "cleanupNodes")
	intT, uintT := types.Typ[types.Int], types.Typ[types.Uint]
	kinds := []engine.EnumMember{}
	for _, m := range c.P.EnumDomain(ntT) {
		if bits(m.Val) == 1 {
			kinds = append(kinds, m)
		}
	}
	for _, ph := range c.P.EnumDomain(phT) {
		for _, zero := range []bool{false, true} {
			for _, m := range kinds {
				kn := strings.TrimPrefix(m.Name, "NodeType")
				want, known := cleanupScope[kn]
				if kn == "Container" || !known && !zero && ph.Name == "PhaseRun" {
					continue // never a running node
				}
				if ph.Name != "PhaseRun" || zero {
					want = ""
				}
				id := int64(7)
				if zero {
					id = 0
				}
				var x *engine.Interp
				node := engine.Agg(engine.Sym("node", nodeT), map[string]*engine.Val{"ID": engine.IntVal(9, uintT), "NodeType": c.ConstVal("types", "NodeTypeCleanupInvalid")}, nodeT)
				x = engine.New(c.P, engine.Cfg{Root: fn, Args: []*engine.Val{engine.ParamSym(fn.Params[0]), node},
					Concrete: func(*ssa.Phi) bool { return true },
					Init: func(st *engine.State) {
						x.Store(st, pre+".phase", engine.IntVal(ph.Val, phT))
						x.Store(st, pre+".currentNode", engine.Agg(engine.Sym("current", nodeT), map[string]*engine.Val{"ID": engine.IntVal(id, uintT), "NodeType": engine.IntVal(m.Val, ntT), "NestingLevel": engine.IntVal(3, intT)}, nodeT))
						x.Store(st, pre+".cleanupNodes", engine.SliceAt("*pending", 1, listT))
						x.Store(st, "*pending[0].ID", engine.IntVal(1, uintT))
					}})
				c.Run(x)
				for _, e := range x.Exits {
					where := fmt.Sprintf("%s, current node %s, empty=%v", ph.Name, kn, zero)
					if e.Kind != engine.ExitReturn {
						c.Check(false, where, e.Pos, e.St.Path(8), "registering a cleanup in %s leaves by %s", where, e.Kind)
						continue
					}
					isErr, known := errResult(e, e.Ret)
					if !known {
						c.Undecided("result %v in %s", e.Ret, where)
						continue
					}
					c.Check(isErr == (want == ""), where+": accepted", e.Pos, e.St.Path(8), "registering a cleanup in %s: rejected=%v, want rejected=%v", where, isErr, want == "")
					es, ok := x.Elems(e.St, x.Load(e.St, pre+".cleanupNodes", listT))
					if !ok {
						c.Undecided("pending list after registering in %s", where)
						continue
					}
					if isErr {
						c.Check(len(es) == 1, where+": list unchanged", e.Pos, e.St.Path(8), "a rejected registration changes the pending list in %s", where)
						continue
					}
					if !c.Check(len(es) == 2 && idOf(x, e, es[0]) == "1" && idOf(x, e, es[1]) == "9", where+": appended last", e.Pos, e.St.Path(8), "registering in %s leaves %d pending cleanups, want the new one appended last", where, len(es)) {
						continue
					}
					got := kindNames(c, x.FieldOf(e.St, es[1], "NodeType"))
					c.Check(got == want, where+": scope", e.Pos, e.St.Path(8), "a cleanup registered in %s becomes %s, want %s", where, got, want)
					lv, _ := x.FieldOf(e.St, es[1], "NestingLevel").Int()
					gen, _ := x.FieldOf(e.St, es[1], "NodeIDWhereCleanupWasGenerated").Int()
					c.Check(lv == 3 && gen == 7, where+": level and generator", e.Pos, e.St.Path(8), "a cleanup registered in %s has level %d and generator %d, want the running node's 3 and 7", where, lv, gen)
				}
			}
		}
	}
	// the entry point routes cleanup nodes there
	if pn := c.Fn("(*internal.Suite).PushNode"); pn != nil {
		var x *engine.Interp
		node := engine.Agg(engine.Sym("node", nodeT), map[string]*engine.Val{"ID": engine.IntVal(9, uintT), "NodeType": c.ConstVal("types", "NodeTypeCleanupInvalid")}, nodeT)
		x = engine.New(c.P, engine.Cfg{Root: pn, Args: []*engine.Val{engine.ParamSym(pn.Params[0]), node},
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				if k.Name == "(*internal.Suite).pushCleanupNode" {
					k.St.Auto["routed"] = "1"
					return k.Return(k.Fresh()), true
				}
				return nil, false
			}})
		c.Run(x)
		for _, e := range x.Exits {
			c.Check(e.St.Auto["routed"] == "1", "cleanup nodes are routed to the pending list", e.Pos, e.St.Path(8), "pushing a cleanup node does not register it as a pending cleanup")
		}
	}
}

// errResult classifies an error result: constant nil, or certainly not nil.
func errResult(e *engine.Exit, v *engine.Val) (isErr, known bool) {
	if v == nil {
		return false, false
	}
	if v.IsNil() {
		return false, true
	}
	if v.K == engine.VIface || strings.HasPrefix(v.S, "nonnil:") || strings.Contains(v.Key(), "nonnil:err:") {
		return true, true
	}
	return false, false
}

func l04removed(c *Ctx) {
	fn := c.Fn("(*internal.Suite).runNode")
	if fn == nil {
		return
	}
	pre := suitePrefix(fn)
	ntT := c.Type("types", "NodeType")
	nodeT := c.Type("internal", "Node")
	uintT := types.Typ[types.Uint]
	listT := fieldOfType(fn.Params[0].Type().(*types.Pointer).Elem(), "cleanupNodes")
	writers := map[ssa.Instruction]bool{}
	for _, m := range c.P.EnumDomain(ntT) {
		if bits(m.Val) != 1 {
			continue
		}
		kn := strings.TrimPrefix(m.Name, "NodeType")
		if kn == "Container" || kn == "CleanupInvalid" {
			continue
		}
		clean := strings.HasPrefix(kn, "Cleanup")
		want := "1,2,3"
		if clean {
			want = "1,3"
		}
		node := engine.Agg(engine.Sym("node", nodeT), map[string]*engine.Val{"ID": engine.IntVal(2, uintT), "NodeType": engine.IntVal(m.Val, ntT)}, nodeT)
		args := []*engine.Val{engine.ParamSym(fn.Params[0]), node}
		for _, p := range fn.Params[2:] {
			args = append(args, engine.ParamSym(p))
		}
		var x *engine.Interp
		check := func(st *engine.State, when string) {
			es, ok := x.Elems(st, x.Load(st, pre+".cleanupNodes", listT))
			if !ok {
				c.Undecided("pending list %s of a %s node: %v", when, kn, x.Load(st, pre+".cleanupNodes", listT))
				return
			}
			var got []string
			for _, e := range es {
				n, _ := x.FieldOf(st, e, "ID").Int()
				got = append(got, fmt.Sprint(n))
			}
			g := strings.Join(got, ",")
			c.Check(g == want, fmt.Sprintf("%s node: pending list %s", kn, when), fn.Pos(), st.Path(10), "with cleanups 1,2,3 pending and node 2 (%s) run, the pending list %s is [%s], want [%s]", kn, when, g, want)
		}
		x = engine.New(c.P, engine.Cfg{Root: fn, Args: args, Budget: 60000,
			Track: func(l string) bool {
				return strings.Contains(l, "cleanupNodes") || strings.HasPrefix(l, "*pending") || strings.HasPrefix(l, "local") || strings.Contains(l, "makeslice")
			},
			TrackFact: func(*engine.Val) bool { return false },
			Concrete:  func(p *ssa.Phi) bool { return strings.Contains(c.P.CalleeName(topFn(p.Parent())), "Nodes)") },
			Init: func(st *engine.State) {
				x.Store(st, pre+".cleanupNodes", engine.SliceAt("*pending", 3, listT))
				for i := 0; i < 3; i++ {
					x.Store(st, fmt.Sprintf("*pending[%d].ID", i), engine.IntVal(int64(i+1), uintT))
				}
			},
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				if k.Name == "(internal.Nodes).WithoutNode" {
					return withoutNode(k)
				}
				return nil, false
			},
			OnStore: func(_ *engine.Interp, st *engine.State, in ssa.Instruction, loc string, old, v *engine.Val) {
				if loc == pre+".cleanupNodes" {
					writers[in] = true
				}
			},
			OnGo: func(k *engine.Call) {
				check(k.St, "when its body starts")
				k.St.Stop()
			},
		})
		c.Run(x)
		for _, e := range x.Exits {
			if e.Kind != engine.ExitStop {
				check(e.St, "after running")
			}
		}
	}
	// nothing else the runner does for one node changes the list
	for _, s := range c.P.FieldStores(c.P.Reach(fn, nil), "internal.Suite.cleanupNodes") {
		if !writers[s] {
			c.Undecided("%s changes the pending list after the node's body has started", c.P.RelPos(s.Pos()))
		}
	}
	c.Ok("writes of the pending list while one node is run: %d, all before its body starts", len(writers))
}

// withoutNode models removal by identity on a list of known length (the helper itself is decided by L02's list table).
func withoutNode(k *engine.Call) ([]engine.Outcome, bool) {
	es, ok := k.X.Elems(k.St, k.Args[0])
	if !ok {
		return nil, false
	}
	rm := k.X.FieldOf(k.St, k.Args[1], "ID")
	loc := fmt.Sprintf("*pending'%d", len(k.St.Auto["wn"]))
	k.St.Auto["wn"] += "i"
	n := 0
	for _, e := range es {
		if id := k.X.FieldOf(k.St, e, "ID"); id.Key() != rm.Key() {
			k.X.Store(k.St, fmt.Sprintf("%s[%d].ID", loc, n), id)
			n++
		}
	}
	return k.Return(engine.SliceAt(loc, n, k.T)), true
}

func l04order(c *Ctx) {
	seen := map[string]bool{}
	check := func(k *engine.Call, l nlist) {
		for _, s := range l {
			if !strings.Contains(s.src, "cleanup") {
				continue
			}
			seen[s.kinds] = true
			c.Check(s.order == "rev", "order of "+s.kinds, k.Pos(), k.St.Path(8), "pending %s nodes are run in order %q, not in reverse order of registration", s.kinds, s.order)
		}
	}
	attempt(c, &attemptWalk{run: check, states: okStates(c)})
	fn := c.Fn("(*internal.Suite).runAfterSuiteCleanup")
	if fn != nil {
		no := &nodeOps{c: c}
		c.Run(engine.New(c.P, engine.Cfg{Root: fn,
			Track:     func(string) bool { return false },
			TrackFact: func(*engine.Val) bool { return false },
			Opaque: func(f *ssa.Function) bool {
				n := c.P.CalleeName(f)
				return strings.HasSuffix(n, ".processCurrentSpecReport") || strings.HasSuffix(n, ".runSuiteNode")
			},
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				if k.Name == "(*internal.Suite).runSuiteNode" {
					if l, ok := listsIn(k.Args[1].Key()); ok {
						check(k, l)
					}
				}
				return no.call(k)
			}}))
	}
	for _, kn := range []string{"CleanupAfterEach", "CleanupAfterAll", "CleanupAfterSuite"} {
		if !seen[kn] {
			c.Undecided("where pending %s nodes are run", kn)
		}
	}
}

func okStates(c *Ctx) []engine.EnumMember {
	var out []engine.EnumMember
	for _, m := range reportStates(c) {
		if m.Name == "SpecStatePassed" || m.Name == "SpecStateFailed" {
			out = append(out, m)
		}
	}
	return out
}

func l04callback(c *Ctx) {
	fn := c.Fn("internal.NewCleanupNode")
	if fn == nil {
		return
	}
	bodies := map[string]*engine.Val{}
	var bst = map[string]*engine.State{}
	x := engine.New(c.P, engine.Cfg{Root: fn, Budget: 60000,
		TrackFact: func(*engine.Val) bool { return false },
		OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			if strings.HasSuffix(k.Name, "PartitionDecorations") || strings.HasSuffix(k.Name, "NewCodeLocation") {
				return k.Return(k.Fresh()), true
			}
			if k.Name == "internal.NewNode" {
				for _, a := range k.Args {
					vals := []*engine.Val{a}
					if es, ok := k.X.Elems(k.St, a); ok {
						vals = append(vals, es...)
					}
					for _, v := range vals {
						v.Walk(func(w *engine.Val) {
							if w.K == engine.VFunc && w.Fn != nil && callsReflect(w.Fn) {
								bodies[w.Fn.String()] = w
								bst[w.Fn.String()] = k.St.Clone()
							}
						})
					}
				}
				return k.Return(k.Fresh()), true
			}
			return nil, false
		}})
	c.Run(x)
	if len(bodies) == 0 {
		c.Undecided("no body handed to NewNode that calls the callback")
		return
	}
	ctxBody := false
	for _, name := range sortedKeys(bodies) {
		b := bodies[name]
		if len(b.Fn.Params) > 0 {
			ctxBody = true
		}
		y := engine.New(c.P, engine.Cfg{Root: b.Fn, Bind: b.Args, Init: func(st *engine.State) { st.CopyMem(bst[name]) },
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				if k.Name == "(reflect.Value).Call" {
					k.St.Auto["called"] += "1"
					return k.Return(engine.Sym("results", k.T)), true
				}
				if k.Fn == nil && strings.Contains(k.FnVal.Key(), "fail") {
					k.St.Auto["failed"] += "1"
					return k.Return(engine.Nil(k.T)), true
				}
				return nil, false
			}})
		c.Run(y)
		for _, e := range y.Exits {
			c.Check(e.St.Auto["called"] == "1", "callback called once", e.Pos, e.St.Path(8), "the callback is called %d times", len(e.St.Auto["called"]))
			if e.St.Auto["failed"] != "" {
				c.Ok("path fails the spec: %s", strings.Join(e.St.Path(4), "; "))
				continue
			}
			excuse := ""
			for _, f := range append(e.St.Facts(), e.St.Path(1000)...) {
				switch {
				case strings.Contains(f, "IsNil") && strings.Contains(f, "true"):
					excuse = "nil error"
				case (strings.Contains(f, "Implements") || strings.Contains(f, "typeassert")) && strings.Contains(f, "false"):
					excuse = "not an error"
				case strings.Contains(f, "len(results)"):
					if emptyFact(f) {
						excuse = "no results"
					}
				}
			}
			c.Check(excuse != "", "path without failure: "+excuse, e.Pos, e.St.Path(8), "a path through the cleanup body neither fails the spec nor establishes that there is no error: %v", e.St.Facts())
		}
	}
	c.Check(ctxBody, "context-taking callbacks handled", fn.Pos(), nil, "no body takes a context")
}

func emptyFact(f string) bool {
	return strings.Contains(f, "{0}") || strings.Contains(f, "∈[0,0]") || strings.HasSuffix(f, "=0") || strings.HasSuffix(f, "= 0") || strings.HasSuffix(f, " 0")
}

func callsReflect(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok {
				if cl := call.Common().StaticCallee(); cl != nil && cl.String() == "(reflect.Value).Call" {
					return true
				}
			}
		}
	}
	return false
}
