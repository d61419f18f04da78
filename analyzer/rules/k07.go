package rules

import (
	"fmt"
	"go/types"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{
		ID:        "K07",
		Technique: "abstract interpretation of the entry points over every phase, node kind, ancestry and list of suite nodes (bounded), with the memory left behind compared to the memory found",
		Note:      "A container body that ends its goroutine (runtime.Goexit) is outside the rule: nothing is built after it.",
		Run:       k07,
	})
}

func k07(c *Ctx) {
	k07push(c)
	k07body(c)
	k07runOnly(c)
	k07rerun(c)
	k07surface(c)
	k07nonNil(c)
}

// setup describes the suite a call finds.
type k07suite struct {
	phase   string // Top, Tree, Run
	existin []string
	chain   string // none, plain, ordered, ordered+serial: the containers around; with "+" at the end there is a sibling already
	current string // the node that runs
}

var k07phases = map[string]string{"Top": "PhaseBuildTopLevel", "Tree": "PhaseBuildTree", "Run": "PhaseRun"}

func (s k07suite) String() string {
	return fmt.Sprintf("phase %s, suite nodes %v, inside %s, running %s", s.phase, s.existin, s.chain, orNone(s.current))
}

// put writes the suite at *suite.
func (s k07suite) put(c *Ctx, x *engine.Interp, st *engine.State) {
	suiteT := c.Type("internal", "Suite")
	treeP := fieldOfType(suiteT, "tree")
	nodeT := c.Type("internal", "Node")
	x.Store(st, "*suite.phase", c.ConstVal("internal", k07phases[s.phase]))
	for i, k := range s.existin {
		x.Store(st, fmt.Sprintf("*sn[%d]", i), engine.Agg(engine.Nil(nodeT), map[string]*engine.Val{"ID": engine.IntVal(int64(10+i), types.Typ[types.Uint]), "NodeType": c.ConstVal("types", "NodeType"+k)}, nodeT))
	}
	x.Store(st, "*suite.suiteNodes", engine.SliceAt("*sn", len(s.existin), fieldOfType(suiteT, "suiteNodes")))
	x.Store(st, "*suite.topLevelContainers", engine.SliceAt("*tl", 0, fieldOfType(suiteT, "topLevelContainers")))
	x.Store(st, "*suite.cleanupNodes", engine.SliceAt("*cl", 0, fieldOfType(suiteT, "cleanupNodes")))
	tnT := treeP.(*types.Pointer).Elem()
	kidsT := fieldOfType(tnT, "Children")
	x.Store(st, "*root.Node", engine.Nil(nodeT))
	x.Store(st, "*root.Parent", engine.Nil(treeP))
	x.Store(st, "*root.Children", engine.SliceAt("*rootkids", 0, kidsT))
	at := "*root"
	if s.chain != "none" {
		at = "*tree"
		x.Store(st, "*tree.Parent", engine.PtrTo("*root", treeP))
		x.Store(st, "*tree.Children", engine.SliceAt("*kids", 0, kidsT))
		x.Store(st, "*tree.Node", engine.Agg(engine.Nil(nodeT), map[string]*engine.Val{
			"ID": engine.IntVal(5, types.Typ[types.Uint]), "NodeType": c.ConstVal("types", "NodeTypeContainer"),
			"MarkedOrdered": engine.BoolVal(strings.HasPrefix(s.chain, "ordered")), "MarkedSerial": engine.BoolVal(strings.Contains(s.chain, "+serial")),
		}, nodeT))
		if strings.HasSuffix(s.chain, "+") {
			x.Store(st, "*sib.Node", engine.Agg(engine.Nil(nodeT), map[string]*engine.Val{"ID": engine.IntVal(6, types.Typ[types.Uint]), "NodeType": c.ConstVal("types", "NodeTypeIt")}, nodeT))
			x.Store(st, "*sib.Parent", engine.PtrTo("*tree", treeP))
			x.Store(st, "*sib.Children", engine.SliceAt("*sibkids", 0, kidsT))
			x.Store(st, "*kids[0]", engine.PtrTo("*sib", treeP))
			x.Store(st, "*tree.Children", engine.SliceAt("*kids", 1, kidsT))
		}
	}
	x.Store(st, "*suite.tree", engine.PtrTo(at, treeP))
	cur := engine.Nil(nodeT)
	if s.current != "" {
		cur = engine.Agg(engine.Nil(nodeT), map[string]*engine.Val{"ID": engine.IntVal(7, types.Typ[types.Uint]), "NodeType": c.ConstVal("types", "NodeType"+s.current), "NestingLevel": engine.IntVal(3, types.Typ[types.Int])}, nodeT)
	}
	x.Store(st, "*suite.currentNode", cur)
}

// k07node is the node that is pushed.
func k07node(c *Ctx, kind string, flags ...string) *engine.Val {
	nodeT := c.Type("internal", "Node")
	f := map[string]*engine.Val{
		"ID": engine.IntVal(100, types.Typ[types.Uint]), "NodeType": c.ConstVal("types", "NodeType"+kind), "Body": engine.Sym("nonnil:body~", fieldOfType(nodeT, "Body")),
	}
	for _, n := range flags {
		f[n] = engine.BoolVal(true)
	}
	return engine.Agg(engine.Nil(nodeT), f, nodeT)
}

// left describes what the call left: the IDs in the suite's lists and below the current tree node.
func (s k07suite) left(c *Ctx, x *engine.Interp, st *engine.State) (map[string]string, bool) {
	suiteT := c.Type("internal", "Suite")
	treeP := fieldOfType(suiteT, "tree")
	tnT := treeP.(*types.Pointer).Elem()
	kidsT := fieldOfType(tnT, "Children")
	out := map[string]string{}
	ok := true
	id := func(v *engine.Val) string {
		w := x.FieldOf(st, v, "ID")
		if w == nil {
			ok = false
			return "?"
		}
		if w.IsNil() {
			return "0"
		}
		n, is := w.Int()
		ok = ok && is
		return fmt.Sprint(n)
	}
	list := func(name string, v *engine.Val, tree bool) {
		if v.IsNil() {
			out[name] = ""
			return
		}
		es, is := x.Elems(st, v)
		if !is {
			ok = false
			return
		}
		var l []string
		for _, e := range es {
			if tree {
				loc, _ := x.Deref(e)
				n := x.Load(st, loc+".Node", c.Type("internal", "Node"))
				l = append(l, id(n))
			} else {
				l = append(l, id(e))
			}
		}
		out[name] = strings.Join(l, " ")
	}
	for _, n := range []string{"suiteNodes", "topLevelContainers", "cleanupNodes"} {
		list(n, x.Load(st, "*suite."+n, fieldOfType(suiteT, n)), false)
	}
	list("root children", x.Load(st, "*root.Children", kidsT), true)
	if s.chain != "none" {
		list("tree children", x.Load(st, "*tree.Children", kidsT), true)
	}
	out["tree"] = x.Load(st, "*suite.tree", treeP).Key()
	out["phase"] = x.Load(st, "*suite.phase", fieldOfType(suiteT, "phase")).Key()
	return out, ok
}

func ginkgoErr(v *engine.Val) string {
	if v == nil {
		return "?"
	}
	if v.IsNil() {
		return ""
	}
	k := v.Unbox().Key()
	if i := strings.Index(k, "nonnil:err:"); i >= 0 {
		return strings.TrimRight(k[i+len("nonnil:err:"):], ")]} ")
	}
	return "?"
}

var k07cleanups = []string{"CleanupInvalid", "CleanupAfterEach", "CleanupAfterAll", "CleanupAfterSuite"}
var k07suiteKinds = []string{"BeforeSuite", "SynchronizedBeforeSuite", "AfterSuite", "SynchronizedAfterSuite", "ReportBeforeSuite", "ReportAfterSuite"}

func in(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// expected says what pushing a node has to do: the error, or where the node goes.
func (s k07suite) expected(kind string, flags []string) (err, list string) {
	switch {
	case in(kind, k07cleanups):
		switch {
		case s.phase != "Run" || s.current == "":
			return "PushingCleanupNodeDuringTreeConstruction", ""
		case in(s.current, []string{"ReportBeforeEach", "ReportAfterEach", "ReportBeforeSuite", "ReportAfterSuite"}):
			return "PushingCleanupInReportingNode", ""
		case in(s.current, k07cleanups):
			return "PushingCleanupInCleanupNode", ""
		}
		return "", "cleanupNodes"
	case in(kind, k07suiteKinds):
		switch s.phase {
		case "Tree":
			return "SuiteNodeInNestedContext", ""
		case "Run":
			return "SuiteNodeDuringRunPhase", ""
		}
		for _, e := range s.existin {
			for _, p := range []string{"Before", "After"} {
				pair := []string{p + "Suite", "Synchronized" + p + "Suite"}
				if in(kind, pair) && in(e, pair) {
					return "Multiple" + p + "SuiteNodes", ""
				}
			}
		}
		return "", "suiteNodes"
	}
	if s.phase == "Run" {
		return "PushingNodeInRunPhase", ""
	}
	ordered := strings.HasPrefix(s.chain, "ordered")
	if in("MarkedSerial", flags) && ordered && !strings.Contains(s.chain, "+serial") {
		return "InvalidSerialNodeInNonSerialOrderedContainer", ""
	}
	if (kind == "BeforeAll" || kind == "AfterAll") && !ordered {
		return "SetupNodeNotInOrderedContainer", ""
	}
	if in("MarkedContinueOnFailure", flags) && ordered {
		return "InvalidContinueOnFailureDecoration", ""
	}
	if kind == "Container" && s.phase == "Top" {
		return "", "topLevelContainers"
	}
	if s.chain == "none" {
		return "", "root children"
	}
	return "", "tree children"
}

func k07kinds(c *Ctx) []string {
	t, _ := c.Type("types", "NodeType").(*types.Named)
	if t == nil {
		return nil
	}
	var out []string
	for _, m := range c.P.EnumDomain(t) {
		if n := strings.TrimPrefix(m.Name, "NodeType"); m.Val&(m.Val-1) == 0 && n != "Invalid" && n != m.Name {
			out = append(out, n)
		}
	}
	return out
}

func k07push(c *Ctx) {
	c.Rule("push", "in every phase, a node of every kind is put in exactly the place its kind and the phase call for, or is rejected with the dedicated error and changes nothing")
	fn := c.Fn("(*internal.Suite).PushNode")
	kinds := k07kinds(c)
	if fn == nil || len(fn.Params) != 2 || len(kinds) < 15 {
		c.Undecided("the way nodes are pushed is not understood (%d kinds)", len(kinds))
		return
	}
	var setups []k07suite
	exist := [][]string{{}}
	for _, k := range k07suiteKinds {
		exist = append(exist, []string{k})
	}
	exist = append(exist, []string{"ReportBeforeSuite", "AfterSuite"}, []string{"BeforeSuite", "SynchronizedAfterSuite"})
	for _, ex := range exist {
		for ph := range k07phases {
			setups = append(setups, k07suite{ph, ex, "none", ""})
		}
	}
	for _, ch := range []string{"plain", "ordered", "ordered+serial", "plain+", "ordered+", "ordered+serial+"} {
		setups = append(setups, k07suite{"Tree", nil, ch, ""})
	}
	for _, cur := range kinds {
		if cur != "Container" {
			setups = append(setups, k07suite{"Run", nil, "none", cur})
		}
	}
	for _, s := range setups {
		for _, kind := range kinds {
			flagSets := [][]string{nil}
			if !in(kind, k07cleanups) && !in(kind, k07suiteKinds) && len(s.existin) == 0 && s.current == "" {
				flagSets = append(flagSets, []string{"MarkedSerial"}, []string{"MarkedOrdered"}, []string{"MarkedOrdered", "MarkedContinueOnFailure"})
			}
			for _, fl := range flagSets {
				k07pushRun(c, fn, s, kind, fl)
			}
		}
	}
}

func k07pushRun(c *Ctx, fn *ssa.Function, s k07suite, kind string, flags []string) {
	what := fmt.Sprintf("%s%s, %s", kind, strings.Join(flags, "+"), s)
	var x *engine.Interp
	calls := 0
	x = engine.New(c.P, engine.Cfg{Root: fn, Args: []*engine.Val{engine.PtrTo("*suite", fn.Params[0].Type()), k07node(c, kind, flags...)}, Linear: true, Budget: 20000, Lists: 8, MaxDepth: 12, OnBranch: onKnownBranch,
		Init: func(st *engine.State) { s.put(c, x, st) },
		OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			if k.FnVal != nil && strings.Contains(k.FnVal.Key(), "body~") {
				calls++
				return k.Return(engine.Tuple()), true
			}
			return nil, false
		}})
	before := map[string]string{}
	known := true
	init := x.Cfg.Init
	x.Cfg.Init = func(st *engine.State) {
		init(st)
		before, known = s.left(c, x, st)
	}
	c.Run(x)
	if len(x.Undec) > 0 || !known {
		c.Undecided("pushing %s is not understood: %v", what, x.Undec)
		return
	}
	wantErr, wantList := s.expected(kind, flags)
	n := 0
	for _, e := range x.Exits {
		construct := fmt.Sprintf("pushing %s in phase %s", kind, s.phase)
		if e.Kind != engine.ExitReturn {
			c.Fail(construct, e.Pos, e.St.Path(8), "ends by %s (%s)", e.Kind, what)
			continue
		}
		n++
		got := ginkgoErr(e.Ret)
		if got == "?" {
			c.Undecided("the result of pushing %s is not understood: %v", what, e.Ret)
			continue
		}
		c.Check(got == wantErr, construct, e.Pos, e.St.Path(8), "returns the error %s, expected %s (%s)", orNone(got), orNone(wantErr), what)
		after, ok := s.left(c, x, e.St)
		if !ok {
			c.Undecided("what pushing %s leaves is not understood", what)
			continue
		}
		for _, f := range sortedKeys(before) {
			want := before[f]
			if f == wantList {
				want = strings.TrimSpace(want + " 100")
			}
			c.Check(after[f] == want, construct+" leaves "+f, e.Pos, e.St.Path(8), "leaves [%s] where there was [%s], expected [%s] (%s)", after[f], before[f], want, what)
		}
	}
	if n == 0 {
		c.Undecided("pushing %s never returns", what)
	}
}

func k07body(c *Ctx) {
	c.Rule("container-body", "a container's body runs exactly once, below its own tree node, and the position in the tree is what it was afterwards, also when the body panics, which is an error")
	fn := c.Fn("(*internal.Suite).PushNode")
	if fn == nil || len(fn.Params) != 2 {
		c.Undecided("the way nodes are pushed is not understood")
		return
	}
	treeP := fieldOfType(c.Type("internal", "Suite"), "tree")
	if treeP == nil {
		c.Undecided("no tree")
		return
	}
	for _, ph := range []string{"Top", "Tree"} {
		for _, ch := range []string{"none", "plain", "ordered"} {
			if ph == "Top" && ch != "none" {
				continue
			}
			s := k07suite{ph, nil, ch, ""}
			var x *engine.Interp
			x = engine.New(c.P, engine.Cfg{Root: fn, Args: []*engine.Val{engine.PtrTo("*suite", fn.Params[0].Type()), k07node(c, "Container")}, Linear: true, Budget: 20000, Lists: 8, MaxDepth: 12, OnBranch: onKnownBranch,
				Init: func(st *engine.State) { s.put(c, x, st) },
				OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
					if k.FnVal == nil || !strings.Contains(k.FnVal.Key(), "body~") {
						return nil, false
					}
					k.St.Auto["bodies"] += "x"
					k.St.Vals["inside"] = k.X.Load(k.St, "*suite.tree", treeP)
					p := k.St.Clone()
					p.Auto["panicked"] = "yes"
					return append(k.Return(engine.Tuple()), engine.Outcome{St: p, Kind: engine.ExitPanic, Ret: engine.Sym("nonnil:thrown~", types.NewInterfaceType(nil, nil))}), true
				}})
			c.Run(x)
			if len(x.Undec) > 0 {
				c.Undecided("pushing a container is not understood: %v", x.Undec)
				continue
			}
			at := "*root"
			if ch != "none" {
				at = "*tree"
			}
			for _, e := range x.Exits {
				construct := "container body in phase " + ph
				if e.Kind != engine.ExitReturn {
					c.Fail(construct, e.Pos, e.St.Path(12), "pushing a container ends by %s", e.Kind)
					continue
				}
				n := len(e.St.Auto["bodies"])
				if ph == "Top" {
					c.Check(n == 0, construct, e.Pos, e.St.Path(12), "the body of a top-level container runs %d times before the tree is built", n)
					continue
				}
				c.Check(n == 1, construct, e.Pos, e.St.Path(12), "the body of a container runs %d times", n)
				if n != 1 {
					continue
				}
				in := e.St.Vals["inside"]
				loc, _ := x.Deref(in)
				id, _ := x.FieldOf(e.St, x.Load(e.St, loc+".Node", c.Type("internal", "Node")), "ID").Int()
				par := x.Load(e.St, loc+".Parent", treeP)
				want := engine.PtrTo(at, treeP).Key()
				c.Check(id == 100, construct+" position", e.Pos, e.St.Path(12), "the body runs with the tree at the node with ID %d, not at its own", id)
				c.Check(par.Key() == want, construct+" parent", e.Pos, e.St.Path(12), "the body's node hangs below %s, not below where the container is declared (%s)", par.Key(), want)
				after := x.Load(e.St, "*suite.tree", treeP)
				c.Check(after.Key() == want, construct+" restored", e.Pos, e.St.Path(12), "afterwards (body panicked: %s) the tree is at %s, it was at %s", orNone(e.St.Auto["panicked"]), after.Key(), want)
				err := ginkgoErr(e.Ret)
				if e.St.Auto["panicked"] != "" {
					c.Check(err == "CaughtPanicDuringABuildPhase", construct+" panics", e.Pos, e.St.Path(12), "the body panicked and the error is %s", orNone(err))
				} else {
					c.Check(err == "", construct+" returns", e.Pos, e.St.Path(12), "the body returned and the error is %s", err)
				}
			}
		}
	}
}

// k07runOnly: what only makes sense while specs run is rejected in the other phases, and the run itself needs a built tree.
func k07runOnly(c *Ctx) {
	c.Rule("run-phase", "calls that only make sense while specs run are rejected with the dedicated error and without effect while the tree is built; the tree is copied only before it is built, and run only after")
	try := func(name string, phases []string, effects func(k *engine.Call) bool, judge func(x *engine.Interp, e *engine.Exit, phase string, changed []string)) {
		fn := c.Fn(name)
		if fn == nil || len(fn.Params) == 0 {
			c.Undecided("no %s", name)
			return
		}
		for _, ph := range phases {
			s := k07suite{ph, nil, "none", ""}
			var x *engine.Interp
			var before map[string]string
			x = engine.New(c.P, engine.Cfg{Root: fn, Args: []*engine.Val{engine.PtrTo("*suite", fn.Params[0].Type())}, Linear: true, Budget: 20000, Lists: 8, MaxDepth: 12, OnBranch: onKnownBranch,
				Init: func(st *engine.State) { s.put(c, x, st); before, _ = s.left(c, x, st) },
				OnStore: func(x *engine.Interp, st *engine.State, in ssa.Instruction, loc string, old, v *engine.Val) {
					if strings.HasPrefix(loc, "*suite.") && (old == nil || old.Key() != v.Key()) {
						st.Auto["changed"] += " " + strings.TrimPrefix(loc, "*suite.")
					}
				},
				OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
					if effects(k) {
						k.St.Auto["changed"] += " calls " + k.Name
						return k.Return(k.Fresh()), true
					}
					if strings.Contains(k.Name, "CodeLocation") {
						return k.Return(k.Fresh()), true
					}
					return nil, false
				}})
			c.Run(x)
			if len(x.Undec) > 0 {
				c.Undecided("%s in phase %s is not understood: %v", name, ph, x.Undec)
				continue
			}
			for _, e := range x.Exits {
				ch := strings.Fields(e.St.Auto["changed"])
				if after, ok := s.left(c, x, e.St); ok {
					for _, f := range sortedKeys(before) {
						if before[f] != after[f] {
							ch = append(ch, f)
						}
					}
				}
				judge(x, e, ph, ch)
			}
		}
	}
	building := []string{"Top", "Tree"}
	anything := func(k *engine.Call) bool {
		return k.Com != nil && k.Com.IsInvoke() || k.Fn == nil && k.FnVal != nil && !strings.HasPrefix(k.Name, "builtin")
	}
	for name, err := range map[string]string{"(*internal.Suite).By": "ByNotDuringRunPhase", "(*internal.Suite).AddReportEntry": "AddReportEntryNotDuringRunPhase"} {
		try(name, building, anything, func(x *engine.Interp, e *engine.Exit, ph string, changed []string) {
			got := "ends by " + fmt.Sprint(e.Kind)
			if e.Kind == engine.ExitReturn {
				got = ginkgoErr(e.Ret)
			}
			c.Check(got == err, name+" while building", e.Pos, e.St.Path(8), "in phase %s: %s, expected the error %s", ph, orNone(got), err)
			c.Check(len(changed) == 0, name+" while building has no effect", e.Pos, e.St.Path(8), "in phase %s it changes %v", ph, changed)
		})
	}
	try("(*internal.Suite).Clone", []string{"Tree", "Run"}, anything, func(x *engine.Interp, e *engine.Exit, ph string, changed []string) {
		ok := e.Kind != engine.ExitReturn
		if !ok && e.Ret != nil && len(e.Ret.Args) == 2 {
			ok = !e.Ret.Args[1].IsNil()
		}
		c.Check(ok, "copying a built tree", e.Pos, e.St.Path(8), "in phase %s the suite is copied without an error", ph)
	})
	runs := c.P.Func("(*internal.Suite).runSpecs")
	if runs == nil {
		c.Undecided("no runSpecs")
	} else {
		try("(*internal.Suite).Run", []string{"Top", "Run"}, func(k *engine.Call) bool { return k.Fn == runs || anything(k) }, func(x *engine.Interp, e *engine.Exit, ph string, changed []string) {
			c.Check(e.Kind == engine.ExitPanic && len(changed) == 0, "running without a built tree", e.Pos, e.St.Path(8), "in phase %s the run ends by %s after %v", ph, e.Kind, changed)
		})
	}
}

// k07rerun: a second run is rejected before anything happens, and a run is on record before it starts.
func k07rerun(c *Ctx) {
	c.Rule("rerun", "a second call of RunSpecs ends the process with an error before doing anything, and the first is on record before the tree is built or run")
	fn := c.Fn("ginkgo.RunSpecs")
	if fn == nil {
		c.Undecided("no RunSpecs")
		return
	}
	// the flag: a boolean package variable that is read before anything is called
	var flag *ssa.Global
	for _, in := range fn.Blocks[0].Instrs {
		if u, ok := in.(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok && basicKind(g.Type().(*types.Pointer).Elem()) == types.Bool {
				flag = g
			}
		}
	}
	if flag == nil {
		c.Undecided("how RunSpecs recognises a second call is not understood")
		return
	}
	work := map[string]bool{"(*internal.Suite).BuildTree": true, "(*internal.Suite).Run": true, "internal/global.PushClone": true, "ginkgo.extractSuiteConfiguration": true}
	for _, ran := range []bool{true, false} {
		var x *engine.Interp
		var loc string
		x = engine.New(c.P, engine.Cfg{Root: fn, Budget: 60000, MaxDepth: 6, OnBranch: onKnownBranch,
			Init: func(st *engine.State) {
				loc = x.GlobalLoc(flag)
				x.Store(st, loc, engine.BoolVal(ran))
			},
			Track: func(l string) bool { return l == loc },
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				n := k.Name
				if strings.HasSuffix(n, "exitIfErr") || strings.HasSuffix(n, "exitIfErrors") {
					return nil, false
				}
				if work[n] || strings.HasSuffix(n, "global.PushClone") {
					v := k.X.Load(k.St, loc, types.Typ[types.Bool])
					b := v.Key()
					k.St.Auto["work"] += fmt.Sprintf(" %s(ran=%s)", n, b)
					if ran {
						return []engine.Outcome{{St: k.St, Kind: engine.ExitStop}}, true
					}
					return k.Return(k.Fresh()), true
				}
				if k.Fn != nil && k.Fn.Pkg == fn.Pkg || strings.HasPrefix(n, "(types.ginkgoErrors).") {
					return nil, false
				}
				if strings.HasPrefix(n, "os.Exit") {
					return nil, false
				}
				return k.Return(k.Fresh()), true
			}})
		c.Run(x)
		if len(x.Undec) > 0 {
			c.Undecided("RunSpecs is not understood: %v", x.Undec)
			continue
		}
		for _, e := range x.Exits {
			if ran {
				ok := e.Kind == engine.ExitOS && e.Ret != nil && e.Ret.Key() != "0" && e.St.Auto["work"] == "" || e.Kind == engine.ExitPanic && e.St.Auto["work"] == ""
				c.Check(ok, "second run", e.Pos, e.St.Path(8), "a second run ends by %s after%s", e.Kind, orNone(e.St.Auto["work"]))
			} else {
				for _, w := range strings.Fields(e.St.Auto["work"]) {
					if strings.Contains(w, "Suite)") {
						c.Check(strings.HasSuffix(w, "(ran=true)"), "first run on record", e.Pos, e.St.Path(8), "%s: the run is not on record yet", w)
					}
				}
			}
		}
	}
}

// k07surface: an error of the suite's entry points ends the process with a failing exit code.
func k07surface(c *Ctx) {
	c.Rule("errors-end-the-process", "every call of a suite entry point that returns an error has that error end the process with a failing exit code, or hands it to its own caller")
	entry := map[*ssa.Function]bool{}
	for _, n := range []string{"PushNode", "By", "AddReportEntry", "BuildTree", "Clone"} {
		if f := c.P.Func("(*internal.Suite)." + n); f != nil {
			entry[f] = true
		} else {
			c.Undecided("no %s", n)
		}
	}
	if f := c.P.Func("internal/global.PushClone"); f != nil {
		entry[f] = true
	}
	var funcs []*ssa.Function
	for f := range entry {
		funcs = append(funcs, f)
	}
	for len(funcs) > 0 {
		f := funcs[0]
		funcs = funcs[1:]
		for _, site := range c.P.Callers(f) {
			caller := site.Caller
			if caller == nil || !inModule(c, caller) || caller.Synthetic != "" {
				continue
			}
			name := c.P.CalleeName(caller)
			sig := caller.Signature.Results()
			ownErr := sig.Len() > 0 && types.Identical(sig.At(sig.Len()-1).Type(), c.P.ErrorType())
			var x *engine.Interp
			x = engine.New(c.P, engine.Cfg{Root: caller, Budget: 60000, MaxDepth: 5, OnBranch: onKnownBranch,
				OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
					if k.Fn == f && k.Instr == site.Instr {
						res := f.Signature.Results()
						s2 := k.St.Clone()
						s2.Auto["failed"] = "yes"
						mk := func(err *engine.Val) *engine.Val {
							if res.Len() == 1 {
								return err
							}
							return engine.Tuple(k.Fresh(), err)
						}
						return append(k.Return(mk(engine.Nil(c.P.ErrorType()))), engine.Outcome{St: s2, Ret: mk(engine.Sym("nonnil:err:pushed~", c.P.ErrorType()))}), true
					}
					if k.Fn != nil && k.Fn.Pkg == caller.Pkg && len(k.Fn.Blocks) > 0 && (k.Fn.Signature.Recv() == nil) {
						for _, a := range k.Args {
							if a != nil && (a.Mentions("pushed~") || a.Mentions("nonnil:err:")) {
								return nil, false
							}
						}
					}
					if k.Name == "os.Exit" {
						return nil, false
					}
					if strings.HasPrefix(k.Name, "builtin") {
						return nil, false
					}
					return k.Return(k.Fresh()), true
				}})
			c.Run(x)
			if len(x.Undec) > 0 {
				c.Undecided("%s is not understood: %v", name, x.Undec)
				continue
			}
			for _, e := range x.Exits {
				if e.St.Auto["failed"] == "" {
					continue
				}
				ok := false
				switch e.Kind {
				case engine.ExitOS:
					ok = e.Ret != nil && e.Ret.Key() != "0"
				case engine.ExitPanic:
					ok = true
				case engine.ExitReturn:
					ok = ownErr && e.Ret != nil && e.Ret.Mentions("pushed~")
				}
				c.Check(ok, name+" on an error of "+c.P.CalleeName(f), e.Pos, e.St.Path(10), "the error is lost: %s ends by %s", name, e.Kind)
			}
			if ownErr && !entry[caller] {
				entry[caller] = true
				funcs = append(funcs, caller)
			}
		}
	}
	c.Floor(8)
}

func k07nonNil(c *Ctx) {
	c.Rule("dedicated-errors", "every constructor of a dedicated error returns an error, never nil")
	for _, f := range c.P.Funcs {
		if !strings.HasPrefix(c.P.CalleeName(f), "(types.ginkgoErrors).") || f.Signature.Results().Len() != 1 || !types.Identical(f.Signature.Results().At(0).Type(), c.P.ErrorType()) {
			continue
		}
		x := engine.New(c.P, engine.Cfg{Root: f, Budget: 20000, MaxDepth: 4, OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			if strings.HasPrefix(k.Name, "(types.ginkgoErrors).") || k.Name == "fmt.Errorf" || k.Name == "errors.New" {
				return k.Return(engine.Sym("nonnil:err:inner", k.T)), true
			}
			if strings.HasPrefix(k.Name, "builtin") || k.Fn != nil && k.Fn.Pkg == f.Pkg && k.Fn.Signature.Results().Len() == 1 && types.Identical(k.Fn.Signature.Results().At(0).Type(), c.P.ErrorType()) {
				return nil, false
			}
			return k.Return(k.Fresh()), true
		}})
		c.Run(x)
		if len(x.Undec) > 0 {
			c.Undecided("%s is not understood: %v", c.P.CalleeName(f), x.Undec)
			continue
		}
		for _, e := range x.Exits {
			if e.Kind != engine.ExitReturn {
				c.Fail(c.P.CalleeName(f), e.Pos, e.St.Path(8), "the constructor ends by %s", e.Kind)
				continue
			}
			nn, known := nonNil(e.Ret)
			if e.Ret != nil && e.Ret.K == engine.VIface {
				nn, known = true, true
			}
			if !known {
				c.Undecided("the result of %s is not understood: %v", c.P.CalleeName(f), e.Ret)
				continue
			}
			c.Check(nn, c.P.CalleeName(f), e.Pos, e.St.Path(8), "the constructor returns no error")
		}
	}
	c.Floor(40)
}
