package rules

import (
	"fmt"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

// rank of a node kind in an attempt: 1 before, 2 just-before, 3 subject, 4 just-after, 5 after, 6 spec cleanup, 7 container cleanup.
var attemptRank = map[string]int{
	"BeforeAll": 1, "BeforeEach": 1, "JustBeforeEach": 2, "It": 3,
	"JustAfterEach": 4, "AfterEach": 5, "AfterAll": 5, "CleanupAfterEach": 6, "CleanupAfterAll": 7,
}

func segRank(s seg) int {
	r := 0
	for _, k := range strings.Split(s.kinds, "+") {
		kr := attemptRank[k]
		if kr == 0 || (r != 0 && r != kr) {
			return 0
		}
		r = kr
	}
	return r
}

func listRanks(l nlist) (lo, hi int) {
	lo, hi = 99, 0
	for _, s := range l {
		r := segRank(s)
		if r < lo {
			lo = r
		}
		if r > hi {
			hi = r
		}
	}
	return
}

func bits(v int64) int {
	n := 0
	for ; v != 0; v &= v - 1 {
		n++
	}
	return n
}

const (
	locState   = ".currentSpecReport.State"
	locFailure = ".currentSpecReport.Failure"
)

// failStates are the failing outcomes, from the property, not from the code.
var failStates = setOf([]string{"SpecStateFailed", "SpecStateAborted", "SpecStatePanicked", "SpecStateInterrupted", "SpecStateTimedout"})

// reportStates lists every declared single outcome a node or spec can have.
func reportStates(c *Ctx, omit ...string) []engine.EnumMember {
	var out []engine.EnumMember
	om := setOf(append(omit, "SpecStateInvalid"))
	for _, m := range c.P.EnumDomain(c.Type("types", "SpecState")) {
		if bits(m.Val) == 1 && !om[m.Name] {
			out = append(out, m)
		}
	}
	return out
}

// attemptWalk explores attemptSpec with nodes and their outcomes abstract: every node run forks over every outcome.
type attemptWalk struct {
	c      *Ctx
	no     *nodeOps
	fn     *ssa.Function
	states []engine.EnumMember
	run    func(k *engine.Call, l nlist)
	settle func(x *engine.Interp, st *engine.State) // before the next node and at exit: how was the last outcome absorbed
	onMap  func(x *engine.Interp, st *engine.State, in *ssa.MapUpdate, m, k, v *engine.Val)
	exit   func(x *engine.Interp, e *engine.Exit)
	more   func(k *engine.Call) ([]engine.Outcome, bool)
	branch func(x *engine.Interp, st *engine.State, in *ssa.If, cond *engine.Val, taken bool)
	track  func(string) bool
	single bool // nodes need not come from a list
	args   []*engine.Val
	init   func(x *engine.Interp, st *engine.State)
	entry  string // name of the state at entry
	facts  func(string) bool
}

// suitePrefix is the location prefix of the suite as seen from a method of the suite or of a group.
func suitePrefix(fn *ssa.Function) string {
	if len(fn.Params) == 0 {
		return "*suite"
	}
	n := fn.Params[0].Name()
	if strings.HasSuffix(engine.TypeStr(fn.Params[0].Type()), ".group") {
		return "**" + n + ".suite"
	}
	return "*" + n
}

func (a *attemptWalk) stateLoc() string   { return suitePrefix(a.fn) + locState }
func (a *attemptWalk) failureLoc() string { return suitePrefix(a.fn) + locFailure }

// cur is the spec's state as a single name, or "entry" when still the one at entry.
func (a *attemptWalk) cur(x *engine.Interp, st *engine.State) string {
	v := x.Load(st, a.stateLoc(), a.c.Type("types", "SpecState"))
	if _, ok := v.Int(); !ok {
		return "entry"
	}
	ns := x.DomNames(st, v)
	if len(ns) == 1 {
		return ns[0]
	}
	return strings.Join(ns, "|")
}

func (a *attemptWalk) curFailure(x *engine.Interp, st *engine.State) string {
	return x.Load(st, a.failureLoc(), a.c.Type("types", "Failure")).Key()
}

func attempt(c *Ctx, a *attemptWalk) *engine.Interp {
	return nodeWalk(c, "(*internal.group).attemptSpec", a)
}

func nodeWalk(c *Ctx, root string, a *attemptWalk) *engine.Interp {
	fn := c.Fn(root)
	if fn == nil {
		return nil
	}
	a.c, a.fn, a.no = c, fn, &nodeOps{c: c}
	if a.states == nil {
		a.states = reportStates(c, "SpecStatePending")
	}
	stT, faT := c.Type("types", "SpecState"), c.Type("types", "Failure")
	stateVal := map[string]string{}
	for _, m := range a.states {
		stateVal[m.Name] = fmt.Sprint(m.Val)
	}
	var x *engine.Interp
	cfg := engine.Cfg{Root: fn, Args: a.args}
	cfg.Init = func(st *engine.State) {
		if a.entry != "" {
			x.Store(st, a.stateLoc(), c.ConstVal("types", a.entry))
			x.Store(st, a.failureLoc(), engine.Sym("failure-of-"+a.entry, faT))
		}
		if a.init != nil {
			a.init(x, st)
		}
	}
	cfg.Track = func(l string) bool {
		if a.track != nil && a.track(l) {
			return true
		}
		return strings.HasSuffix(l, ".suite") || strings.HasSuffix(l, locState) || strings.HasSuffix(l, locFailure)
	}
	cfg.TrackFact = func(v *engine.Val) bool {
		return strings.Contains(v.Key(), locState) || (a.facts != nil && a.facts(v.Key()))
	}
	cfg.OnCall = func(k *engine.Call) ([]engine.Outcome, bool) {
		if a.more != nil {
			if o, ok := a.more(k); ok {
				return o, ok
			}
		}
		if strings.HasPrefix(k.Name, "(internal.Nodes).WithType") && strings.Contains(k.Args[0].Key(), "cleanupNodes") {
			k.St.Auto["cl"] = "fresh"
			k.St.Auto["dr"] = ""
		}
		if o, ok := a.no.call(k); ok {
			return o, ok
		}
		switch k.Name {
		case "(internal.Node).IsZero":
			if strings.Contains(k.Args[0].Key(), "NL{") {
				return k.Return(engine.BoolVal(false)), true
			}
			if k.Args[0].IsNil() {
				return k.Return(engine.BoolVal(true)), true
			}
		case "(internal.runOncePairs).runOncePairFor":
			return k.Return(k.Fresh()), true
		case "(*internal.Suite).runNode":
			l, ok := listsIn(k.Args[1].Key())
			if !ok && !a.single {
				c.Undecided("cannot tell which nodes are run at %s: %s", c.P.RelPos(k.Pos()), k.Args[1].Key())
			}
			if k.St.Auto["last"] != "" && a.settle != nil {
				a.settle(k.X, k.St)
			}
			lo, hi := listRanks(l)
			ph := "setup"
			if lo >= 4 {
				ph = "teardown"
			} else if hi >= 4 {
				ph = "mixed"
			}
			if len(l) == 0 || lo == 0 {
				ph = "other"
			}
			if ph == "teardown" && k.St.Auto["ph"] == "" {
				// the subject always runs unless an earlier node ended the setup phase (rule subject-runs of L05)
				k.St.Stop()
				return []engine.Outcome{{St: k.St}}, true
			}
			if a.run != nil {
				a.run(k, l)
			}
			k.St.Auto["ph"] = ph
			k.St.Auto["cl"] = "stale"
			k.St.Auto["dr"] = ""
			k.St.Auto["prev"] = a.cur(k.X, k.St)
			k.St.Auto["prevf"] = a.curFailure(k.X, k.St)
			k.St.Auto["addl"] = ""
			var outs []engine.Outcome
			for _, m := range a.states {
				st := k.St.Clone()
				st.Note("%s: a %s node ends %s", c.P.RelPos(k.Pos()), ph, m.Name)
				st.Auto["last"] = m.Name
				outs = append(outs, engine.Outcome{St: st, Ret: engine.Tuple(engine.IntVal(m.Val, stT), engine.Sym("failure-of-"+m.Name, faT))})
			}
			return outs, true
		}
		return nil, false
	}
	cfg.OnStore = func(x *engine.Interp, st *engine.State, in ssa.Instruction, loc string, old, v *engine.Val) {
		if strings.HasSuffix(loc, ".currentSpecReport.AdditionalFailures") {
			last := st.Auto["last"]
			k := v.Key()
			if strings.Contains(k, "AdditionalFailures") && strings.Contains(k, "failure-of-"+last) && strings.Contains(k, "State="+stateVal[last]) {
				st.Auto["addl"] = last
			}
		}
	}
	cfg.OnBranch = func(x *engine.Interp, st *engine.State, in *ssa.If, cond *engine.Val, taken bool) {
		if a.branch != nil {
			a.branch(x, st, in, cond, taken)
		}
		key := cond.Key()
		if st.Auto["cl"] == "fresh" && strings.Contains(key, "len(NL{") {
			empty := false
			switch {
			case strings.HasPrefix(key, "==(") || strings.HasPrefix(key, "<=("):
				empty = taken
			case strings.HasPrefix(key, "<(") || strings.HasPrefix(key, "!(") || strings.HasPrefix(key, "!=("):
				empty = !taken
			}
			if empty {
				if l, ok := listsIn(key); ok {
					st.Auto["dr"] = l.String()
				}
			}
		}
	}
	if a.onMap != nil {
		cfg.OnMap = a.onMap
	}
	x = engine.New(c.P, cfg)
	c.Run(x)
	for _, e := range x.Exits {
		if e.Kind == engine.ExitStop {
			continue
		}
		if a.settle != nil && e.St.Auto["last"] != "" {
			a.settle(x, e.St)
		}
		if a.exit != nil {
			a.exit(x, e)
		}
	}
	return x
}
