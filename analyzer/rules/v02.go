package rules

import (
	"fmt"
	"go/types"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{ID: "V02", Technique: "exceptional-control-flow simulation: user code is replaced by every way it can leave (return, panic with a value, panic(nil), goroutine exit)",
		Note: "Every goroutine that runs user code is explored with that code returning, panicking and exiting its goroutine; deferred calls and recover are modelled. Whether other goroutines race with it is V01's and C03's concern.",
		Run:  v02})
}

// goSites lists the go statements of functions reachable from root whose goroutine calls, directly or in a function of
// the module, a function value for which user holds.
func goSites(c *Ctx, root *ssa.Function, user func(com *ssa.CallCommon) bool) map[*ssa.Go]*ssa.Function {
	out := map[*ssa.Go]*ssa.Function{}
	for _, f := range c.P.Reach(root, nil) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				for _, t := range c.P.Callees(g) {
					if callsUser(c, t, user) {
						out[g] = t
					}
				}
			}
		}
	}
	return out
}

func callsUser(c *Ctx, fn *ssa.Function, user func(com *ssa.CallCommon) bool) bool {
	for _, f := range c.P.Reach(fn, nil) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && user(ci.Common()) {
					return true
				}
			}
		}
	}
	return false
}

// isNodeBody: the call's function value is loaded from a node's body field.
func isNodeBody(c *Ctx) func(com *ssa.CallCommon) bool {
	return func(com *ssa.CallCommon) bool {
		if com.IsInvoke() || com.StaticCallee() != nil {
			return false
		}
		return fieldLoaded(c, com.Value) == "internal.Node.Body"
	}
}

func fieldLoaded(c *Ctx, v ssa.Value) string { return fieldLoadedN(c, v, 4) }

func fieldLoadedN(c *Ctx, v ssa.Value, n int) string {
	if n == 0 {
		return ""
	}
	switch t := v.(type) {
	case *ssa.UnOp:
		if fa, ok := t.X.(*ssa.FieldAddr); ok {
			return c.P.FieldID(fa.X.Type(), fa.Field)
		}
	case *ssa.Field:
		return c.P.FieldID(t.X.Type(), t.Field)
	case *ssa.Phi:
		for _, e := range t.Edges {
			if id := fieldLoadedN(c, e, n-1); id != "" {
				return id
			}
		}
	}
	return ""
}

// userEnds forks a user call over every way it can end.
func userEnds(k *engine.Call, ret *engine.Val) []engine.Outcome {
	var outs []engine.Outcome
	for _, w := range []struct {
		name string
		kind engine.ExitKind
		v    *engine.Val
	}{{"returns", engine.ExitReturn, ret}, {"panics", engine.ExitPanic, engine.Sym("nonnil:panic", types.Universe.Lookup("any").Type())},
		{"panics with nil", engine.ExitPanic, engine.Sym("panic:nil", types.Universe.Lookup("any").Type())}, {"exits its goroutine", engine.ExitGoexit, nil}} {
		s := k.St.Clone()
		s.Auto["user"] = w.name
		s.Auto["ran"] += "1"
		s.Note("%s: the user's code %s", k.X.P.RelPos(k.Pos()), w.name)
		outs = append(outs, engine.Outcome{St: s, Kind: w.kind, Ret: w.v})
	}
	return outs
}

func v02(c *Ctx) {
	c.Rule("node-goroutine", "the goroutine that runs a node's body survives every way the body can end, records a panic unless the body returned, then drains the record and delivers exactly one outcome")
	root := c.Fn("(*internal.Suite).runNode")
	if root != nil {
		sites := goSites(c, root, isNodeBody(c))
		for g, fn := range sites {
			c.Funcs[c.P.CalleeName(fn)] = true
			v02goroutine(c, g, fn, true)
		}
		if len(sites) == 0 {
			// not in a goroutine of its own: a hanging or exiting body would take the runner along
			for _, f := range c.P.Reach(root, nil) {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(*ssa.Call); ok && isNodeBody(c)(ci.Common()) && strings.HasSuffix(c.P.CalleeName(f), "runNode") {
							c.Fail("body on the runner's goroutine", in.Pos(), nil, "a node's body runs on the runner's own goroutine: exiting it would end the run")
						}
					}
				}
			}
			c.Undecided("no goroutine running a node body found")
		}
	}
	c.Floor(4)

	c.Rule("node-body-isolated", "node bodies are only called on a goroutine of their own, a container's body only under a recover")
	v02bodies(c)

	c.Rule("container-panic", "a panic in a container body becomes an error of the build")
	v02container(c)

	c.Rule("progress-reporter", "a panicking progress reporter is recorded and answered for, never fatal")
	if q := c.Fn("(*internal.ProgressReporterManager).QueryProgressReporters"); q != nil {
		for g, fn := range goSites(c, q, func(com *ssa.CallCommon) bool {
			return !com.IsInvoke() && com.StaticCallee() == nil && com.Signature().Params().Len() == 0 && com.Signature().Results().Len() == 1 && !isBuiltin(com.Value)
		}) {
			v02goroutine(c, g, fn, false)
		}
	}
	c.Floor(2)

	c.Rule("ginkgo-recover", "GinkgoRecover records every recovered panic except the one that announces it was recorded already")
	v02recover(c)
}

func isBuiltin(v ssa.Value) bool { _, ok := v.(*ssa.Builtin); return ok }

// v02goroutine explores one goroutine function over every end of the user's code in it.
func v02goroutine(c *Ctx, g *ssa.Go, fn *ssa.Function, node bool) {
	what := "reporter"
	if node {
		what = "node"
	}
	isUser := func(k *engine.Call) bool {
		if k.Fn != nil || k.Recv != nil || k.Com == nil || isBuiltin(k.Com.Value) {
			return false
		}
		if node {
			return isNodeBody(c)(k.Com)
		}
		sig := k.Com.Signature()
		return sig.Params().Len() == 0 && sig.Results().Len() == 1 && engine.TypeStr(sig.Results().At(0).Type()) == "string"
	}
	var x *engine.Interp
	x = engine.New(c.P, engine.Cfg{Root: fn,
		OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			switch {
			case strings.HasSuffix(k.Name, ".Failer).Panic"):
				k.St.Auto["panic"] += "1"
				c.Check(k.St.Auto["drain"] == "" && k.St.Auto["sent"] == "", what+" panic recorded in time", k.Pos(), k.St.Path(8), "the panic is recorded after the outcome was collected")
				return k.Return(engine.Nil(k.T)), true
			case strings.HasSuffix(k.Name, ".Failer).Drain"):
				k.St.Auto["drain"] += "1"
				if node && k.St.Auto["user"] != "returns" {
					c.Check(k.St.Auto["panic"] == "1", what+" recorded when it "+k.St.Auto["user"], k.Pos(), k.St.Path(8), "the body %s but no panic is recorded before the outcome is collected", k.St.Auto["user"])
				}
				return k.Return(k.Fresh()), true
			case strings.HasPrefix(k.Name, "types.NewCodeLocation"), strings.HasSuffix(k.Name, ".generateTimelineLocation"):
				return k.Return(k.Fresh()), true
			case isUser(k):
				if k.St.Auto["ran"] != "" {
					c.Fail(what+" runs twice", k.Pos(), k.St.Path(8), "the user's code is called twice")
				}
				return userEnds(k, k.Fresh()), true
			}
			return nil, false
		},
		OnSend: func(x *engine.Interp, st *engine.State, in ssa.Instruction, ch, v *engine.Val) {
			st.Auto["sent"] = "1"
			st.Auto["sent:"+chanName(ch)] += "1"
			if node {
				c.Check(st.Auto["drain"] == "1", what+" outcome drained first", in.Pos(), st.Path(8), "an outcome is delivered before the record was collected")
			}
		}})
	c.Run(x)
	chans := map[string]bool{}
	for _, e := range x.Exits {
		for a := range e.St.Auto {
			if strings.HasPrefix(a, "sent:") {
				chans[a] = true
			}
		}
	}
	for _, e := range x.Exits {
		u := e.St.Auto["user"]
		if u == "" || e.Kind == engine.ExitStop {
			continue
		}
		c.Check(e.Kind != engine.ExitPanic && e.Kind != engine.ExitOS, what+" contained when it "+u, g.Pos(), e.St.Path(10), "when the user's code %s, the goroutine started here ends with %s: the process dies", u, e.Kind)
		if u == "returns" {
			c.Check(e.St.Auto["panic"] == "", what+" quiet when it returns", g.Pos(), e.St.Path(10), "a panic is recorded although the user's code returned")
		}
		if !node && u != "panics" && u != "returns" {
			continue // nil panics and goroutine exits of a reporter are bounded by the query's deadline
		}
		if !node && u == "panics" {
			c.Check(e.St.Auto["panic"] == "1", "reporter panic recorded", g.Pos(), e.St.Path(10), "the reporter panics but no failure is recorded")
		}
		if node {
			c.Check(e.St.Auto["drain"] == "1", "node outcome collected once", g.Pos(), e.St.Path(10), "the record is collected %d times when the body %s", len(e.St.Auto["drain"]), u)
		}
		for ch := range chans {
			c.Check(e.St.Auto[ch] == "1", fmt.Sprintf("%s delivers once when it %s", what, u), g.Pos(), e.St.Path(10), "when the user's code %s, %d values are sent on %s", u, len(e.St.Auto[ch]), ch[5:])
		}
		if len(chans) == 0 {
			c.Undecided("%s goroutine delivers its result in a way not modelled", what)
		}
	}
}

func chanName(ch *engine.Val) string {
	k := ch.Key()
	return strings.TrimLeft(k, "*")
}

// v02bodies: who calls node bodies at all.
func v02bodies(c *Ctx) {
	run := c.P.Func("(*internal.Suite).runNode")
	isBody := isNodeBody(c)
	var goFns []*ssa.Function
	if run != nil {
		for _, fn := range goSites(c, run, isBody) {
			goFns = append(goFns, c.P.Reach(fn, nil)...)
		}
	}
	in := map[*ssa.Function]bool{}
	for _, f := range goFns {
		in[f] = true
	}
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok || !isBody(ci.Common()) {
					continue
				}
				n := c.P.CalleeName(f)
				outer := f
				for outer.Parent() != nil {
					outer = outer.Parent()
				}
				if in[f] {
					c.Ok("%s calls a body on its own goroutine", n)
					continue
				}
				if recovers(f) || recoveredCallers(c, f, 0) {
					c.Ok("%s calls a body under a recover", n)
					continue
				}
				c.Undecided("%s calls a node body outside the shapes known", n)
			}
		}
	}
	c.Floor(2)
}

// recovers: the function defers a function that calls recover.
func recovers(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok {
				continue
			}
			var t *ssa.Function
			if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok {
				t = mc.Fn.(*ssa.Function)
			} else {
				t = d.Call.StaticCallee()
			}
			if t == nil {
				continue
			}
			for _, bb := range t.Blocks {
				for _, ii := range bb.Instrs {
					if cc, ok := ii.(*ssa.Call); ok {
						if bi, ok := cc.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func recoveredCallers(c *Ctx, f *ssa.Function, d int) bool {
	cs := c.P.Callers(f)
	if len(cs) == 0 || d > 4 {
		return false
	}
	for _, ci := range cs {
		p := ci.Caller
		if !recovers(p) && !recoveredCallers(c, p, d+1) {
			return false
		}
	}
	return true
}

func v02container(c *Ctx) {
	fn := c.Fn("(*internal.Suite).PushNode")
	if fn == nil {
		return
	}
	ph := c.ConstVal("internal", "PhaseBuildTree")
	isBody := isNodeBody(c)
	pre := suitePrefix(fn)
	var x *engine.Interp
	x = engine.New(c.P, engine.Cfg{Root: fn,
		Init: func(st *engine.State) { x.Store(st, pre+".phase", ph) },
		OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			if k.Fn == nil && k.Recv == nil && isBody(k.Com) {
				return userEnds(k, engine.Nil(k.T)), true
			}
			return nil, false
		}})
	c.Run(x)
	for _, e := range x.Exits {
		u := e.St.Auto["user"]
		if u == "" || u == "exits its goroutine" || u == "panics with nil" || e.Kind == engine.ExitStop {
			continue
		}
		c.Check(e.Kind == engine.ExitReturn, "contained when it "+u, e.Pos, e.St.Path(8), "the container's body %s and building the tree ends with %s", u, e.Kind)
		if e.Kind == engine.ExitReturn && u == "panics" {
			isErr, known := errResult(e, e.Ret)
			if !known {
				c.Undecided("PushNode: result %v not known", e.Ret)
				continue
			}
			c.Check(isErr, "error when it panics", e.Pos, e.St.Path(8), "the container's body panics but pushing it returns %v", e.Ret)
		}
	}
	c.Floor(2)
}

func v02recover(c *Ctx) {
	fn := c.Fn("ginkgo.GinkgoRecover")
	if fn == nil {
		return
	}
	any := types.Universe.Lookup("any").Type()
	for _, v := range []*engine.Val{engine.Nil(any), engine.Sym("nonnil:panic", any)} {
		x := engine.New(c.P, engine.Cfg{Root: fn, Recovered: v,
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				if strings.HasSuffix(k.Name, ".Failer).Panic") {
					k.St.Auto["panic"] += "1"
					return k.Return(engine.Nil(k.T)), true
				}
				if strings.HasPrefix(k.Name, "types.NewCodeLocation") {
					return k.Return(k.Fresh()), true
				}
				return nil, false
			}})
		c.Run(x)
		for _, e := range x.Exits {
			for _, l := range e.St.Path(20) {
				if strings.Contains(l, "ignorablePanic = true") {
					e.St.Auto["ignorable"] = "1"
				}
			}
			want := ""
			if !v.IsNil() && e.St.Auto["ignorable"] == "" {
				want = "1"
			}
			kind := "without a panic"
			if !v.IsNil() {
				kind = "with a panic"
				if e.St.Auto["ignorable"] != "" {
					kind = "with the already-recorded panic"
				}
			}
			c.Check(e.Kind == engine.ExitReturn && e.St.Auto["panic"] == want, "GinkgoRecover "+kind, e.Pos, e.St.Path(8), "GinkgoRecover deferred %s: %d panics recorded, leaves by %s", kind, len(e.St.Auto["panic"]), e.Kind)
		}
	}
	c.Floor(3)
}
