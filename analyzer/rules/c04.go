package rules

import (
	"fmt"
	"go/types"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{ID: "C04", Technique: "lockset analysis of the coordinator's records, and path-sensitive simulation of its operations over every phase of a run",
		Note: "Every access of a shared record holds its lock; the counter operation is one critical section that answers the old value and adds one; the reporter is told of every received record once, held ones first. What the transports do between receiving a request and calling the handler is net/rpc's and net/http's.",
		Run:  c04})
}

const psPkg = "internal/parallel_support"

func c04(c *Ctx) {
	t := c.Type(psPkg, "ServerHandler")
	if t == nil {
		return
	}
	locks := ownLocks(c, t)
	c.Rule("guarded", "every access to the coordinator's shared records holds one and the same lock")
	for _, f := range []string{"alives", "beforeSuiteState", "reportBeforeSuiteState", "shouldAbort", "numSuiteDidBegins", "numSuiteDidEnds", "aggregatedReport", "reportHoldingArea", "counter"} {
		guarded(c, locks, psPkg+".ServerHandler."+f)
	}
	c.Floor(20)

	c.Rule("balance", "no request leaves a lock of the coordinator held or takes it twice")
	for _, l := range locks {
		lockDiscipline(c, l)
	}

	c.Rule("no-lock-on-network", "no lock of the coordinator is held while a request is read or answered")
	c04network(c, locks)

	c.Rule("counter", "each request for the next index is answered with the number of requests before it")
	c04counter(c)

	c.Rule("forward", "each spec record received is shown to the reporter once, after the suite was announced, held records first and in order; the suite's end is announced when the last process has ended, with all reports")
	c04forward(c)
	c04passing(c)

	c.Rule("reporter-serial", "the reporter is only called under one and the same lock")
	c04serial(c, locks)

	c.Rule("once", "a client does not repeat a request that takes an index or delivers a report or output, unless it was told it came too early")
	c04once(c)
}

func c04network(c *Ctx, locks []string) {
	li := c.P.Locks()
	n := 0
	for _, fn := range c.P.Funcs {
		if !strings.HasSuffix(fn.Pkg.Pkg.Path(), psPkg) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := call.Common()
				what := ""
				if com.IsInvoke() {
					if strings.HasSuffix(com.Value.Type().String(), "net/http.ResponseWriter") {
						what = "http.ResponseWriter." + com.Method.Name()
					}
				} else if f := com.StaticCallee(); f != nil && f.Pkg != nil {
					switch p := f.Pkg.Pkg.Path(); {
					case p == "net/http" || p == "net/rpc" || p == "net" || p == "encoding/json" && strings.Contains(f.String(), "coder)"):
						what = f.String()
					case p == "io" && f.Name() == "ReadAll":
						what = "io.ReadAll"
					}
				}
				if what == "" {
					continue
				}
				n++
				held := ""
				for _, l := range locks {
					if li.May[in][l] {
						held = l
					}
				}
				c.Check(held == "", "call of "+what+" in "+c.P.CalleeName(fn), in.Pos(), nil, "%s is called in %s while %s may be held", what, c.P.CalleeName(fn), held)
			}
		}
	}
	c.Floor(15)
}

// linear reads v as sym+const.
func linear(v *engine.Val) (sym string, off int64, ok bool) {
	if n, isInt := v.Int(); isInt {
		return "", n, true
	}
	switch v.K {
	case engine.VSym:
		return v.Key(), 0, true
	case engine.VExpr:
		if len(v.Args) == 2 && (v.S == "+" || v.S == "-") {
			s1, o1, ok1 := linear(v.Args[0])
			s2, o2, ok2 := linear(v.Args[1])
			if !ok1 || !ok2 {
				return "", 0, false
			}
			if v.S == "-" {
				if s2 != "" {
					if s1 == s2 {
						return "", o1 - o2, true
					}
					return "", 0, false
				}
				return s1, o1 - o2, true
			}
			if s1 != "" && s2 != "" {
				return "", 0, false
			}
			return s1 + s2, o1 + o2, true
		}
	}
	return "", 0, false
}

func c04counter(c *Ctx) {
	fn := c.Fn("(*internal/parallel_support.ServerHandler).Counter")
	if fn == nil || len(fn.Params) < 3 {
		return
	}
	rn, out := fn.Params[0].Name(), fn.Params[2].Name()
	loc := "*" + rn + ".counter"
	intT := types.Typ[types.Int]
	for _, old := range []int64{-1, 0, 1, 2, 5} {
		var x *engine.Interp
		x = engine.New(c.P, engine.Cfg{Root: fn,
			Init: func(st *engine.State) {
				if old >= 0 {
					x.Store(st, loc, engine.IntVal(old, intT))
				}
			},
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				if strings.HasSuffix(k.Name, "Mutex).Lock") {
					k.St.Auto["acq"] += "1"
				}
				return nil, false
			}})
		c.Run(x)
		for _, e := range x.Exits {
			if e.Kind != engine.ExitReturn {
				c.Fail("Counter leaves by "+string(e.Kind), fn.Pos(), e.St.Path(8), "a request for an index leaves by %s", e.Kind)
				continue
			}
			got, post := x.Load(e.St, "*"+out, intT), x.Load(e.St, loc, intT)
			gs, go_, ok1 := linear(got)
			ps, po, ok2 := linear(post)
			wantS, wantO := loc, int64(0)
			if old >= 0 {
				wantS, wantO = "", old
			}
			if !ok1 || !ok2 {
				c.Undecided("Counter answers %s and leaves %s", got.Key(), post.Key())
				continue
			}
			failed := e.Ret != nil && !e.Ret.IsNil()
			c.Check(!failed, "Counter succeeds", fn.Pos(), e.St.Path(8), "a request for an index is answered with error %v", e.Ret)
			c.Check(gs == wantS && go_ == wantO, "Counter answers the old value", fn.Pos(), e.St.Path(8), "with %d indices handed out (-1: any number) the next request is answered %s", old, got.Key())
			c.Check(ps == wantS && po == wantO+1, "Counter adds one", fn.Pos(), e.St.Path(8), "with %d indices handed out (-1: any number) a request leaves the counter at %s", old, post.Key())
			if a := e.St.Auto["acq"]; a != "" {
				c.Check(a == "1", "Counter single critical section", fn.Pos(), e.St.Path(8), "the counter is read and advanced in %d critical sections", len(a))
			}
		}
	}
	// no other writer; a new coordinator starts at zero
	for _, a := range c.P.Accesses(psPkg + ".ServerHandler.counter") {
		if a.Write {
			c.Check(a.Fresh || reachesOnly(c, a.Fn, fn), "write of counter in "+c.P.CalleeName(topFn(a.Fn)), a.In.Pos(), nil, "the counter is changed outside the operation that hands out indices, in %s", c.P.CalleeName(a.Fn))
		}
	}
	if nf := c.Fn("internal/parallel_support.newServerHandler"); nf != nil {
		x := c.Run(engine.New(c.P, engine.Cfg{Root: nf}))
		for _, e := range x.Exits {
			if e.Ret == nil || e.Ret.K != engine.VPtr {
				c.Undecided("constructor returns %v", e.Ret)
				continue
			}
			n, ok := x.Load(e.St, e.Ret.S+".counter", intT).Int()
			c.Check(ok && n == 0, "newServerHandler counter", nf.Pos(), nil, "a new coordinator's first index is %d", n)
			for _, f := range []string{"numSuiteDidBegins", "numSuiteDidEnds"} {
				n, ok := x.Load(e.St, e.Ret.S+"."+f, intT).Int()
				c.Check(ok && n == 0, "newServerHandler "+f, nf.Pos(), nil, "a new coordinator starts with %s=%d", f, n)
			}
			stT := c.Type("types", "SpecState")
			for _, f := range []string{"beforeSuiteState.State", "reportBeforeSuiteState"} {
				s := x.DomNames(e.St, x.Load(e.St, e.Ret.S+"."+f, stT))
				c.Check(len(s) == 1 && s[0] == "SpecStateInvalid", "newServerHandler "+f, nf.Pos(), nil, "a new coordinator starts with %s=%v: waiting processes would be answered at once", f, s)
			}
		}
	}
	c.Floor(15)
}

// reachesOnly: f is target or only ever called from it.
func reachesOnly(c *Ctx, f, target *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var up func(f *ssa.Function) bool
	up = func(f *ssa.Function) bool {
		f = topFn(f)
		if f == target || seen[f] {
			return true
		}
		seen[f] = true
		cs := c.P.Callers(f)
		if len(cs) == 0 {
			return false
		}
		for _, r := range cs {
			if !up(r.Caller) {
				return false
			}
		}
		return true
	}
	return up(f)
}

func c04forward(c *Ctx) {
	intT := types.Typ[types.Int]
	type step struct {
		op              string
		begins, ends, n int64
		held            int
	}
	var steps []step
	for n := int64(1); n <= 3; n++ {
		for k := int64(0); k <= n; k++ {
			for held := 0; held <= 2; held++ {
				if k < n {
					steps = append(steps, step{"SpecSuiteWillBegin", k, 0, n, held})
				}
				if k == n && held > 0 {
					continue
				}
				steps = append(steps, step{"DidRun", k, 0, n, held})
			}
			for b := k + 1; b <= n; b++ {
				steps = append(steps, step{"SpecSuiteDidEnd", b, k, n, 0})
			}
		}
	}
	for _, s := range steps {
		fn := c.Fn("(*internal/parallel_support.ServerHandler)." + s.op)
		if fn == nil || len(fn.Params) < 2 {
			continue
		}
		rn, arg := "*"+fn.Params[0].Name(), fn.Params[1].Name()
		t := c.Type(psPkg, "ServerHandler")
		haT := fieldOfType(t, "reportHoldingArea")
		if haT == nil {
			c.Undecided("no holding area")
			return
		}
		key := func(k *engine.Call, v *engine.Val) string {
			if v.K == engine.VAgg || v.Mentions("id:") {
				if id := k.X.FieldOf(k.St, v, "LeafNodeText"); id != nil {
					if s, ok := id.Str(); ok {
						return s
					}
				}
			}
			return v.Key()
		}
		var x *engine.Interp
		x = engine.New(c.P, engine.Cfg{Root: fn,
			Concrete: func(*ssa.Phi) bool { return true },
			Init: func(st *engine.State) {
				x.Store(st, rn+".parallelTotal", engine.IntVal(s.n, intT))
				x.Store(st, rn+".numSuiteDidBegins", engine.IntVal(s.begins, intT))
				x.Store(st, rn+".numSuiteDidEnds", engine.IntVal(s.ends, intT))
				x.Store(st, rn+".reportHoldingArea", engine.SliceAt("*held", s.held, haT))
				if s.ends == 0 {
					x.Store(st, rn+".aggregatedReport", engine.Nil(c.Type("types", "Report")))
				}
				for i := 0; i < s.held; i++ {
					x.Store(st, fmt.Sprintf("*held[%d].LeafNodeText", i), strVal(fmt.Sprintf("held%d", i+1)))
				}
			},
			Opaque: func(f *ssa.Function) bool { return f.Name() == "Add" },
			OnClose: func(x *engine.Interp, st *engine.State, in ssa.Instruction, ch *engine.Val) {
				st.Auto["tr"] += "close;"
			},
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				tr := func(s string) { k.St.Auto["tr"] += s + ";" }
				switch {
				case strings.HasPrefix(k.Name, "invoke reporters.Reporter."):
					a := ""
					if len(k.Args) > 0 {
						a = key(k, k.Args[len(k.Args)-1])
					}
					tr(strings.TrimPrefix(k.Name, "invoke reporters.Reporter.") + "(" + a + ")")
				case strings.HasSuffix(k.Name, "types.Report).Add"):
					return k.Return(engine.Sym("sum("+k.Args[0].Key()+"+"+k.Args[1].Key()+")", k.T)), true
				}
				return nil, false
			}})
		c.Run(x)
		want := ""
		agg := rn + ".aggregatedReport"
		wantAgg := agg
		wantHeld := s.held
		switch s.op {
		case "SpecSuiteWillBegin":
			if s.begins+1 == s.n {
				want = "SuiteWillBegin(" + arg + ");"
				for i := 1; i <= s.held; i++ {
					want += fmt.Sprintf("WillRun(held%d);DidRun(held%d);", i, i)
				}
				wantHeld = 0
			}
		case "DidRun":
			if s.begins == s.n {
				want = "WillRun(" + arg + ");DidRun(" + arg + ");"
			} else {
				wantHeld++
			}
		case "SpecSuiteDidEnd":
			if s.ends == 0 {
				wantAgg = arg
			} else {
				wantAgg = "sum(" + agg + "+" + arg + ")"
			}
			if s.ends+1 == s.n {
				want = "SuiteDidEnd(" + wantAgg + ");"
			}
		}
		what := fmt.Sprintf("%s with %d of %d begun, %d ended, %d held", s.op, s.begins, s.n, s.ends, s.held)
		for _, e := range x.Exits {
			if e.Kind != engine.ExitReturn {
				c.Fail(what+" leaves by "+string(e.Kind), fn.Pos(), e.St.Path(8), "%s leaves by %s", what, e.Kind)
				continue
			}
			tr := strings.ReplaceAll(e.St.Auto["tr"], "close;", "")
			c.Check(tr == want, what, fn.Pos(), e.St.Path(12), "%s: the reporter is told [%s], want [%s]", what, tr, want)
			ha := x.Load(e.St, rn+".reportHoldingArea", haT)
			if es, ok := x.Elems(e.St, ha); ok {
				ok := len(es) == wantHeld
				if ok && s.op == "DidRun" && wantHeld == s.held+1 {
					ok = es[wantHeld-1].Key() == arg
				}
				c.Check(ok, what+" held afterwards", fn.Pos(), e.St.Path(12), "%s: %d records are held afterwards, want %d", what, len(es), wantHeld)
			} else {
				c.Undecided("%s: held records not known (%s)", what, ha.Key())
			}
			if s.op == "SpecSuiteDidEnd" {
				a := x.Load(e.St, agg, c.Type("types", "Report"))
				c.Check(a.Key() == wantAgg, what+" aggregate", fn.Pos(), e.St.Path(12), "%s: the aggregate becomes %s, want %s", what, a.Key(), wantAgg)
				closed := strings.Contains(e.St.Auto["tr"], "close;")
				c.Check(closed == (s.ends+1 == s.n), what+" done", fn.Pos(), e.St.Path(12), "%s: end announced to the command: %v", what, closed)
			}
		}
	}
	c.Floor(40)
}

// c04serial: the reporter is told of one thing at a time, whichever process it comes from.
func c04serial(c *Ctx, locks []string) {
	li := c.P.Locks()
	type site struct {
		fn   *ssa.Function
		in   ssa.Instruction
		name string
	}
	var sites []site
	for _, fn := range c.P.Funcs {
		if fn.Pkg == nil || !strings.HasSuffix(fn.Pkg.Pkg.Path(), psPkg) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok && call.Common().IsInvoke() && strings.HasSuffix(call.Common().Value.Type().String(), "reporters.Reporter") {
					sites = append(sites, site{fn, in, call.Common().Method.Name()})
				}
			}
		}
	}
	best, hits := "", -1
	for _, l := range locks {
		n := 0
		for _, s := range sites {
			if li.Must[s.in][l] {
				n++
			}
		}
		if n > hits {
			best, hits = l, n
		}
	}
	for _, s := range sites {
		if _, reached := li.Entry[s.fn]; !reached {
			c.Ok("%s in %s: function never called", s.name, c.P.CalleeName(s.fn))
			continue
		}
		c.Check(li.Must[s.in][best], "reporter's "+s.name+" in "+c.P.CalleeName(s.fn), s.in.Pos(), nil, "the reporter's %s is called in %s without %s, which the other calls hold (held: %s): two processes' reports can run into each other", s.name, c.P.CalleeName(s.fn), best, li.Must[s.in])
	}
	c.Floor(5)
}

// c04passing: progress and output go straight to the reporter and the destination, once each.
func c04passing(c *Ctx) {
	for _, op := range []string{"EmitProgressReport", "EmitOutput"} {
		fn := c.Fn("(*internal/parallel_support.ServerHandler)." + op)
		if fn == nil || len(fn.Params) < 3 {
			continue
		}
		arg, out := fn.Params[1].Name(), fn.Params[2].Name()
		want := "EmitProgressReport(" + arg + ");"
		if op == "EmitOutput" {
			want = "Write(" + arg + ");"
		}
		x := c.Run(engine.New(c.P, engine.Cfg{Root: fn, OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			switch {
			case strings.HasPrefix(k.Name, "invoke reporters.Reporter."), strings.HasSuffix(k.Name, "Writer.Write"):
				a := ""
				if len(k.Args) > 0 {
					a = k.Args[len(k.Args)-1].Key()
				}
				k.St.Auto["tr"] += k.Name[strings.LastIndex(k.Name, ".")+1:] + "(" + a + ");"
				if strings.HasSuffix(k.Name, "Writer.Write") {
					tt := k.T.(*types.Tuple)
					bad := k.St.Clone()
					bad.Auto["err"] = "1"
					return []engine.Outcome{
						{St: k.St, Ret: engine.Tuple(engine.Sym("written", tt.At(0).Type()), engine.Nil(tt.At(1).Type())), Kind: engine.ExitReturn},
						{St: bad, Ret: engine.Tuple(engine.Sym("written", tt.At(0).Type()), engine.Sym("nonnil:writeErr", tt.At(1).Type())), Kind: engine.ExitReturn}}, true
				}
			}
			return nil, false
		}}))
		for _, e := range x.Exits {
			if e.Kind == engine.ExitStop {
				continue
			}
			c.Check(e.St.Auto["tr"] == want, op, fn.Pos(), e.St.Path(8), "%s passes on [%s], want [%s]", op, e.St.Auto["tr"], want)
			if op == "EmitOutput" && e.Kind == engine.ExitReturn && e.St.Auto["tr"] == want {
				n := x.Load(e.St, "*"+out, types.Typ[types.Int])
				c.Check(n != nil && n.Key() == "written", "EmitOutput's count", fn.Pos(), e.St.Path(8), "the sender of output is told that %v bytes were written, want what the destination answered", n)
				c.Check(e.Ret != nil && e.Ret.IsNil() == (e.St.Auto["err"] == ""), "EmitOutput's error", fn.Pos(), e.St.Path(8), "the sender of output is answered %v, want what the destination answered", e.Ret)
			}
		}
	}
}

// c04once: what must reach the coordinator once is asked once per call, whatever the answer was (an answer that got lost may have been acted on).
func c04once(c *Ctx) {
	for _, cl := range []string{"httpClient", "rpcClient"} {
		for _, m := range []string{"FetchNextCounter", "PostSuiteWillBegin", "PostDidRun", "PostSuiteDidEnd", "PostEmitProgressReport", "Write"} {
			fn := c.Fn("(*" + psPkg + "." + cl + ")." + m)
			if fn == nil {
				continue
			}
			asked := 0
			base := clientTransport(c, []string{"", "neterr", "other", "Failed", "Gone", "Early"}, func(k *engine.Call, st *engine.State, _ string, _ *engine.Val) {
				asked++
				c.Check(st.Auto["asked"] == "" || st.Auto["last"] == "Early", cl+"."+m, k.Pos(), st.Path(10), "%s.%s sends a second request after one that ended with %s: the coordinator may act on both", cl, m, orOK(st.Auto["last"]))
			})
			c.Run(engine.New(c.P, engine.Cfg{Root: fn, Args: c06args(fn), Concrete: offNetwork, OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				if k.Fn == fn && k.St.Auto["asked"] != "" {
					c.Check(k.St.Auto["last"] == "Early", cl+"."+m, k.Pos(), k.St.Path(10), "%s.%s starts over after a request that ended with %s: the coordinator may act on both", cl, m, orOK(k.St.Auto["last"]))
					k.St.Stop()
				}
				return base(k)
			}}))
			if asked == 0 {
				c.Undecided("%s.%s asks nothing of the coordinator", cl, m)
			}
		}
	}
	c.Floor(12)
}
