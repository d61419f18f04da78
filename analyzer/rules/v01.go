package rules

import (
	"go/types"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{ID: "V01", Technique: "typestate transition table by path-sensitive finite-domain dataflow, plus lockset analysis",
		Note: "Every recorder method is analysed for every declared prior state: first outcome wins, details come from the call, collection returns and resets both; every access to the record is under its lock. Assumes all records share one lock per instance.",
		Run:  v01})
}

// failerFields finds the state and failure fields of the outcome recorder by type.
func failerFields(c *Ctx) (stateF, failF, lockF string) {
	t := c.Type("internal", "Failer")
	if t == nil {
		return
	}
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		switch ts := engine.TypeStr(s.Field(i).Type()); {
		case ts == "types.SpecState":
			stateF = s.Field(i).Name()
		case ts == "types.Failure":
			failF = s.Field(i).Name()
		case strings.HasSuffix(ts, "sync.Mutex") || strings.HasSuffix(ts, "sync.RWMutex"):
			lockF = s.Field(i).Name()
		}
	}
	if stateF == "" || failF == "" || lockF == "" {
		c.Undecided("outcome recorder no longer has a state, a failure and a lock field")
	}
	return
}

func v01(c *Ctx) {
	P := c.P
	c.Rule("transition-table", "each recording method: from Passed it stores its own outcome and the caller's details; from any other state it changes nothing")
	stateF, failF, lockF := failerFields(c)
	if stateF == "" {
		return
	}
	expect := []struct {
		fn, state string
		msgParam  int // index of the message parameter (-1: constant message, forwarded value)
		locParam  int
	}{
		{"(*internal.Failer).Fail", "SpecStateFailed", 1, 2},
		{"(*internal.Failer).Skip", "SpecStateSkipped", 1, 2},
		{"(*internal.Failer).AbortSuite", "SpecStateAborted", 1, 2},
		{"(*internal.Failer).Panic", "SpecStatePanicked", -1, 1},
	}
	stLoc, faLoc := "*f."+stateF, "*f."+failF
	for _, e := range expect {
		fn := c.Fn(e.fn)
		if fn == nil {
			continue
		}
		rn := fn.Params[0].Name()
		stLoc, faLoc = "*"+rn+"."+stateF, "*"+rn+"."+failF
		x := c.Run(engine.New(P, engine.Cfg{Root: fn}))
		stT := c.Type("types", "SpecState")
		faT := c.Type("types", "Failure")
		cover := map[string]bool{}
		for _, ex := range x.Exits {
			if ex.Kind != engine.ExitReturn {
				c.Fail(e.fn+" exit "+string(ex.Kind), fn.Pos(), ex.St.Path(8), "%s can leave by %s", e.fn, ex.Kind)
				continue
			}
			pre := x.DomNames(ex.St, engine.Sym(stLoc, stT))
			post := x.Load(ex.St, stLoc, stT)
			pf := x.Load(ex.St, faLoc, faT)
			for _, p := range pre {
				cover[p] = true
				if p == "SpecStatePassed" {
					if len(pre) > 1 {
						c.Fail(e.fn+" from "+p, fn.Pos(), ex.St.Path(8), "from a passing record %s behaves as from %v", e.fn, pre)
						continue
					}
					names := x.DomNames(ex.St, post)
					ok := len(names) == 1 && names[0] == e.state
					c.Check(ok, e.fn+" Passed->"+e.state, fn.Pos(), ex.St.Path(8), "from a passing record %s leaves state %v, want %s", e.fn, names, e.state)
					loc := engine.Field(pf, "Location", nil)
					c.Check(loc.Key() == fn.Params[e.locParam].Name(), e.fn+" location", fn.Pos(), ex.St.Path(8), "%s records location %s instead of the caller's", e.fn, loc.Key())
					if e.msgParam >= 0 {
						m := engine.Field(pf, "Message", nil)
						c.Check(m.Key() == fn.Params[e.msgParam].Name(), e.fn+" message", fn.Pos(), ex.St.Path(8), "%s records message %s instead of the caller's", e.fn, m.Key())
					} else {
						m := engine.Field(pf, "ForwardedPanic", nil)
						c.Check(m.Mentions(fn.Params[2].Name()), e.fn+" forwarded panic", fn.Pos(), ex.St.Path(8), "%s does not record the panic value (%s)", e.fn, m.Key())
					}
					continue
				}
				same := post.Key() == stLoc
				if !same {
					names := x.DomNames(ex.St, post)
					same = len(names) == 1 && names[0] == p && len(pre) == 1
				}
				c.Check(same && pf.Key() == faLoc, e.fn+" from "+p, fn.Pos(), ex.St.Path(8), "a record already in state %s is changed by %s (state %s, failure %s)", p, e.fn, post.Key(), pf.Key())
			}
		}
		for _, m := range P.EnumDomain(stT) {
			if !cover[m.Name] {
				c.Fail(e.fn+" no path from "+m.Name, fn.Pos(), nil, "no normal return of %s for a record in state %s", e.fn, m.Name)
			}
		}
	}
	c.Floor(40)

	c.Rule("collect", "collecting returns the recorded state and details and leaves a passing record without details; readers return the record unchanged; a new recorder is passing")
	if fn := c.Fn("(*internal.Failer).Drain"); fn != nil {
		rn := fn.Params[0].Name()
		stLoc, faLoc = "*"+rn+"."+stateF, "*"+rn+"."+failF
		x := c.Run(engine.New(P, engine.Cfg{Root: fn}))
		stT, faT := c.Type("types", "SpecState"), c.Type("types", "Failure")
		for _, ex := range x.Exits {
			ok := ex.Kind == engine.ExitReturn && ex.Ret != nil && ex.Ret.K == engine.VTuple && len(ex.Ret.Args) == 2
			c.Check(ok, "Drain returns", fn.Pos(), ex.St.Path(8), "collecting leaves by %s", ex.Kind)
			if !ok {
				continue
			}
			pre := x.DomNames(ex.St, engine.Sym(stLoc, stT))
			got := ex.Ret.Args[0]
			gotN := x.DomNames(ex.St, got)
			c.Check(got.Key() == stLoc || (len(gotN) == 1 && len(pre) == 1 && gotN[0] == pre[0]), "Drain state", fn.Pos(), ex.St.Path(8), "collecting returns state %s for a record in %v", got.Key(), pre)
			c.Check(ex.Ret.Args[1].Key() == faLoc || (len(pre) == 1 && pre[0] == "SpecStatePassed" && ex.Ret.Args[1].IsNil()), "Drain failure", fn.Pos(), ex.St.Path(8), "collecting returns details %s instead of the recorded ones", ex.Ret.Args[1].Key())
			post := x.DomNames(ex.St, x.Load(ex.St, stLoc, stT))
			c.Check(len(post) == 1 && post[0] == "SpecStatePassed", "Drain resets state", fn.Pos(), ex.St.Path(8), "after collecting the record is in state %v", post)
			pf := x.Load(ex.St, faLoc, faT)
			c.Check(pf.IsNil(), "Drain resets details", fn.Pos(), ex.St.Path(8), "after collecting the details are %s, not empty", pf.Key())
		}
	}
	if fn := c.Fn("internal.NewFailer"); fn != nil {
		x := c.Run(engine.New(P, engine.Cfg{Root: fn}))
		for _, ex := range x.Exits {
			if ex.Ret == nil || ex.Ret.K != engine.VPtr {
				c.Fail("NewFailer result", fn.Pos(), nil, "constructor returns %v", ex.Ret)
				continue
			}
			s := x.DomNames(ex.St, x.Load(ex.St, ex.Ret.S+"."+stateF, c.Type("types", "SpecState")))
			c.Check(len(s) == 1 && s[0] == "SpecStatePassed", "NewFailer passing", fn.Pos(), nil, "a new recorder starts in %v", s)
			l := x.Load(ex.St, ex.Ret.S+"."+lockF, types.Typ[types.UnsafePointer])
			lt := lockFieldType(c, lockF)
			if _, isPtr := lt.(*types.Pointer); isPtr {
				c.Check(l.K == engine.VPtr, "NewFailer lock", fn.Pos(), nil, "a new recorder has no lock of its own")
			}
		}
	}
	for _, g := range []struct{ fn, loc string }{{"(*internal.Failer).GetState", stateF}, {"(*internal.Failer).GetFailure", failF}} {
		if fn := c.Fn(g.fn); fn != nil {
			x := c.Run(engine.New(P, engine.Cfg{Root: fn}))
			for _, ex := range x.Exits {
				c.Check(ex.Ret != nil && ex.Ret.Key() == "*"+fn.Params[0].Name()+"."+g.loc && len(storesIn(ex)) == 0, g.fn, fn.Pos(), nil, "%s returns %v", g.fn, ex.Ret)
			}
		}
	}
	c.Floor(9)

	c.Rule("writers", "only the recorder's own methods write the record")
	n := 0
	for _, f := range []string{stateF, failF} {
		for _, a := range P.Accesses("internal.Failer." + f) {
			if !a.Write || a.Fresh {
				continue
			}
			n++
			own := ownerType(a.Fn) == "Failer"
			c.Check(own, "write of "+f+" in "+P.CalleeName(topFn(a.Fn)), a.In.Pos(), nil, "the outcome record's %s is written outside the recorder", f)
		}
	}
	c.Floor(4)

	c.Rule("locked", "every access to the record holds its lock; state and details of one call are handled in one critical section")
	lockGuard(c, "internal.Failer."+lockF, []string{"internal.Failer." + stateF, "internal.Failer." + failF}, nil)
	lockDiscipline(c, "internal.Failer."+lockF)
	// one critical section: exactly one acquisition per method call on every path
	for _, name := range []string{"(*internal.Failer).Fail", "(*internal.Failer).Skip", "(*internal.Failer).AbortSuite", "(*internal.Failer).Panic", "(*internal.Failer).Drain"} {
		fn := c.Fn(name)
		if fn == nil {
			continue
		}
		x := c.Run(engine.New(P, engine.Cfg{Root: fn, OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			if strings.HasSuffix(k.Name, "Mutex).Lock") {
				if k.St.Auto["acq"] != "" {
					k.St.Auto["acq"] = "many"
				} else {
					k.St.Auto["acq"] = "1"
				}
			}
			return nil, false
		}}))
		for _, ex := range x.Exits {
			c.Check(ex.St.Auto["acq"] == "1", name+" single critical section", fn.Pos(), ex.St.Path(8), "%s enters its critical section %q times on a path: check and update are not atomic", name, ex.St.Auto["acq"])
		}
	}
	c.Floor(20)
	c.Assume = append(c.Assume, "all users share the recorder through its methods; sync.Mutex provides mutual exclusion")
}

func lockFieldType(c *Ctx, f string) types.Type {
	s := c.Type("internal", "Failer").Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return s.Field(i).Type()
		}
	}
	return nil
}

// storesIn lists non-allocation locations written on the way to an exit.
func storesIn(ex *engine.Exit) []string {
	var out []string
	for _, m := range ex.St.Mem() {
		if !strings.HasPrefix(m, "alloc#") {
			out = append(out, m)
		}
	}
	return out
}

func topFn(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// ownerType is the receiver type name of the outermost enclosing function.
func ownerType(f *ssa.Function) string {
	f = topFn(f)
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name()
		}
	}
	return ""
}
