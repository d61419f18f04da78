package rules

import (
	"fmt"
	"go/types"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func c08(c *Ctx) {
	fn := c.Fn("internal.OrderSpecs")
	if fn == nil {
		return
	}
	c.Rule("serial-partition", "with several processes the second list holds exactly the groups with a serial spec, with one process it is empty; every spec is in exactly one group of one list")
	orderingTable(c, func(t ordTree, o ordCfg, specs []*tspec, r ordRun, done map[string]string) {
		keepsGroups(c, fn, t, o, specs, r)
		serial := func(i int) bool {
			if i < 0 || i >= len(specs) {
				return false
			}
			for _, n := range specs[i].nodes {
				if n.serial {
					return true
				}
			}
			return false
		}
		if o.total == 1 {
			c.Check(len(r.lists[1]) == 0, fmt.Sprintf("one list in series for %q", t.name), fn.Pos(), r.exit.St.Path(8), "%q with %s: groups %s are set aside although nothing runs in parallel", t.name, o, names(specs, r.lists[1]))
			return
		}
		for li, l := range r.lists {
			for _, g := range l {
				has := false
				for _, i := range g {
					has = has || serial(i)
				}
				c.Check(has == (li == 1), fmt.Sprintf("list of %s in %q", names(specs, [][]int{g}), t.name), fn.Pos(), r.exit.St.Path(8), "%q with %s: group %s with serial=%v is put in the %s list", t.name, o, names(specs, [][]int{g}), has, []string{"parallel", "serial"}[li])
			}
		}
	})
	c.Floor(300)
	c08reject(c)
	c08run(c)
}

// c08reject: a serial node inside an ordered container that is not serial itself is rejected (the partition looks at groups).
func c08reject(c *Ctx) {
	c.Rule("serial-in-ordered", "a serial spec or container inside an ordered container that is not serial is rejected while the tree is built")
	fn := c.Fn("(*internal.Suite).PushNode")
	if fn == nil {
		return
	}
	nodeP := -1
	for i, p := range fn.Params {
		if engine.TypeStr(p.Type()) == "internal.Node" {
			nodeP = i
		}
	}
	chain := c.P.Func("(*internal.TreeNode).AncestorNodeChain")
	if nodeP < 0 || chain == nil {
		c.Undecided("pushing a node is not understood")
		return
	}
	chT := chain.Signature.Results().At(0).Type()
	b := engine.BoolVal
	for _, kind := range []string{"NodeTypeIt", "NodeTypeContainer"} {
		for _, anc := range []struct {
			what          string
			nodes         [][2]bool // ordered, serial
			wantErr, sure bool
		}{
			{"no ordered ancestor", [][2]bool{{false, false}}, false, true},
			{"an ordered ancestor", [][2]bool{{true, false}}, true, true},
			{"an ordered ancestor inside a container", [][2]bool{{false, false}, {true, false}}, true, true},
			{"an ordered ancestor around a container", [][2]bool{{true, false}, {false, false}}, true, true},
			{"a serial ordered ancestor", [][2]bool{{true, true}}, false, true},
		} {
			phT := fieldOfType(fn.Params[0].Type().Underlying().(*types.Pointer).Elem(), "phase")
			pre := suitePrefix(fn)
			var x *engine.Interp
			x = engine.New(c.P, engine.Cfg{Root: fn,
				Args: withArg(fn, nodeP, engine.Agg(engine.ParamSym(fn.Params[nodeP]), map[string]*engine.Val{
					"NodeType": c.ConstVal("types", kind), "MarkedSerial": b(true), "MarkedOrdered": b(false), "MarkedContinueOnFailure": b(false)}, fn.Params[nodeP].Type())),
				Concrete: func(*ssa.Phi) bool { return true },
				Init: func(st *engine.State) {
					if phT != nil {
						if v := c.ConstVal("internal", "PhaseBuildTree"); v != nil {
							x.Store(st, pre+".phase", v)
						}
					}
				},
				OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
					if k.Fn == chain {
						var es []*engine.Val
						for i, n := range anc.nodes {
							es = append(es, engine.Agg(engine.Sym(fmt.Sprintf("ancestor%d", i), chT.Underlying().(*types.Slice).Elem()), map[string]*engine.Val{
								"ID": engine.IntVal(int64(i+1), types.Typ[types.Uint]), "MarkedOrdered": b(n[0]), "MarkedSerial": b(n[1])}, chT.Underlying().(*types.Slice).Elem()))
						}
						return k.Return(k.NewSlice(es, chT)), true
					}
					if k.Fn == nil && k.FnVal != nil && !strings.HasPrefix(k.Name, "builtin") {
						return k.Return(k.Fresh()), true
					}
					return nil, false
				}})
			c.Run(x)
			for _, e := range x.Exits {
				if e.Kind != engine.ExitReturn || e.Ret == nil {
					continue
				}
				if anc.wantErr {
					nn := strings.HasPrefix(e.Ret.Unbox().S, "nonnil:err:")
					if !nn && !e.Ret.IsNil() {
						c.Undecided("pushing a serial node under %s returns %s", anc.what, e.Ret.Key())
						continue
					}
					c.Check(nn, "serial "+kind+" under "+anc.what, e.Pos, e.St.Path(8), "a serial %s is accepted under %s: its group would not be scheduled as serial", kind, anc.what)
				} else {
					c.Check(!strings.Contains(e.Ret.Key(), "InvalidSerialNode"), "serial "+kind+" under "+anc.what, e.Pos, e.St.Path(8), "a serial %s under %s is rejected", kind, anc.what)
				}
			}
		}
	}
	c.Floor(10)
}

func withArg(fn *ssa.Function, i int, v *engine.Val) []*engine.Val {
	args := make([]*engine.Val, len(fn.Params))
	args[i] = v
	return args
}

type c08env struct{ proc, total, par, ser int }

func (e c08env) String() string {
	return fmt.Sprintf("process %d of %d, %d parallel and %d serial groups", e.proc, e.total, e.par, e.ser)
}

// c08run: which groups a process runs, and when.
func c08run(c *Ctx) {
	c.Rule("serial-scheduling", "serial groups run on process one only, each once, and only after waiting for the other processes succeeded; in parallel every other group runs only under an index just fetched from the coordinator; alone, every group runs once in order")
	fn := c.Fn("(*internal.Suite).runSpecs")
	if fn == nil {
		return
	}
	specP := -1
	for i, p := range fn.Params {
		if engine.TypeStr(p.Type()) == "internal.Specs" {
			specP = i
		}
	}
	order := c.Fn("internal.OrderSpecs")
	if specP < 0 || order == nil || order.Signature.Results().Len() != 2 {
		c.Undecided("the run or the order function is not understood")
		return
	}
	pre := suitePrefix(fn)
	T := fn.Params[specP].Type()
	grT := order.Signature.Results().At(0).Type()
	idxT := grT.Underlying().(*types.Slice).Elem()
	intT := types.Typ[types.Int]
	var envs []c08env
	for _, par := range []int{0, 1, 2} {
		envs = append(envs, c08env{1, 1, par, 0})
		for _, ser := range []int{0, 1, 2} {
			envs = append(envs, c08env{1, 2, par, ser}, c08env{2, 2, par, ser})
		}
	}
	for _, env := range envs {
		env := env
		n := env.par + env.ser
		unknown := false
		args := withArg(fn, specP, engine.SliceAt("*specs", n, T))
		w := &suiteWalk{args: args, atIndices: true,
			concrete: func(*ssa.Phi) bool { return true },
			init: func(x *engine.Interp, st *engine.State) {
				putSpecs(x, st, strings.Repeat("r", n), T)
				x.Store(st, pre+".config.ParallelProcess", engine.IntVal(int64(env.proc), intT))
				x.Store(st, pre+".config.ParallelTotal", engine.IntVal(int64(env.total), intT))
				x.Store(st, pre+".config.FailOnPending", engine.BoolVal(false))
				x.Store(st, pre+".config.FailOnEmpty", engine.BoolVal(false))
				for i := 0; i < n; i++ {
					base := fmt.Sprintf("*par[%d]", i)
					if i >= env.par {
						base = fmt.Sprintf("*ser[%d]", i-env.par)
					}
					x.Store(st, base, engine.SliceAt(fmt.Sprintf("*gr%d", i), 1, idxT))
					x.Store(st, fmt.Sprintf("*gr%d[0]", i), engine.IntVal(int64(i), intT))
				}
			},
			track: func(l string) bool {
				return strings.HasPrefix(l, "*specs") || strings.HasPrefix(l, "*par") || strings.HasPrefix(l, "*ser") || strings.HasPrefix(l, "*gr") || strings.HasPrefix(l, pre+".config") || strings.HasPrefix(l, "alloc")
			},
			facts: func(k string) bool { return strings.Contains(k, "err") },
			more: func(k *engine.Call) ([]engine.Outcome, bool) {
				au := k.St.Auto
				switch {
				case k.Name == "internal.OrderSpecs":
					return k.Return(engine.Tuple(engine.SliceAt("*par", env.par, grT), engine.SliceAt("*ser", env.ser, grT))), true
				case strings.HasSuffix(k.Name, ".FetchNextCounter"):
					from := 0
					if f := au["last"]; f != "" {
						fmt.Sscan(f, &from)
						from++
					}
					var out []engine.Outcome
					for i := from; i <= env.par || i == from; i++ {
						s := k.St.Clone()
						s.Auto["fetched"], s.Auto["last"] = fmt.Sprint(i), fmt.Sprint(i)
						s.Note("%s: the coordinator hands out index %d", c.P.RelPos(k.Pos()), i)
						out = append(out, engine.Outcome{St: s, Ret: engine.Tuple(engine.IntVal(int64(i), intT), engine.Nil(c.P.ErrorType()))})
						if i >= env.par {
							break
						}
					}
					s := k.St.Clone()
					s.Auto["failed"] = "1"
					s.Note("%s: the coordinator cannot be reached", c.P.RelPos(k.Pos()))
					out = append(out, engine.Outcome{St: s, Ret: engine.Tuple(engine.IntVal(0, intT), engine.Sym("nonnil:err:fetch", c.P.ErrorType()))})
					return out, true
				case strings.HasSuffix(k.Name, ".BlockUntilNonprimaryProcsHaveFinished"):
					s := k.St.Clone()
					s.Auto["failed"] = "1"
					s.Note("%s: waiting for the other processes fails", c.P.RelPos(k.Pos()))
					au["waited"] = "1"
					return []engine.Outcome{{St: k.St, Ret: engine.Nil(k.T)}, {St: s, Ret: engine.Sym("nonnil:err:wait", c.P.ErrorType())}}, true
				}
				return nil, false
			},
			call: func(k *engine.Call, what string) {
				if what != "group" {
					return
				}
				au := k.St.Auto
				es, ok := k.X.Elems(k.St, k.Args[len(k.Args)-1])
				id := -1
				if ok && len(es) == 1 {
					if nd := k.X.FieldOf(k.St, es[0], "Nodes"); nd != nil && strings.HasPrefix(nd.S, "*specsnodes") {
						fmt.Sscan(strings.TrimPrefix(nd.S, "*specsnodes"), &id)
					}
				}
				if id < 0 {
					c.Undecided("%s: which group runs is not known (%s)", c.P.RelPos(k.Pos()), k.Args[len(k.Args)-1].Key())
					au["skip"] = "1"
					unknown = true
					return
				}
				name := fmt.Sprintf("group %d", id)
				again := strings.Contains(au["ran"], fmt.Sprintf(" %d;", id))
				c.Check(!again, "each group once", k.Pos(), k.St.Path(14), "%s: %s runs twice", env, name)
				switch {
				case id >= env.par:
					c.Check(env.proc == 1, "serial groups on process one", k.Pos(), k.St.Path(14), "%s: serial %s runs on this process", env, name)
					c.Check(au["waited"] == "1", "serial groups after waiting", k.Pos(), k.St.Path(14), "%s: serial %s runs although the other processes were not waited for, or may still be running", env, name)
				case env.total > 1:
					c.Check(au["fetched"] == fmt.Sprint(id), "parallel groups by the shared counter", k.Pos(), k.St.Path(14), "%s: %s runs although the coordinator last handed out %s", env, name, orNone(au["fetched"]))
					c.Check(au["waited"] == "", "parallel groups before waiting", k.Pos(), k.St.Path(14), "%s: %s runs after waiting for the other processes", env, name)
				}
				au["fetched"] = ""
				au["ran"] += fmt.Sprintf(" %d;", id)
			},
			failed: func(k *engine.Call, what string) {
				if (what == "before" || what == "report") && k.St.Auto["after"] == "" && k.St.Auto["ran"] == "" {
					k.St.Auto["prefail"] = "1"
				}
			},
			exit: func(x *engine.Interp, e *engine.Exit) {
				au := e.St.Auto
				if unknown || e.Kind != engine.ExitReturn || au["skip"] != "" || au["failed"] != "" || au["prefail"] != "" {
					return // suite setup failed, or the coordinator did
				}
				for i := 0; i < n; i++ {
					ran := strings.Contains(au["ran"], fmt.Sprintf(" %d;", i))
					if i >= env.par && env.proc == 1 || env.total == 1 {
						c.Check(ran, "every serial group runs", e.Pos, e.St.Path(14), "%s: group %d never runs", env, i)
					}
				}
				f := au["fetched"]
				if env.total > 1 && f != "" {
					var i int
					fmt.Sscan(f, &i)
					c.Check(i >= env.par, "every fetched group runs", e.Pos, e.St.Path(14), "%s: the process leaves without running group %d, which the coordinator gave it", env, i)
				}
			},
		}
		suiteRun(c, w)
	}
	c.Floor(100)
}
