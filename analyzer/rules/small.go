package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

// Exhaustive small-list evaluation: a list helper is interpreted abstractly over lists of up to three elements whose
// relevant fields take every combination of values; lengths and indices are concrete, everything else stays symbolic.

type fields map[string]*engine.Val

// smallCall interprets fn with the list parameter set to elems (ids are 1..n in field ID when idField is set).
type smallCall struct {
	fn    *ssa.Function
	list  int // index of the list parameter, -1: none
	path  string
	elems []fields
	args  map[int]*engine.Val
	hook  func(k *engine.Call) ([]engine.Outcome, bool)
	init  func(x *engine.Interp, st *engine.State)
	store func(x *engine.Interp, st *engine.State, in ssa.Instruction, loc string, old, v *engine.Val)
}

func (s *smallCall) run(c *Ctx) *engine.Interp {
	var args []*engine.Val
	for i, p := range s.fn.Params {
		v := engine.ParamSym(p)
		if i == s.list {
			if s.path == "" {
				v = engine.SliceAt("*list", len(s.elems), p.Type())
			} else {
				ft := fieldOfType(p.Type(), s.path)
				v = engine.Agg(v, map[string]*engine.Val{s.path: engine.SliceAt("*list", len(s.elems), ft)}, p.Type())
			}
		}
		if a, ok := s.args[i]; ok {
			v = a
		}
		args = append(args, v)
	}
	var x *engine.Interp
	x = engine.New(c.P, engine.Cfg{Root: s.fn, Args: args, OnCall: s.hook, OnStore: s.store,
		Concrete: func(*ssa.Phi) bool { return true },
		Init: func(st *engine.State) {
			for i, e := range s.elems {
				for f, v := range e {
					x.Store(st, fmt.Sprintf("*list[%d].%s", i, f), v)
				}
			}
			if s.init != nil {
				s.init(x, st)
			}
		}})
	return c.Run(x)
}

func fieldOfType(t types.Type, name string) types.Type {
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return s.Field(i).Type()
			}
		}
	}
	return nil
}

// ids lists the ID fields of the elements of a returned list, e.g. "1,3"; "?" when not known.
func ids(c *Ctx, x *engine.Interp, e *engine.Exit, v *engine.Val) string {
	es, ok := x.Elems(e.St, v)
	if !ok {
		return "?"
	}
	var out []string
	for _, el := range es {
		out = append(out, idOf(x, e, el))
	}
	return strings.Join(out, ",")
}

func idOf(x *engine.Interp, e *engine.Exit, el *engine.Val) string {
	id := x.FieldOf(e.St, el, "ID")
	if id == nil {
		return "?"
	}
	n, ok := id.Int()
	if !ok {
		if id.IsNil() {
			return "0"
		}
		return "?"
	}
	return fmt.Sprint(n)
}

// combos calls f with every assignment of n slots to 0..k-1, for n from 0 to max.
func combos(max, k int, f func([]int)) {
	for n := 0; n <= max; n++ {
		a := make([]int, n)
		for {
			f(append([]int{}, a...))
			i := 0
			for ; i < n; i++ {
				a[i]++
				if a[i] < k {
					break
				}
				a[i] = 0
			}
			if i == n {
				break
			}
		}
	}
}

// listHelperTable decides the node-list helpers exactly on small lists.
func listHelperTable(c *Ctx) {
	c.Rule("list-helpers-exact", "each node-list helper returns exactly the selected nodes in order, over every list of up to three nodes and every valuation of what it selects on")
	nodeT := c.Type("internal", "Node")
	uintT := types.Typ[types.Uint]
	boolT := types.Typ[types.Bool]
	intT := types.Typ[types.Int]
	_ = boolT
	ntT := c.Type("types", "NodeType")
	it, bef := c.ConstVal("types", "NodeTypeIt"), c.ConstVal("types", "NodeTypeBeforeEach")
	type helper struct {
		name string
		k    int // values per node
		elem func(v int) fields
		args map[int]*engine.Val
		keep func(v int) bool
		kind string // "select", "first", "any"
		hook func(vals []int) func(k *engine.Call) ([]engine.Outcome, bool)
	}
	kindElem := func(v int) fields { return fields{"NodeType": []*engine.Val{it, bef}[v]} }
	levelElem := func(v int) fields { return fields{"NestingLevel": engine.IntVal(int64(v), intT)} }
	boolElem := func(f string) func(int) fields {
		return func(v int) fields { return fields{f: engine.BoolVal(v == 1)} }
	}
	pred := func(vals []int) func(k *engine.Call) ([]engine.Outcome, bool) {
		return func(k *engine.Call) ([]engine.Outcome, bool) {
			if k.Fn == nil && len(k.Args) == 1 && engine.TypeStr(k.Args[0].T) == "internal.Node" {
				id := k.X.FieldOf(k.St, k.Args[0], "ID")
				if n, ok := id.Int(); ok && int(n) <= len(vals) && n > 0 {
					return k.Return(engine.BoolVal(vals[n-1] == 1)), true
				}
			}
			return nil, false
		}
	}
	hs := []helper{
		{"(internal.Nodes).WithType", 2, kindElem, map[int]*engine.Val{1: it}, func(v int) bool { return v == 0 }, "select", nil},
		{"(internal.Nodes).WithoutType", 2, kindElem, map[int]*engine.Val{1: it}, func(v int) bool { return v != 0 }, "select", nil},
		{"(internal.Nodes).WithinNestingLevel", 3, levelElem, map[int]*engine.Val{1: engine.IntVal(1, intT)}, func(v int) bool { return v <= 1 }, "select", nil},
		{"(internal.Nodes).Filter", 2, func(int) fields { return fields{} }, nil, func(v int) bool { return v == 1 }, "select", pred},
		{"(internal.Nodes).FirstNodeWithType", 2, kindElem, map[int]*engine.Val{1: it}, func(v int) bool { return v == 0 }, "first", nil},
		{"(internal.Nodes).FirstSatisfying", 2, func(int) fields { return fields{} }, nil, func(v int) bool { return v == 1 }, "first", pred},
		{"(internal.Nodes).FirstWithNestingLevel", 3, levelElem, map[int]*engine.Val{1: engine.IntVal(1, intT)}, func(v int) bool { return v == 1 }, "first", nil},
		{"(internal.Nodes).FirstNodeMarkedOrdered", 2, boolElem("MarkedOrdered"), nil, func(v int) bool { return v == 1 }, "first", nil},
		{"(internal.Nodes).HasNodeMarkedPending", 2, boolElem("MarkedPending"), nil, func(v int) bool { return v == 1 }, "any", nil},
		{"(internal.Nodes).HasNodeMarkedFocus", 2, boolElem("MarkedFocus"), nil, func(v int) bool { return v == 1 }, "any", nil},
		{"(internal.Nodes).HasNodeMarkedSerial", 2, boolElem("MarkedSerial"), nil, func(v int) bool { return v == 1 }, "any", nil},
		{"(internal.Nodes).Reverse", 1, func(int) fields { return fields{} }, nil, nil, "reverse", nil},
		{"(internal.Nodes).SortedByAscendingNestingLevel", 3, levelElem, nil, nil, "asc", func([]int) func(k *engine.Call) ([]engine.Outcome, bool) { return sortHook(c) }},
		{"(internal.Nodes).SortedByDescendingNestingLevel", 3, levelElem, nil, nil, "desc", func([]int) func(k *engine.Call) ([]engine.Outcome, bool) { return sortHook(c) }},
		{"(internal.Nodes).Clone", 1, func(int) fields { return fields{} }, nil, func(int) bool { return true }, "select", nil},
	}
	_ = nodeT
	_ = ntT
	for _, h := range hs {
		fn := c.Fn(h.name)
		if fn == nil {
			continue
		}
		h := h
		combos(3, h.k, func(vals []int) {
			s := &smallCall{fn: fn, list: 0, args: h.args}
			for i, v := range vals {
				e := h.elem(v)
				e["ID"] = engine.IntVal(int64(i+1), uintT)
				s.elems = append(s.elems, e)
			}
			if h.hook != nil {
				s.hook = h.hook(vals)
			}
			want := ""
			var ws []string
			switch h.kind {
			case "select":
				for i, v := range vals {
					if h.keep(v) {
						ws = append(ws, fmt.Sprint(i+1))
					}
				}
				want = strings.Join(ws, ",")
			case "reverse":
				for i := range vals {
					ws = append([]string{fmt.Sprint(i + 1)}, ws...)
				}
				want = strings.Join(ws, ",")
			case "asc", "desc":
				idx := make([]int, len(vals))
				for i := range idx {
					idx[i] = i
				}
				sort.SliceStable(idx, func(a, b int) bool {
					if h.kind == "asc" {
						return vals[idx[a]] < vals[idx[b]]
					}
					return vals[idx[a]] > vals[idx[b]]
				})
				for _, i := range idx {
					ws = append(ws, fmt.Sprint(i+1))
				}
				want = strings.Join(ws, ",")
			case "first":
				want = "0"
				for i, v := range vals {
					if h.keep(v) {
						want = fmt.Sprint(i + 1)
						break
					}
				}
			case "any":
				want = "false"
				for _, v := range vals {
					if h.keep(v) {
						want = "true"
					}
				}
			}
			x := s.run(c)
			for _, e := range x.Exits {
				got := "?"
				if e.Kind == engine.ExitReturn && e.Ret != nil {
					switch h.kind {
					case "first":
						got = idOf(x, e, e.Ret)
					case "any":
						if b, ok := e.Ret.Bool(); ok {
							got = fmt.Sprint(b)
						}
					default:
						got = ids(c, x, e, e.Ret)
					}
				} else if e.Kind == engine.ExitPanic {
					got = "panic"
				}
				if strings.Contains(got, "?") {
					c.Undecided("%s over %v: result %v not known", h.name, vals, e.Ret)
					continue
				}
				c.Check(got == want, fmt.Sprintf("%s over %v", h.name, vals), fn.Pos(), e.St.Path(6), "%s over nodes valued %v gives nodes [%s], want [%s]", h.name, vals, got, want)
			}
		})
	}
	// removal of one node by identity
	if fn := c.Fn("(internal.Nodes).WithoutNode"); fn != nil {
		for n := 0; n <= 3; n++ {
			for rm := 1; rm <= n+1; rm++ {
				s := &smallCall{fn: fn, list: 0, args: map[int]*engine.Val{1: engine.Agg(engine.Sym("excluded", fn.Params[1].Type()), map[string]*engine.Val{"ID": engine.IntVal(int64(rm), uintT)}, fn.Params[1].Type())}}
				var ws []string
				for i := 1; i <= n; i++ {
					s.elems = append(s.elems, fields{"ID": engine.IntVal(int64(i), uintT)})
					if i != rm {
						ws = append(ws, fmt.Sprint(i))
					}
				}
				x := s.run(c)
				for _, e := range x.Exits {
					got := ids(c, x, e, e.Ret)
					if strings.Contains(got, "?") {
						c.Undecided("WithoutNode: result %v not known", e.Ret)
						continue
					}
					c.Check(got == strings.Join(ws, ","), fmt.Sprintf("WithoutNode %d of %d", rm, n), fn.Pos(), e.St.Path(6), "removing node %d from %d nodes leaves [%s]", rm, n, got)
				}
			}
		}
	}
	c.Floor(60)
}

// sortHook models the standard stable sorts on lists of known length by evaluating the comparator on every pair; an
// unstable sort reorders equal elements, so it is modelled as reversing them.
func sortHook(c *Ctx) func(k *engine.Call) ([]engine.Outcome, bool) {
	return func(k *engine.Call) ([]engine.Outcome, bool) {
		byIndex, stable := false, true
		name := k.Name
		if i := strings.Index(name, "["); i > 0 {
			name = name[:i]
		}
		switch name {
		case "sort.SliceStable":
			byIndex = true
		case "sort.Slice":
			byIndex, stable = true, false
		case "slices.SortStableFunc":
		case "slices.SortFunc":
			stable = false
		default:
			return nil, false
		}
		list, less := k.Args[0].Unbox(), k.Args[1].Unbox()
		es, ok := k.X.Elems(k.St, list)
		if !ok || less == nil || less.Fn == nil || list.S == "" {
			return nil, false
		}
		et := list.T.Underlying().(*types.Slice).Elem()
		lt := func(i, j int) (bool, bool) {
			var args []*engine.Val
			if byIndex {
				args = []*engine.Val{engine.IntVal(int64(i), types.Typ[types.Int]), engine.IntVal(int64(j), types.Typ[types.Int])}
			} else {
				args = []*engine.Val{es[i], es[j]}
			}
			y := engine.New(c.P, engine.Cfg{Root: less.Fn, Bind: less.Args, Args: args, Init: func(st *engine.State) { st.CopyMem(k.St) }})
			y.Run()
			if len(y.Exits) != 1 || y.Exits[0].Ret == nil {
				return false, false
			}
			r := y.Exits[0].Ret
			if b, ok := r.Bool(); ok {
				return b, true
			}
			if n, ok := r.Int(); ok {
				return n < 0, true
			}
			return false, false
		}
		n := len(es)
		m := make([][]bool, n)
		for i := range m {
			m[i] = make([]bool, n)
			for j := range m[i] {
				b, ok := lt(i, j)
				if !ok {
					return nil, false
				}
				m[i][j] = b
			}
		}
		idx := make([]int, n)
		for i := range idx {
			idx[i] = i
			if !stable {
				idx[i] = n - 1 - i
			}
		}
		sort.SliceStable(idx, func(a, b int) bool { return m[idx[a]][idx[b]] })
		for i, from := range idx {
			k.X.Store(k.St, fmt.Sprintf("%s[%d]", list.S, i), es[from])
		}
		_ = et
		return k.Return(engine.Nil(k.T)), true
	}
}
