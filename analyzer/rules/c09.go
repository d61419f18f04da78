package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{ID: "C09", Technique: "effect analysis of everything the order is computed by (no clock, environment, process number, unseeded randomness or mutable global), plus abstract interpretation of OrderSpecs on a bounded family of spec trees over every permutation the seeded source can return",
		Note: "The order function's own code is interpreted on small concrete trees (up to five specs, three levels) for every order in which sibling declarations may be generated, forwards and backwards over every map it ranges over, and for every permutation of up to three units (a reversal, a rotation and a swap of more; thorough: all of up to four). The sorting comparator is evaluated on every pair and triple of a universe of specs. Assumes math/rand is a function of its seed and that the same source is compiled into every process; that the seed is passed on is K01.",
		Run:  c09})
	register(&Def{ID: "C08", Technique: "abstract interpretation of OrderSpecs (partition into the two lists) and of the run of a suite with the coordinator's answers abstract (which process runs which list, and when)",
		Note: "The partition is decided on a bounded family of spec trees, the scheduling on every path of the run for process one and another one, with zero to two groups in each list and every answer of the coordinator. Assumes the coordinator's counter and barrier (C04, C05).",
		Run:  c08})
}

// tnode is a node of a spec tree to order; siblings of unordered parents may be generated in any order.
type tnode struct {
	text, file      string
	line            int
	ordered, serial bool
	kids            []*tnode // nil: a subject
	setup           bool     // also declares a setup node (which comes before the subject in the spec's nodes)
	id              int
}

func tIt(text string, line int) *tnode { return &tnode{text: text, file: "a.go", line: line} }
func tC(text string, line int, kids ...*tnode) *tnode {
	return &tnode{text: text, file: "a.go", line: line, kids: kids}
}
func (t *tnode) ord() *tnode        { t.ordered = true; return t }
func (t *tnode) ser() *tnode        { t.serial = true; return t }
func (t *tnode) in(f string) *tnode { t.file = f; return t }
func (t *tnode) withSetup() *tnode  { t.setup = true; return t }
func (t *tnode) copyTree() *tnode {
	n := *t
	n.kids = nil
	for _, k := range t.kids {
		n.kids = append(n.kids, k.copyTree())
	}
	return &n
}

type ordTree struct {
	name string
	top  []*tnode
}

func orderTrees() []ordTree {
	return []ordTree{
		{"three specs", []*tnode{tIt("a", 1), tIt("b", 2), tIt("c", 3)}},
		{"generated in a loop", []*tnode{tIt("a", 1), tIt("b", 1), tIt("c", 1)}},
		{"containers", []*tnode{tC("A", 1, tIt("a1", 2), tIt("a2", 3)), tIt("x", 4), tC("B", 5, tIt("b1", 6)).withSetup()}},
		{"containers generated in a loop", []*tnode{tC("A", 1, tIt("s", 2), tIt("t", 3)), tC("B", 1, tIt("s", 2), tIt("t", 3))}},
		{"ordered container", []*tnode{tC("O", 1, tIt("o1", 2), tIt("o2", 3), tIt("o3", 4)).ord().withSetup(), tIt("x", 5)}},
		{"ordered container generated in a loop", []*tnode{tC("O", 1, tIt("o1", 2), tIt("o2", 2)).ord(), tC("P", 1, tIt("p1", 2), tIt("p2", 2)).ord()}},
		{"ordered container inside another", []*tnode{tC("A", 1, tIt("a", 9), tC("O", 2, tIt("o1", 4), tIt("o2", 3)).ord()), tIt("x", 10)}},
		{"container inside an ordered one", []*tnode{tC("O", 1, tIt("o1", 2), tC("I", 3, tIt("o2", 4)), tIt("o3", 5)).ord(), tIt("x", 6)}},
		{"ordered container inside an ordered one", []*tnode{tC("O", 1, tIt("o1", 2), tC("I", 3, tIt("o2", 4), tIt("o3", 5)).ord(), tIt("o4", 6)).ord(), tIt("x", 7)}},
		{"two files", []*tnode{tIt("b", 1).in("b.go"), tIt("a", 5), tC("C", 3, tIt("c", 4)).in("c.go")}},
		{"serial specs", []*tnode{tIt("s", 1).ser(), tIt("x", 2), tC("S", 3, tIt("t", 4), tIt("u", 5)).ser()}},
		{"serial ordered container", []*tnode{tC("O", 1, tIt("o1", 2), tIt("o2", 3)).ord().ser(), tIt("x", 4), tC("C", 5, tIt("y", 6), tIt("s", 7).ser())}},
		{"only serial specs", []*tnode{tIt("s", 1).ser(), tIt("t", 2).ser()}},
		{"no specs", nil},
	}
}

// tspec is one spec as the order function sees it.
type tspec struct {
	name  string
	nodes []*tnode // containers and subject
	top   *tnode
	group string // name of the outermost ordered container, "" otherwise
	decl  int    // position in source
}

// builds calls f with the specs of the tree for every order in which siblings may be generated.
func (t ordTree) builds(max int, f func(specs []*tspec)) {
	var orders func(ns []*tnode, done func([]*tnode))
	orders = func(ns []*tnode, done func([]*tnode)) {
		perms(len(ns), max, func(p []int) {
			out := make([]*tnode, len(ns))
			for i, j := range p {
				out[i] = ns[j]
			}
			done(out)
		})
	}
	decl := map[string]int{}
	var number func(ns []*tnode, pre string)
	number = func(ns []*tnode, pre string) {
		for _, n := range ns {
			if n.kids == nil {
				decl[pre+"/"+n.text] = len(decl)
			}
			number(n.kids, pre+"/"+n.text)
		}
	}
	number(t.top, "")
	orders(t.top, func(top []*tnode) {
		for _, rev := range []bool{false, true} {
			var specs []*tspec
			id := 0
			inner := false
			var walk func(n *tnode, path []*tnode, group string)
			walk = func(n *tnode, path []*tnode, group string) {
				id++
				n = n.copyTree()
				n.id = id
				path = append(append([]*tnode{}, path...), n)
				name := ""
				for _, p := range path {
					name += "/" + p.text
				}
				if n.ordered && group == "" {
					group = name
				}
				if n.kids == nil {
					specs = append(specs, &tspec{name: name, nodes: path, top: path[0], group: group, decl: decl[name]})
					return
				}
				if n.setup {
					id++ // the setup node takes an id
				}
				kids := n.kids
				if rev && group == "" && len(kids) > 1 {
					inner = true
					kids = append([]*tnode{}, kids...)
					for i, j := 0, len(kids)-1; i < j; i, j = i+1, j-1 {
						kids[i], kids[j] = kids[j], kids[i]
					}
				}
				for _, k := range kids {
					walk(k, path, group)
				}
			}
			for _, n := range top {
				walk(n, nil, "")
			}
			if rev && !inner {
				continue
			}
			f(specs)
		}
	})
}

// perms calls f with permutations of 0..n-1: all of them up to max elements, a few telling ones beyond.
func perms(n, max int, f func([]int)) {
	if n > max {
		id, rev, rot, sw := make([]int, n), make([]int, n), make([]int, n), make([]int, n)
		for i := 0; i < n; i++ {
			id[i], rev[i], rot[i], sw[i] = i, n-1-i, (i+1)%n, i
		}
		sw[0], sw[1] = 1, 0
		for _, p := range [][]int{id, rev, rot, sw} {
			f(p)
		}
		return
	}
	var rec func(p []int, used int)
	rec = func(p []int, used int) {
		if len(p) == n {
			f(append([]int{}, p...))
			return
		}
		for i := 0; i < n; i++ {
			if used&(1<<i) == 0 {
				rec(append(p, i), used|1<<i)
			}
		}
	}
	rec(nil, 0)
}

// putTreeSpecs stores the specs under *list.
func putTreeSpecs(c *Ctx, x *engine.Interp, st *engine.State, specs []*tspec, T types.Type) *engine.Val {
	nodesT := fieldOfType(T.Underlying().(*types.Slice).Elem(), "Nodes")
	for i, s := range specs {
		loc := fmt.Sprintf("*list[%d]", i)
		base := fmt.Sprintf("*nodes%d", i)
		n := 0
		put := func(t *tnode, id int, kind string) {
			l := fmt.Sprintf("%s[%d]", base, n)
			n++
			x.Store(st, l+".ID", engine.IntVal(int64(id), types.Typ[types.Uint]))
			x.Store(st, l+".NodeType", c.ConstVal("types", kind))
			x.Store(st, l+".Text", strVal(t.text))
			x.Store(st, l+".MarkedOrdered", engine.BoolVal(t.ordered && kind == "NodeTypeContainer"))
			x.Store(st, l+".MarkedSerial", engine.BoolVal(t.serial && kind != "NodeTypeBeforeEach"))
			x.Store(st, l+".CodeLocation.FileName", strVal(t.file))
			x.Store(st, l+".CodeLocation.LineNumber", engine.IntVal(int64(t.line), types.Typ[types.Int]))
		}
		for _, t := range s.nodes {
			if t.kids == nil {
				put(t, t.id, "NodeTypeIt")
				continue
			}
			put(t, t.id, "NodeTypeContainer")
			if t.setup {
				put(&tnode{text: "", file: t.file, line: t.line}, t.id+1, "NodeTypeBeforeEach")
			}
		}
		x.Store(st, loc+".Nodes", engine.SliceAt(base, n, nodesT))
		x.Store(st, loc+".Skip", engine.BoolVal(false))
	}
	return engine.SliceAt("*list", len(specs), T)
}

// sub interprets a function on the state of the caller; its effects on memory are kept. It fails unless the function has
// exactly one outcome.
func (c *Ctx) sub(x *engine.Interp, st *engine.State, fn *ssa.Function, bind, args []*engine.Val) (*engine.Val, bool) {
	if fn == nil {
		return nil, false
	}
	y := engine.New(c.P, engine.Cfg{Root: fn, Bind: bind, Args: args, Linear: true, Budget: 4000, Concrete: func(*ssa.Phi) bool { return true }, Init: func(s *engine.State) { s.CopyMem(st) }})
	y.ContinueTokens(x)
	y.Run()
	x.ContinueTokens(y)
	if len(y.Exits) != 1 || len(y.Undec) > 0 || y.Exits[0].Kind != engine.ExitReturn {
		return nil, false
	}
	st.CopyMem(y.Exits[0].St)
	return y.Exits[0].Ret, true
}

// boxedMethod finds the implementation of a method of an interface value.
func (c *Ctx) boxedMethod(v *engine.Val, name string) (*ssa.Function, *engine.Val) {
	u := v.Unbox()
	if u == nil || u.T == nil {
		return nil, nil
	}
	for _, T := range []types.Type{u.T, types.NewPointer(u.T)} {
		ms := c.P.SSA.MethodSets.MethodSet(T)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				if f := c.P.SSA.MethodValue(ms.At(i)); f != nil {
					return f, u
				}
			}
		}
	}
	return nil, nil
}

// ifaceSort models sort.Sort and sort.Stable on a list of known length: an insertion sort through the value's own methods.
func (c *Ctx) ifaceSort(k *engine.Call) ([]engine.Outcome, bool) {
	if k.Name != "sort.Sort" && k.Name != "sort.Stable" {
		return nil, false
	}
	ln, recv := c.boxedMethod(k.Args[0], "Len")
	less, _ := c.boxedMethod(k.Args[0], "Less")
	swap, _ := c.boxedMethod(k.Args[0], "Swap")
	if ln == nil || less == nil || swap == nil {
		return nil, false
	}
	n := int64(-1)
	if v, ok := c.sub(k.X, k.St, ln, nil, []*engine.Val{recv}); ok && v != nil {
		n, _ = v.Int()
	}
	if n < 0 || n > 12 {
		return nil, false
	}
	iv := func(i int64) *engine.Val { return engine.IntVal(i, types.Typ[types.Int]) }
	for i := int64(1); i < n; i++ {
		for j := i; j > 0; j-- {
			v, ok := c.sub(k.X, k.St, less, nil, []*engine.Val{recv, iv(j), iv(j - 1)})
			if !ok {
				return nil, false
			}
			b, ok := v.Bool()
			if !ok {
				return nil, false
			}
			if !b {
				break
			}
			if _, ok := c.sub(k.X, k.St, swap, nil, []*engine.Val{recv, iv(j), iv(j - 1)}); !ok {
				return nil, false
			}
		}
	}
	return k.Return(engine.Nil(k.T)), true
}

type ordCfg struct {
	all   bool
	total int
}

func (o ordCfg) String() string { return fmt.Sprintf("randomize-all=%v processes=%d", o.all, o.total) }

// ordRun is one outcome of ordering: the groups of each list by spec name, and the permutation drawn.
type ordRun struct {
	perm  string
	lists [2][][]int
	exit  *engine.Exit
}

// orderOn interprets OrderSpecs on the specs; ok is false when an outcome is not known.
func orderOn(c *Ctx, fn *ssa.Function, specs []*tspec, o ordCfg, max int, see func(k *engine.Call)) ([]ordRun, bool) {
	var specP, confP = -1, -1
	for i, p := range fn.Params {
		switch engine.TypeStr(p.Type()) {
		case "internal.Specs":
			specP = i
		case "types.SuiteConfig":
			confP = i
		}
	}
	if specP < 0 || confP < 0 || len(fn.Params) != 2 {
		c.Undecided("%s does not take specs and a configuration", c.P.CalleeName(fn))
		return nil, false
	}
	T := fn.Params[specP].Type()
	cfgT := fn.Params[confP].Type()
	args := make([]*engine.Val, 2)
	args[specP] = engine.SliceAt("*list", len(specs), T)
	args[confP] = engine.Agg(engine.ParamSym(fn.Params[confP]), map[string]*engine.Val{
		"RandomizeAllSpecs": engine.BoolVal(o.all), "ParallelTotal": engine.IntVal(int64(o.total), types.Typ[types.Int])}, cfgT)
	sh := sortHook(c)
	bad := false
	var x *engine.Interp
	x = engine.New(c.P, engine.Cfg{Root: fn, Args: args, Linear: true, RangeMaps: true, Budget: 40000, Concrete: func(*ssa.Phi) bool { return true },
		Init: func(st *engine.State) { putTreeSpecs(c, x, st, specs, T) },
		OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			if see != nil {
				see(k)
			}
			if o, ok := sh(k); ok {
				return o, ok
			}
			if o, ok := c.ifaceSort(k); ok {
				return o, ok
			}
			switch k.Name {
			case "(*math/rand.Rand).Perm", "(*math/rand/v2.Rand).Perm", "math/rand.Perm", "math/rand/v2.Perm":
				n, ok := k.Args[len(k.Args)-1].Int()
				if !ok {
					bad = true
					return nil, false
				}
				var out []engine.Outcome
				perms(int(n), max, func(p []int) {
					k2 := *k
					k2.St = k.St.Clone()
					var es []*engine.Val
					for _, j := range p {
						es = append(es, engine.IntVal(int64(j), types.Typ[types.Int]))
					}
					k2.St.Auto["perm"] += fmt.Sprint(p)
					v := k2.NewSlice(es, k.T)
					out = append(out, engine.Outcome{St: k2.St, Ret: v, Kind: engine.ExitReturn})
				})
				return out, true
			case "(*math/rand.Rand).Shuffle", "(*math/rand/v2.Rand).Shuffle", "math/rand.Shuffle", "math/rand/v2.Shuffle":
				n, ok := k.Args[len(k.Args)-2].Int()
				sw := k.Args[len(k.Args)-1].Unbox()
				if !ok || sw == nil || sw.Fn == nil {
					bad = true
					return nil, false
				}
				var out []engine.Outcome
				perms(int(n), max, func(p []int) {
					st := k.St.Clone()
					cur := make([]int, n)
					for i := range cur {
						cur[i] = i
					}
					for i := range cur {
						for j := i; j < len(cur); j++ {
							if cur[j] == p[i] && i != j {
								cur[i], cur[j] = cur[j], cur[i]
								if _, ok := c.sub(k.X, st, sw.Fn, sw.Args, []*engine.Val{engine.IntVal(int64(i), types.Typ[types.Int]), engine.IntVal(int64(j), types.Typ[types.Int])}); !ok {
									bad = true
								}
							}
						}
					}
					st.Auto["perm"] += fmt.Sprint(p)
					out = append(out, engine.Outcome{St: st, Ret: engine.Nil(k.T), Kind: engine.ExitReturn})
				})
				return out, true
			}
			return nil, false
		}})
	c.Run(x)
	var runs []ordRun
	for _, e := range x.Exits {
		if e.Kind != engine.ExitReturn || e.Ret == nil || len(e.Ret.Args) != 2 {
			if e.Kind == engine.ExitPanic {
				c.Fail("ordering panics", e.Pos, e.St.Path(8), "%s panics on a valid list of specs", c.P.CalleeName(fn))
			}
			bad = true
			continue
		}
		r := ordRun{perm: e.St.Auto["perm"], exit: e}
		for i := 0; i < 2; i++ {
			gs, ok := x.Elems(e.St, e.Ret.Args[i])
			if !ok {
				bad = true
			}
			for _, g := range gs {
				es, ok := x.Elems(e.St, g)
				if !ok {
					bad = true
				}
				var idx []int
				for _, v := range es {
					n, ok := v.Int()
					if !ok {
						bad = true
					}
					idx = append(idx, int(n))
				}
				r.lists[i] = append(r.lists[i], idx)
			}
		}
		runs = append(runs, r)
	}
	return runs, !bad && len(x.Undec) == 0
}

// orderingTable evaluates OrderSpecs over the family of trees; which properties are judged depends on the caller.
func orderingTable(c *Ctx, judge func(t ordTree, o ordCfg, specs []*tspec, r ordRun, done map[string]string)) {
	fn := c.Fn("internal.OrderSpecs")
	if fn == nil {
		return
	}
	max := 3
	if c.Tier == "thorough" {
		max = 4
	}
	for _, t := range orderTrees() {
		for _, o := range []ordCfg{{false, 1}, {true, 1}, {false, 2}, {true, 2}} {
			done := map[string]string{}
			t.builds(3, func(specs []*tspec) {
				runs, ok := orderOn(c, fn, specs, o, max, nil)
				if !ok {
					c.Undecided("the order of %q with %s is not known", t.name, o)
					return
				}
				for _, r := range runs {
					judge(t, o, specs, r, done)
				}
			})
		}
	}
}

func names(specs []*tspec, l [][]int) string {
	var out []string
	for _, g := range l {
		var s []string
		for _, i := range g {
			if i < 0 || i >= len(specs) {
				s = append(s, fmt.Sprint(i))
				continue
			}
			s = append(s, specs[i].name)
		}
		out = append(out, "["+strings.Join(s, " ")+"]")
	}
	return strings.Join(out, " ")
}

// keepsGroups: every index once, ordered containers whole and in declaration order, everything else on its own.
func keepsGroups(c *Ctx, fn *ssa.Function, t ordTree, o ordCfg, specs []*tspec, r ordRun) {
	seen := map[int]int{}
	want := map[string][]int{}
	for i, s := range specs {
		if s.group != "" {
			want[s.group] = append(want[s.group], i)
		}
	}
	for _, l := range r.lists {
		for _, g := range l {
			for _, i := range g {
				seen[i]++
			}
			if len(g) == 0 {
				c.Fail("empty group", fn.Pos(), r.exit.St.Path(8), "%q with %s: an empty group is scheduled", t.name, o)
				continue
			}
			if g[0] < 0 || g[0] >= len(specs) {
				continue
			}
			s := specs[g[0]]
			w := []int{g[0]}
			if s.group != "" {
				w = want[s.group]
			}
			c.Check(fmt.Sprint(g) == fmt.Sprint(w), fmt.Sprintf("group of %s in %q", s.name, t.name), fn.Pos(), r.exit.St.Path(8),
				"%q with %s and permutation %s: the group %s should be %s", t.name, o, r.perm, names(specs, [][]int{g}), names(specs, [][]int{w}))
		}
	}
	for i, s := range specs {
		c.Check(seen[i] == 1, fmt.Sprintf("%s once in %q", s.name, t.name), fn.Pos(), r.exit.St.Path(8), "%q with %s and permutation %s: %s is scheduled %d times (%s | %s)", t.name, o, r.perm, s.name, seen[i], names(specs, r.lists[0]), names(specs, r.lists[1]))
	}
}

func c09(c *Ctx) {
	fn := c.Fn("internal.OrderSpecs")
	if fn == nil {
		return
	}
	c.Rule("order-function", "for every tree, generation order of its siblings, map iteration order and permutation: each spec is scheduled once, ordered containers are one group in declaration order, units stay together, and the order depends on the tree and the permutation only")
	orderingTable(c, func(t ordTree, o ordCfg, specs []*tspec, r ordRun, done map[string]string) {
		keepsGroups(c, fn, t, o, specs, r)
		got := names(specs, r.lists[0]) + " | " + names(specs, r.lists[1])
		if w, ok := done[r.perm]; ok {
			c.Check(w == got, fmt.Sprintf("same order of %q with %s", t.name, o), fn.Pos(), r.exit.St.Path(10), "%q with %s and permutation %s: the order is %s or %s depending on the order in which the specs were generated or a map is iterated", t.name, o, r.perm, w, got)
		} else {
			done[r.perm] = got
		}
		if o.total == 1 && !o.all {
			unitsTogether(c, fn, t, o, specs, r)
		}
	})
	c.Floor(300)
	specsOfTree(c)
	c09less(c)
	c09effects(c, fn)
	c09calls(c)
}

// unitsTogether: without randomizing everything, the specs of a top-level container run together in source order.
func unitsTogether(c *Ctx, fn *ssa.Function, t ordTree, o ordCfg, specs []*tspec, r ordRun) {
	var flat []int
	for _, g := range r.lists[0] {
		flat = append(flat, g...)
	}
	pos := map[*tnode][]int{}
	for i, s := range flat {
		if s < 0 || s >= len(specs) {
			return
		}
		k := specs[s].nodes[0]
		pos[k] = append(pos[k], i)
	}
	tops := map[int][]int{}
	for k, p := range pos {
		tops[k.id] = append(tops[k.id], p...)
	}
	for id, p := range tops {
		sort.Ints(p)
		ok := p[len(p)-1]-p[0] == len(p)-1
		ord := true
		for i := 1; i < len(p); i++ {
			a, b := specs[flat[p[i-1]]], specs[flat[p[i]]]
			if a.decl > b.decl && a.group == "" && b.group == "" {
				ord = false
			}
		}
		nm := ""
		for _, s := range specs {
			if s.nodes[0].id == id {
				nm = s.nodes[0].text
			}
		}
		c.Check(ok, fmt.Sprintf("%s stays together in %q", nm, t.name), fn.Pos(), r.exit.St.Path(8), "%q with %s and permutation %s: the specs of top-level %s are not run together: %s", t.name, o, r.perm, nm, names(specs, r.lists[0]))
		c.Check(ord, fmt.Sprintf("%s in source order in %q", nm, t.name), fn.Pos(), r.exit.St.Path(8), "%q with %s and permutation %s: the specs of top-level %s are not run in source order: %s", t.name, o, r.perm, nm, names(specs, r.lists[0]))
	}
}

// c09less: the comparator is a strict total order on a universe of specs.
func c09less(c *Ctx) {
	c.Rule("comparator-order", "whatever sorts the specs compares them by a strict total order: irreflexive, asymmetric, transitive, and deciding between any two specs")
	less := c.Fn("(*internal.SortableSpecs).Less")
	if less == nil {
		return
	}
	var specs []*tspec
	add := func(top ...*tnode) {
		ordTree{top: top}.builds(0, func(s []*tspec) {
			if len(s) > 0 && len(specs) == 0 {
				specs = s
			}
		})
	}
	add(
		tIt("a", 2), tIt("b", 2), tIt("c", 1).in("b.go"), tIt("g", 3).in("ab.go"), tC("G", 1, tIt("h", 9)).in("dir/a.go"),
		tC("A", 1, tIt("s", 2), tIt("t", 3)), tC("B", 1, tIt("s", 2), tIt("t", 3)),
		tC("O", 1, tIt("z", 9), tIt("o2", 2)).ord(), tC("P", 1, tIt("p1", 2), tIt("p2", 2)).ord(), tC("O", 1, tIt("q", 2)).ord(),
		tIt("d", 1), tC("C", 2, tC("D", 3, tIt("e", 4)), tIt("f", 3)),
		tC("N", 2, tC("M", 1, tIt("m1", 4), tIt("m2", 3)).ord(), tIt("n", 5)),
	)
	st, ok := fieldOwner(less)
	if !ok {
		c.Undecided("comparator receiver not understood")
		return
	}
	T := fieldOfType(st, "Specs")
	iT := fieldOfType(st, "Indexes")
	if T == nil || iT == nil {
		c.Undecided("comparator receiver not understood")
		return
	}
	n := len(specs)
	m := make([][]bool, n)
	for i := range m {
		m[i] = make([]bool, n)
		for j := range m[i] {
			var x *engine.Interp
			x = engine.New(c.P, engine.Cfg{Root: less, Args: []*engine.Val{engine.PtrTo("*sortable", less.Params[0].Type()), engine.IntVal(0, types.Typ[types.Int]), engine.IntVal(1, types.Typ[types.Int])}, Linear: true, Budget: 4000, Concrete: func(*ssa.Phi) bool { return true },
				Init: func(s *engine.State) {
					x.Store(s, "*sortable.Specs", putTreeSpecs(c, x, s, specs, T))
					x.Store(s, "*sortable.Indexes", engine.SliceAt("*idx", 2, iT))
					x.Store(s, "*idx[0]", engine.Const(engine.IntVal(int64(i), types.Typ[types.Int]).C, types.Typ[types.Int]))
					x.Store(s, "*idx[1]", engine.Const(engine.IntVal(int64(j), types.Typ[types.Int]).C, types.Typ[types.Int]))
				}})
			c.Run(x)
			if len(x.Exits) != 1 || x.Exits[0].Ret == nil {
				c.Undecided("comparison of %s and %s is not known", specs[i].name, specs[j].name)
				return
			}
			b, ok := x.Exits[0].Ret.Bool()
			if !ok {
				c.Undecided("comparison of %s and %s is not known", specs[i].name, specs[j].name)
				return
			}
			m[i][j] = b
		}
	}
	for i := range m {
		c.Check(!m[i][i], "irreflexive", less.Pos(), nil, "%s is ordered before itself", specs[i].name)
		for j := range m {
			if i < j {
				c.Check(m[i][j] != m[j][i], "total and asymmetric", less.Pos(), nil, "%s and %s (both orders %v)", specs[i].name, specs[j].name, m[i][j])
			}
			for k := range m {
				c.Check(!(m[i][j] && m[j][k] && !m[i][k]), "transitive", less.Pos(), nil, "%s < %s < %s but not %s < %s", specs[i].name, specs[j].name, specs[k].name, specs[i].name, specs[k].name)
			}
		}
	}
	c.Floor(100)
}

func fieldOwner(m *ssa.Function) (types.Type, bool) {
	if len(m.Params) == 0 {
		return nil, false
	}
	p, ok := m.Params[0].Type().Underlying().(*types.Pointer)
	if !ok {
		return m.Params[0].Type(), true
	}
	return p.Elem(), true
}

// impure lists standard functions whose result is not a function of their arguments.
var impurePrefix = []string{"time.Now", "time.Since", "time.Until", "os.Getpid", "os.Getppid", "os.Getenv", "os.LookupEnv", "os.Environ", "os.Hostname", "os.Getwd", "os.Args", "runtime.", "crypto/rand.", "syscall.Getpid", "hash/maphash.", "net.", "os.ReadFile", "os.Open", "os.Stat"}

func c09effects(c *Ctx, order *ssa.Function) {
	c.Rule("order-effects", "nothing the order is computed by reads the clock, the environment, the process, the process number, unseeded randomness or a global that changes; the random source is seeded with the configured seed and nothing else")
	roots := []*ssa.Function{order}
	for _, n := range []string{"internal.GenerateSpecsFromTreeRoot", "(*internal.SortableSpecs).Less", "(*internal.SortableSpecs).Len", "(*internal.SortableSpecs).Swap"} {
		if f := c.P.Func(n); f != nil {
			roots = append(roots, f)
		}
	}
	if len(roots) < 2 {
		c.Undecided("the function that makes specs from the tree is gone")
	}
	reach := map[*ssa.Function]bool{}
	for _, r := range roots {
		for _, f := range c.P.Reach(r, nil) {
			if f != nil && f.Pkg != nil && inModule(c, f) {
				reach[f] = true
			}
		}
	}
	var fs []*ssa.Function
	for f := range reach {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return c.P.CalleeName(fs[i]) < c.P.CalleeName(fs[j]) })
	for _, f := range fs {
		name := c.P.CalleeName(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Go:
					c.Fail("goroutine in "+name, in.Pos(), nil, "%s starts a goroutine while the order is computed", name)
				case *ssa.Select:
					c.Fail("select in "+name, in.Pos(), nil, "%s waits on channels while the order is computed", name)
				case *ssa.UnOp:
					if g, ok := in.X.(*ssa.Global); ok && g.Pkg != nil && strings.Contains(g.Pkg.Pkg.Path(), "onsi/ginkgo") && globalChanges(c, g) {
						c.Fail("global "+g.Name()+" in "+name, in.Pos(), nil, "%s reads the global %s, which changes during a run, while the order is computed", name, g.Name())
					}
				}
				if fl := loadedBy(c, in); fl == "types.SuiteConfig.ParallelProcess" || fl == "types.SuiteConfig.ParallelHost" {
					c.Fail("process number in "+name, in.Pos(), nil, "%s reads %s while the order is computed: processes would disagree on it", name, fl)
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cal := ci.Common().StaticCallee()
				if cal == nil {
					continue
				}
				n := c.P.CalleeName(cal)
				for _, p := range impurePrefix {
					if n == p || strings.HasSuffix(p, ".") && strings.HasPrefix(n, p) {
						c.Fail(n+" in "+name, in.Pos(), nil, "%s calls %s while the order is computed", name, n)
					}
				}
				switch {
				case strings.HasPrefix(n, "math/rand.") && n != "math/rand.New" && n != "math/rand.NewSource" || strings.HasPrefix(n, "math/rand/v2.") && n != "math/rand/v2.New" && n != "math/rand/v2.NewPCG":
					c.Fail(n+" in "+name, in.Pos(), nil, "%s draws from the process-wide random source, which differs between processes and runs", name)
				}
			}
		}
		c.Ok("effects of " + name)
	}
	seeded := 0
	orderOn(c, order, nil, ordCfg{false, 1}, 3, func(k *engine.Call) {
		switch k.Name {
		case "math/rand.NewSource", "math/rand/v2.NewPCG", "(*math/rand.Rand).Seed", "invoke math/rand.Source.Seed":
			seeded++
			for _, a := range k.Args {
				if a == nil || strings.Contains(engine.TypeStr(a.T), "rand.") {
					continue
				}
				bad := ""
				for _, w := range []string{"ParallelProcess", "ParallelHost", "#", "StartTime", "global:"} {
					if strings.Contains(a.Key(), w) {
						bad = a.Key()
					}
				}
				c.Check(bad == "", "seed", k.Pos(), k.St.Path(6), "the order is seeded with %s instead of the configured seed", bad)
			}
		}
	})
	if seeded == 0 {
		c.Undecided("no seeded random source found")
	}
	c.Floor(15)
}

func inModule(c *Ctx, f *ssa.Function) bool {
	return f.Pkg != nil && strings.Contains(f.Pkg.Pkg.Path(), "onsi/ginkgo")
}

// globalChanges: the global (or something in it) is assigned outside package initialization.
func globalChanges(c *Ctx, g *ssa.Global) bool {
	for _, f := range c.P.Funcs {
		if f.Synthetic != "" || f.Name() == "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					return true
				}
			}
		}
	}
	return false
}

func loadedBy(c *Ctx, in ssa.Instruction) string {
	if v, ok := in.(ssa.Value); ok {
		if _, phi := v.(*ssa.Phi); !phi {
			return fieldLoaded(c, v)
		}
	}
	return ""
}

// c09calls: the run orders exactly the specs it was given by the configuration it was given.
func c09calls(c *Ctx) {
	c.Rule("order-used", "the run of a suite orders the specs it was given under the suite's own configuration")
	fn := c.Fn("(*internal.Suite).runSpecs")
	if fn == nil {
		return
	}
	suiteRun(c, &suiteWalk{more: func(k *engine.Call) ([]engine.Outcome, bool) {
		if k.Name != "internal.OrderSpecs" {
			return nil, false
		}
		for _, a := range k.Args {
			switch engine.TypeStr(a.T) {
			case "internal.Specs":
				ok := false
				for _, p := range fn.Params {
					if a.Key() == engine.ParamSym(p).Key() {
						ok = true
					}
				}
				c.Check(ok, "the specs ordered", k.Pos(), k.St.Path(6), "the run orders %s instead of the specs it was given", a.Key())
			case "types.SuiteConfig":
				for _, f := range []string{"RandomSeed", "RandomizeAllSpecs", "ParallelTotal"} {
					v := k.X.FieldOf(k.St, a, f)
					if v == nil {
						continue
					}
					bad := v.K == engine.VConst
					for _, w := range []string{"time.", "ParallelProcess", "math/rand.", "os."} {
						bad = bad || strings.Contains(v.Key(), w)
					}
					if !bad && !strings.Contains(v.Key(), "config") && !strings.Contains(v.Key(), "Config") {
						c.Undecided("the run orders by %s", v.Key())
						continue
					}
					c.Check(!bad, "the configuration ordered by: "+f, k.Pos(), k.St.Path(6), "the run orders by %s %s instead of the suite's configuration", f, v.Key())
				}
			}
		}
		return nil, false
	}})
	c.Floor(4)
}
