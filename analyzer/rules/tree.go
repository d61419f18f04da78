package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

// gnode is a node of a declared tree.
type gnode struct {
	kind string
	kids []*gnode
	id   int
}

func declaredTrees() map[string]*gnode {
	n := func(kind string) *gnode { return &gnode{kind: kind} }
	c := func(kids ...*gnode) *gnode { return &gnode{kind: "Container", kids: kids} }
	return map[string]*gnode{
		"flat":             c(n("BeforeEach"), n("It"), n("AfterEach"), n("It"), n("BeforeEach")),
		"one container":    c(n("BeforeEach"), c(n("BeforeEach"), n("It"), n("JustBeforeEach"), n("It"), n("AfterEach")), n("AfterEach"), n("It")),
		"siblings":         c(c(n("BeforeEach"), n("It")), c(n("It"), n("BeforeEach")), n("BeforeEach")),
		"nested":           c(n("BeforeEach"), c(n("AfterEach"), c(n("BeforeEach"), n("It"), n("AfterEach")), n("BeforeEach"), n("It")), n("JustAfterEach")),
		"ordered-like":     c(c(n("BeforeAll"), n("It"), c(n("BeforeAll"), n("It"), n("AfterAll")), n("It"), n("AfterAll"))),
		"empty containers": c(c(), n("It"), c(n("BeforeEach"))),
		"reporting":        c(n("ReportBeforeEach"), c(n("ReportAfterEach"), n("It")), n("ReportAfterEach")),
	}
}

// specsOfTree decides which specs a tree declares, in which order, and which nodes each of them gets.
func specsOfTree(c *Ctx) {
	c.Rule("specs-of-tree", "on every tree of a bounded family: one spec per subject in declaration order, having exactly its containers, itself and the other nodes declared in them, each at its own nesting level, nodes of one level in declaration order, containers outermost first")
	fn := c.Fn("internal.GenerateSpecsFromTreeRoot")
	if fn == nil {
		return
	}
	if len(fn.Params) != 1 {
		c.Undecided("the function that makes specs from the tree is not understood")
		return
	}
	pt, ok := fn.Params[0].Type().Underlying().(*types.Pointer)
	if !ok {
		c.Undecided("the function that makes specs from the tree is not understood")
		return
	}
	kidsT := fieldOfType(pt.Elem(), "Children")
	if kidsT == nil {
		c.Undecided("tree nodes have no children")
		return
	}
	trees := declaredTrees()
	for _, name := range sortedKeys(trees) {
		root := trees[name]
		id := 0
		byID := map[int]*gnode{}
		parent := map[*gnode]*gnode{}
		var number func(n *gnode)
		number = func(n *gnode) {
			if n != root {
				id++
				n.id = id
				byID[id] = n
			}
			for _, k := range n.kids {
				parent[k] = n
				number(k)
			}
		}
		number(root)
		var x *engine.Interp
		x = engine.New(c.P, engine.Cfg{Root: fn, Args: []*engine.Val{engine.PtrTo("*tn0", fn.Params[0].Type())}, Linear: true, RangeMaps: true, Budget: 60000, MaxDepth: 12,
			Concrete: func(*ssa.Phi) bool { return true },
			Init: func(st *engine.State) {
				var put func(n *gnode)
				put = func(n *gnode) {
					loc := fmt.Sprintf("*tn%d", n.id)
					x.Store(st, loc+".Children", engine.SliceAt(fmt.Sprintf("*kids%d", n.id), len(n.kids), kidsT))
					x.Store(st, loc+".Node.ID", engine.IntVal(int64(n.id), types.Typ[types.Uint]))
					if n != root {
						x.Store(st, loc+".Node.NodeType", c.ConstVal("types", "NodeType"+n.kind))
						x.Store(st, loc+".Node.NestingLevel", engine.IntVal(0, types.Typ[types.Int]))
					}
					for i, k := range n.kids {
						x.Store(st, fmt.Sprintf("*kids%d[%d]", n.id, i), engine.PtrTo(fmt.Sprintf("*tn%d", k.id), fn.Params[0].Type()))
						put(k)
					}
				}
				put(root)
			}})
		c.Run(x)
		var subjects []int
		for i := 1; i <= id; i++ {
			if byID[i].kind == "It" {
				subjects = append(subjects, i)
			}
		}
		for _, e := range x.Exits {
			if e.Kind != engine.ExitReturn {
				c.Fail("tree panics", e.Pos, e.St.Path(8), "making specs from the tree %q ends by %s", name, e.Kind)
				continue
			}
			es, ok := x.Elems(e.St, e.Ret)
			if !ok {
				c.Undecided("the specs of tree %q are not known: %s %v", name, e.Ret.Key(), e.St.Path(30))
				continue
			}
			var got []int
			type nd struct{ id, level int }
			var lists [][]nd
			known := true
			for _, s := range es {
				ns, ok := x.Elems(e.St, x.FieldOf(e.St, s, "Nodes"))
				known = known && ok
				var l []nd
				sub := 0
				for _, v := range ns {
					i, ok1 := x.FieldOf(e.St, v, "ID").Int()
					lv, ok2 := x.FieldOf(e.St, v, "NestingLevel").Int()
					known = known && ok1 && ok2
					l = append(l, nd{int(i), int(lv)})
					if b := byID[int(i)]; b != nil && b.kind == "It" {
						sub = int(i)
					}
				}
				got = append(got, sub)
				lists = append(lists, l)
			}
			if !known {
				for _, s := range es {
					c.Undecided("the nodes of the specs of tree %q are not known %s", name, x.FieldOf(e.St, s, "Nodes").Key())
				}
				continue
			}
			c.Check(fmt.Sprint(got) == fmt.Sprint(subjects), "specs of "+name, fn.Pos(), e.St.Path(8), "tree %q: the specs have subjects %v, declared are %v", name, got, subjects)
			for i, l := range lists {
				if got[i] == 0 {
					continue
				}
				want := map[int]int{} // id -> level
				var chain []*gnode
				for n := byID[got[i]]; n != nil && n != root; n = parent[n] {
					chain = append([]*gnode{n}, chain...)
				}
				for lv, n := range chain {
					want[n.id] = lv
					for _, k := range parent[n].kids {
						if k.kind != "It" && k.kind != "Container" {
							want[k.id] = lv
						}
					}
				}
				var have []string
				last := map[int]int{}
				order, conts := true, true
				prevC := -1
				for _, n := range l {
					have = append(have, fmt.Sprintf("%d@%d", n.id, n.level))
					if k := byID[n.id]; k != nil && (k.kind == "Container" || k.kind == "It") {
						conts = conts && n.level > prevC
						prevC = n.level
						continue
					}
					order = order && n.id > last[n.level]
					last[n.level] = n.id
				}
				sort.Strings(have)
				var wl []string
				for k, lv := range want {
					wl = append(wl, fmt.Sprintf("%d@%d", k, lv))
				}
				sort.Strings(wl)
				what := fmt.Sprintf("nodes of spec %d of %s", i+1, name)
				c.Check(strings.Join(have, " ") == strings.Join(wl, " "), what, fn.Pos(), e.St.Path(8), "tree %q: spec %d gets nodes (id@level) %v, its own are %v", name, i+1, have, wl)
				c.Check(order, "order of "+what, fn.Pos(), e.St.Path(8), "tree %q: the nodes of spec %d at one level are not in declaration order: %v", name, i+1, l)
				c.Check(conts, "containers of "+what, fn.Pos(), e.St.Path(8), "tree %q: the containers of spec %d are not outermost first: %v", name, i+1, l)
			}
		}
	}
	c.Floor(40)
}
