package rules

import (
	"fmt"
	"go/types"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

// l01identity: the record a spec starts with says which spec it is.
func l01identity(c *Ctx) {
	c.Rule("identity", "the record a spec is announced with names that spec: the texts, locations and labels of its containers from the outermost in, its own text, location and labels, and whether it is serial, ordered, and how often it may be attempted")
	fn := c.Fn("(*internal.group).initialReportForSpec")
	nodeT, specT, nodesT := c.Type("internal", "Node"), c.Type("internal", "Spec"), c.Type("internal", "Nodes")
	if fn == nil || nodeT == nil || specT == nil || len(fn.Params) != 2 {
		c.Undecided("how a spec's record begins is not understood")
		return
	}
	labT := fieldOfType(nodeT, "Labels")
	intT := types.Typ[types.Int]
	type nd struct {
		kind, text      string
		labels          []string
		ordered, serial bool
		flake, must     int
	}
	be := nd{kind: "BeforeEach", labels: nil}
	chains := map[string][]nd{
		"plain spec":         {{kind: "It", text: "it"}},
		"setup first":        {be, {kind: "It", text: "it", labels: []string{"z"}}},
		"two containers":     {{kind: "Container", text: "c1", labels: []string{"x", "y"}}, be, {kind: "Container", text: "c2", labels: []string{"q"}}, be, {kind: "It", text: "it", labels: []string{"z"}}},
		"serial container":   {be, {kind: "Container", text: "c1", serial: true}, {kind: "It", text: "it"}},
		"serial spec":        {{kind: "Container", text: "c1", labels: []string{"x"}}, {kind: "It", text: "it", serial: true, labels: []string{"z", "w"}}},
		"ordered container":  {{kind: "Container", text: "c1"}, {kind: "Container", text: "c2", ordered: true, labels: []string{"x"}}, be, {kind: "It", text: "it"}},
		"retried":            {{kind: "Container", text: "c1", flake: 3}, {kind: "It", text: "it"}},
		"retried, own count": {{kind: "Container", text: "c1", flake: 3}, {kind: "It", text: "it", flake: 2}},
		"repeated":           {{kind: "Container", text: "c1", must: 4}, {kind: "It", text: "it"}},
		"repeated, own":      {{kind: "Container", text: "c1", must: 4}, {kind: "It", text: "it", must: 2}},
	}
	for _, name := range sortedKeys(chains) {
		chain := chains[name]
		want := map[string]string{"IsSerial": "false", "IsInOrderedContainer": "false", "MaxFlakeAttempts": "0", "MaxMustPassRepeatedly": "0"}
		var texts, locs, labels []string
		for i, n := range chain {
			l := strings.Join(n.labels, " ")
			switch n.kind {
			case "Container":
				texts, locs, labels = append(texts, n.text), append(locs, fmt.Sprint(i+1)), append(labels, l)
			case "It":
				want["LeafNodeText"], want["LeafNodeLocation"], want["LeafNodeLabels"] = n.text, fmt.Sprint(i+1), l
			}
			if n.serial {
				want["IsSerial"] = "true"
			}
			if n.ordered {
				want["IsInOrderedContainer"] = "true"
			}
			if n.flake > 0 {
				want["MaxFlakeAttempts"] = fmt.Sprint(n.flake)
			}
			if n.must > 0 {
				want["MaxMustPassRepeatedly"] = fmt.Sprint(n.must)
			}
		}
		want["ContainerHierarchyTexts"], want["ContainerHierarchyLocations"], want["ContainerHierarchyLabels"] = strings.Join(texts, " "), strings.Join(locs, ","), strings.Join(labels, ",")
		nodesAt := engine.SliceAt("*nodes", len(chain), nodesT)
		args := []*engine.Val{engine.ParamSym(fn.Params[0]), engine.Agg(engine.Nil(specT), map[string]*engine.Val{"Nodes": nodesAt, "Skip": engine.BoolVal(false)}, specT)}
		var x *engine.Interp
		x = engine.New(c.P, engine.Cfg{Root: fn, Args: args, Linear: true, Budget: 40000, MaxDepth: 12, Concrete: func(*ssa.Phi) bool { return true },
			Init: func(st *engine.State) {
				for i, n := range chain {
					f := map[string]*engine.Val{"ID": engine.IntVal(int64(i+1), types.Typ[types.Uint]), "NodeType": c.ConstVal("types", "NodeType"+n.kind), "Text": strVal(n.text),
						"FlakeAttempts": engine.IntVal(int64(n.flake), intT), "MustPassRepeatedly": engine.IntVal(int64(n.must), intT), "MarkedOrdered": engine.BoolVal(n.ordered), "MarkedSerial": engine.BoolVal(n.serial)}
					clT := fieldOfType(nodeT, "CodeLocation")
					f["CodeLocation"] = engine.Agg(engine.Nil(clT), map[string]*engine.Val{"LineNumber": engine.IntVal(int64(i+1), intT)}, clT)
					if n.labels != nil {
						base := fmt.Sprintf("*labels%d", i)
						for j, l := range n.labels {
							x.Store(st, fmt.Sprintf("%s[%d]", base, j), strVal(l))
						}
						f["Labels"] = engine.SliceAt(base, len(n.labels), labT)
					}
					x.Store(st, fmt.Sprintf("*nodes[%d]", i), engine.Agg(engine.Nil(nodeT), f, nodeT))
				}
			}})
		c.Run(x)
		ends := 0
		for _, e := range x.Exits {
			if e.Kind == engine.ExitStop {
				continue
			}
			if e.Kind != engine.ExitReturn || e.Ret == nil {
				c.Undecided("%s: the record's beginning ends by %s", name, e.Kind)
				continue
			}
			ends++
			for _, f := range sortedKeys(want) {
				got, ok := l01show(x, e.St, x.FieldOf(e.St, e.Ret, f))
				if !ok {
					c.Undecided("%s: the record's %s is not known: %s", name, f, x.FieldOf(e.St, e.Ret, f).Key())
					continue
				}
				c.Check(got == want[f], f+" of "+name, fn.Pos(), e.St.Path(6), "%s: the record's %s is %q, the spec's is %q", name, f, got, want[f])
			}
		}
		if ends == 0 {
			c.Undecided("%s: the record's beginning is not known", name)
		}
	}
	c.Floor(100)
}

// l01show renders a field: lists of texts, locations by their line, and lists of lists.
func l01show(x *engine.Interp, st *engine.State, v *engine.Val) (string, bool) {
	if v == nil {
		return "", false
	}
	t := v.T
	if t == nil {
		return "", false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if v.IsNil() {
				return "", true
			}
			s, ok := renderText(v)
			return s, ok
		}
		if u.Info()&types.IsBoolean != 0 {
			if v.IsNil() {
				return "false", true
			}
			b, ok := v.Bool()
			return fmt.Sprint(b), ok
		}
		if v.IsNil() {
			return "0", true
		}
		n, ok := v.Int()
		return fmt.Sprint(n), ok
	case *types.Struct:
		return l01show(x, st, x.FieldOf(st, v, "LineNumber"))
	case *types.Slice:
		if v.IsNil() {
			return "", true
		}
		es, ok := x.Elems(st, v)
		if !ok && strings.HasPrefix(v.Key(), "empty(") {
			return "", true
		}
		if !ok {
			return "", false
		}
		sep := ","
		if _, in := u.Elem().Underlying().(*types.Basic); in {
			sep = " "
		}
		var out []string
		for _, e := range es {
			s, ok := l01show(x, st, e)
			if !ok {
				return "", false
			}
			out = append(out, s)
		}
		return strings.Join(out, sep), true
	}
	return "", false
}
