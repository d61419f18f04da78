package rules

import (
	"fmt"
	"go/types"
	"strings"

	"ginkgoverif/engine"
)

// An abstract domain for ordered node lists. A list is a sequence of segments; a segment is the set of
// nodes of a source list with one of some kinds, in a known order.
type seg struct {
	src   string // "spec", "cleanup", "suite"
	kinds string // "BeforeAll+BeforeEach", sorted by declaration
	order string // "decl", "asc", "desc", "rev", "?"
	level bool   // restricted to a nesting level
	filt  bool   // filtered by a predicate
	first bool   // a single node: the first one
}

func (s seg) String() string {
	o := s.src + ":" + s.kinds + ":" + s.order
	if s.level {
		o += ":level"
	}
	if s.filt {
		o += ":filt"
	}
	if s.first {
		o += ":first"
	}
	return o
}

type nlist []seg

func (l nlist) String() string {
	var ss []string
	for _, s := range l {
		ss = append(ss, s.String())
	}
	return "NL{" + strings.Join(ss, "/") + "}"
}

func parseSegs(s string) nlist {
	var out nlist
	if s == "" {
		return out
	}
	for _, p := range strings.Split(s, "/") {
		f := strings.Split(p, ":")
		if len(f) < 3 {
			continue
		}
		g := seg{src: f[0], kinds: f[1], order: f[2]}
		for _, x := range f[3:] {
			switch x {
			case "level":
				g.level = true
			case "filt":
				g.filt = true
			case "first":
				g.first = true
			}
		}
		out = append(out, g)
	}
	return out
}

// listsIn reads the list structure out of a value's canonical name, in order.
func listsIn(key string) (nlist, bool) {
	var out nlist
	found := false
	for {
		i := strings.Index(key, "NL{")
		if i < 0 {
			return out, found
		}
		j := strings.Index(key[i:], "}")
		if j < 0 {
			return out, false
		}
		out = append(out, parseSegs(key[i+3:i+j])...)
		found = true
		key = key[i+j+1:]
	}
}

// kindNames maps a node-kind bit set to the names of its members.
func kindNames(c *Ctx, v *engine.Val) string {
	n, ok := v.Int()
	if !ok {
		return "?"
	}
	var ks []string
	for _, m := range c.P.EnumDomain(c.Type("types", "NodeType")) {
		if m.Val != 0 && m.Val&n == m.Val && m.Val&(m.Val-1) == 0 {
			ks = append(ks, strings.TrimPrefix(m.Name, "NodeType"))
		}
	}
	return strings.Join(ks, "+")
}

func unionKinds(l nlist) string {
	var ks []string
	seen := map[string]bool{}
	for _, s := range l {
		for _, k := range strings.Split(s.kinds, "+") {
			if !seen[k] {
				seen[k] = true
				ks = append(ks, k)
			}
		}
	}
	return strings.Join(ks, "+")
}

func intersectKinds(a, b string) string {
	if a == "*" {
		return b
	}
	in := setOf(strings.Split(b, "+"))
	var ks []string
	for _, k := range strings.Split(a, "+") {
		if in[k] {
			ks = append(ks, k)
		}
	}
	return strings.Join(ks, "+")
}

// nodeOps interprets operations on node lists in the abstract domain. src names the root lists by location suffix.
type nodeOps struct {
	c       *Ctx
	filters map[string]*engine.Val // filter predicates seen, by key
}

func (n *nodeOps) list(v *engine.Val) (nlist, bool) {
	key := v.Key()
	if v.IsNil() {
		return nil, true
	}
	if l, ok := listsIn(key); ok {
		return l, true
	}
	switch {
	case strings.HasSuffix(key, ".Nodes") || key == "nodes":
		return nlist{{src: "spec", kinds: "*", order: "decl"}}, true
	case strings.Contains(key, "cleanupNodes"):
		return nlist{{src: "cleanup", kinds: "*", order: "decl"}}, true
	case strings.Contains(key, "suiteNodes"):
		return nlist{{src: "suite", kinds: "*", order: "decl"}}, true
	}
	return nil, false
}

func nlSym(l nlist, t types.Type) *engine.Val { return engine.Sym(l.String(), t) }

func (n *nodeOps) call(k *engine.Call) ([]engine.Outcome, bool) {
	if k.Name == "builtin:append" && len(k.Args) == 2 && strings.HasSuffix(engine.TypeStr(k.T), "internal.Nodes") {
		a, ok := n.list(k.Args[0])
		if !ok {
			if es, known := k.X.Elems(k.St, k.Args[0]); known && len(es) == 0 {
				ok = true
			}
		}
		if !ok {
			return nil, false
		}
		var b nlist
		if es, known := k.X.Elems(k.St, k.Args[1]); known {
			for _, e := range es {
				l, ok := listsIn(e.Key())
				if !ok {
					return nil, false
				}
				// an element picked out of a list in a loop: the result is a filtered copy of that list
				for i := range l {
					if !l[i].first {
						l[i].filt = true
					}
				}
				if strings.HasSuffix(a.String(), strings.TrimPrefix(l.String(), "NL{")) && len(a) >= len(l) {
					l = nil
				}
				b = append(b, l...)
			}
		} else {
			l, ok := n.list(k.Args[1])
			if !ok {
				return nil, false
			}
			b = l
		}
		out := append(append(nlist{}, a...), b...)
		return k.Return(nlSym(out, k.T)), true
	}
	if !strings.HasPrefix(k.Name, "(internal.Nodes).") {
		return nil, false
	}
	l, ok := n.list(k.Args[0])
	if !ok {
		return nil, false
	}
	op := strings.TrimPrefix(k.Name, "(internal.Nodes).")
	out := append(nlist{}, l...)
	switch op {
	case "WithType":
		kn := kindNames(n.c, k.Args[1])
		for i := range out {
			out[i].kinds = intersectKinds(out[i].kinds, kn)
		}
	case "WithoutType":
		return nil, false
	case "FirstNodeWithType":
		kn := kindNames(n.c, k.Args[1])
		if len(out) != 1 {
			return nil, false
		}
		out[0].kinds = intersectKinds(out[0].kinds, kn)
		out[0].first = true
		return k.Return(engine.Sym("first("+out.String()+")", k.T)), true
	case "SortedByAscendingNestingLevel", "SortedByDescendingNestingLevel":
		o := "asc"
		if op == "SortedByDescendingNestingLevel" {
			o = "desc"
		}
		if len(out) > 0 {
			g := out[0]
			g.kinds = unionKinds(out)
			g.order = o
			for _, s := range out {
				g.filt = g.filt || s.filt
				g.level = g.level || s.level
			}
			out = nlist{g}
		}
	case "Reverse":
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
		for i := range out {
			switch out[i].order {
			case "decl":
				out[i].order = "rev"
			case "rev":
				out[i].order = "decl"
			default:
				out[i].order = "?"
			}
		}
	case "Clone":
	case "WithoutNode":
		for i := range out {
			out[i].filt = true
		}
	case "WithinNestingLevel":
		for i := range out {
			out[i].level = true
		}
		if k.St.Auto["nl.level"] == "" || k.St.Auto["nl.level"] == k.Args[1].Key() {
			k.St.Auto["nl.level"] = k.Args[1].Key()
		}
	case "Filter":
		for i := range out {
			out[i].filt = true
		}
		if n.filters == nil {
			n.filters = map[string]*engine.Val{}
		}
		n.filters[k.Args[1].Key()] = k.Args[1]
	default:
		return nil, false
	}
	return k.Return(nlSym(out, k.T)), true
}

var _ = fmt.Sprintf
