package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{ID: "K04", Technique: "equivalence of symbolic call records: every variant of a construct is interpreted next to its plain form and the node each would build compared; re-exports resolved through package initialisation; the tools' recognisers evaluated on every exported name",
		Note: "Constructs, variants and re-exports are discovered from the packages' scopes, so a new one is compared without further instruction.",
		Run:  k04})
}

func k04(c *Ctx) {
	c.Rule("variants", "an F-, P- or X-prefixed construct builds what the plain one builds from the same arguments, with exactly the focus or pending decoration added and the same source location")
	fam := k04variants(c)
	c.Floor(20)
	c.Rule("re-exports", "every name the shorthand packages share with the main package denotes the same type, constant, function or value")
	k04reexports(c)
	c.Floor(80)
	c.Rule("unfocus", "the unfocus tool recognises every focused variant and nothing else")
	k04unfocus(c, fam)
	c.Floor(15)
	c.Rule("outline", "the outline tool recognises every variant, with its kind, focus and pending mark")
	k04outline(c, fam)
	c.Floor(15)
}

// variant is one exported way to write a construct.
type variant struct {
	name, plain string
	mark        string // "", "Focus" or "Pending"
	spec        bool
}

func rootScope(c *Ctx) *types.Scope {
	for _, p := range c.P.SSA.AllPackages() {
		if c.P.ShortPkg(p.Pkg.Path()) == "." {
			return p.Pkg.Scope()
		}
	}
	return nil
}

// resolveGlobal is the function or package variable whose value a package variable holds from initialisation on.
func resolveGlobal(c *Ctx, pkg *ssa.Package, name string, depth int) (fn *ssa.Function, g *ssa.Global, ok bool) {
	switch m := pkg.Members[name].(type) {
	case *ssa.Function:
		return m, nil, true
	case *ssa.Global:
		return followGlobal(c, m, depth)
	}
	return nil, nil, false
}

func globalStores(c *Ctx) map[*ssa.Global][]*ssa.Store {
	if c.gstores != nil {
		return c.gstores
	}
	out := map[*ssa.Global][]*ssa.Store{}
	seen := map[*ssa.Function]bool{}
	scan := func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						out[g] = append(out[g], s)
					}
				}
			}
		}
	}
	for _, f := range c.P.Funcs {
		scan(f)
	}
	for _, pk := range c.P.SSA.AllPackages() {
		if strings.HasPrefix(pk.Pkg.Path(), "github.com/onsi/ginkgo") {
			scan(pk.Func("init"))
		}
	}
	c.gstores = out
	return out
}

func followGlobal(c *Ctx, g *ssa.Global, depth int) (*ssa.Function, *ssa.Global, bool) {
	if depth > 8 {
		return nil, nil, false
	}
	ss := globalStores(c)[g]
	if len(ss) != 1 || !strings.HasPrefix(ss[0].Parent().Name(), "init") {
		return nil, g, len(ss) == 0
	}
	v := ss[0].Val
	for {
		if ct, ok := v.(*ssa.ChangeType); ok {
			v = ct.X
			continue
		}
		break
	}
	switch v := v.(type) {
	case *ssa.Function:
		return v, nil, true
	case *ssa.UnOp:
		if h, ok := v.X.(*ssa.Global); ok {
			return followGlobal(c, h, depth+1)
		}
	}
	return nil, g, true
}

// buildRecord is what a construct does with its arguments: the node or table it asks for, in normalised form.
type buildRecord struct {
	calls []string
	ret   string
	lists []string // the marks found in argument lists
	pos   string
}

// record interprets a construct on symbolic arguments.
func record(c *Ctx, fn *ssa.Function) (rec *buildRecord, ok bool) {
	args := make([]*engine.Val, len(fn.Params))
	for i, p := range fn.Params {
		args[i] = engine.Sym(fmt.Sprintf("arg%d", i), p.Type())
		if _, isS := p.Type().Underlying().(*types.Slice); isS {
			args[i] = engine.SliceAt("*args", 2, p.Type())
		}
	}
	rec = &buildRecord{}
	marksOf := func(x *engine.Interp, st *engine.State, v *engine.Val) string {
		if v == nil {
			return "?"
		}
		if es, ok := x.Elems(st, v); ok && v.T != nil {
			if _, isS := v.T.Underlying().(*types.Slice); isS {
				var out []string
				for _, e := range es {
					key := e.Unbox().Key()
					if e.Unbox().T != nil {
						for _, m := range []string{"Focus", "Pending"} {
							if cv := c.ConstVal("internal", m); cv != nil && e.Unbox().IsConst() && cv.Key() == e.Unbox().Key() && types.Identical(cv.T, e.Unbox().T) {
								key = "decoration " + m
							}
						}
					}
					if strings.HasPrefix(key, "decoration ") {
						rec.lists = append(rec.lists, strings.TrimPrefix(key, "decoration "))
						continue
					}
					out = append(out, key)
				}
				return "[" + strings.Join(out, " ") + "]"
			}
		}
		return v.Unbox().Key()
	}
	depths := func(st *engine.State) int {
		d := st.Depth()
		for i := 1; i <= d; i++ {
			if st.Auto[fmt.Sprintf("h%d", i)] != "" {
				d--
			}
		}
		return d
	}
	note := func(k *engine.Call, name string) {
		var as []string
		for _, a := range k.Args {
			as = append(as, marksOf(k.X, k.St, a))
		}
		rec.calls = append(rec.calls, fmt.Sprintf("%s(%s)@%d", name, strings.Join(as, ", "), depths(k.St)))
	}
	var x *engine.Interp
	x = engine.New(c.P, engine.Cfg{Root: fn, Args: args, Linear: true, Budget: 3000,
		OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			switch {
			case strings.HasSuffix(k.Name, "ginkgo.GinkgoHelper") || k.Name == "GinkgoHelper" || strings.HasSuffix(k.Name, ".GinkgoHelper"):
				k.St.Auto[fmt.Sprintf("h%d", k.St.Depth())] = "1"
				return k.Return(engine.Nil(k.T)), true
			case strings.HasSuffix(k.Name, "internal.NewNode"), strings.HasSuffix(k.Name, ".generateTable"):
				note(k, k.Name)
				if k.T == nil {
					return k.Return(engine.Nil(k.T)), true
				}
				if tup, isT := k.T.(*types.Tuple); isT && tup.Len() == 2 {
					return k.Return(engine.Tuple(engine.Sym("the-node", tup.At(0).Type()), engine.Sym("the-errors", tup.At(1).Type()))), true
				}
				return k.Return(engine.Nil(k.T)), true
			case strings.HasSuffix(k.Name, "types.NewCodeLocation"):
				note(k, k.Name)
				return k.Return(engine.Sym("the-location", k.T)), true
			case strings.HasSuffix(k.Name, "internal.PartitionDecorations"):
				note(k, k.Name)
				tup := k.T.(*types.Tuple)
				k.X.Store(k.St, "*decorations[0]", engine.Sym("given-decoration", types.Universe.Lookup("any").Type()))
				return k.Return(engine.Tuple(engine.SliceAt("*decorations", 1, tup.At(0).Type()), engine.Sym("the-parameters", tup.At(1).Type()))), true
			case strings.HasSuffix(k.Name, ".pushNode"):
				note(k, k.Name)
				return k.Return(engine.Sym("pushed", k.T)), true
			}
			return nil, false
		}})
	c.Run(x)
	n := 0
	for _, e := range x.Exits {
		if e.Kind != engine.ExitReturn {
			continue
		}
		n++
		if e.Ret != nil && e.Ret.T != nil {
			if s, isS := e.Ret.T.Underlying().(*types.Struct); isS {
				var out []string
				for i := 0; i < s.NumFields(); i++ {
					out = append(out, s.Field(i).Name()+"="+marksOf(x, e.St, x.FieldOf(e.St, e.Ret, s.Field(i).Name())))
				}
				rec.ret = strings.Join(out, " ")
				continue
			}
		}
		if e.Ret != nil {
			rec.ret = e.Ret.Key()
		}
	}
	rec.pos = c.P.RelPos(fn.Pos())
	return rec, n == 1 && len(x.Undec) == 0 && len(rec.calls) > 0
}

func (r *buildRecord) key() string {
	calls := append([]string{}, r.calls...)
	sort.Strings(calls)
	return strings.Join(calls, "; ") + " -> " + r.ret
}

func k04variants(c *Ctx) []variant {
	sc := rootScope(c)
	if sc == nil {
		c.Undecided("the main package is not loaded")
		return nil
	}
	var pkg *ssa.Package
	for _, p := range c.P.SSA.AllPackages() {
		if p.Pkg.Scope() == sc {
			pkg = p
		}
	}
	isFunc := func(name string) (*types.Signature, bool) {
		o := sc.Lookup(name)
		if o == nil || !o.Exported() {
			return nil, false
		}
		if _, isT := o.(*types.TypeName); isT {
			return nil, false
		}
		s, ok := o.Type().Underlying().(*types.Signature)
		return s, ok
	}
	var fam []variant
	for _, name := range sc.Names() {
		sig, ok := isFunc(name)
		if !ok {
			continue
		}
		var mine []variant
		for pre, mark := range map[string]string{"F": "Focus", "P": "Pending", "X": "Pending"} {
			s, ok := isFunc(pre + name)
			if ok && types.Identical(s, sig) {
				mine = append(mine, variant{name: pre + name, plain: name, mark: mark})
			}
		}
		if len(mine) == 0 {
			continue
		}
		sort.Slice(mine, func(i, j int) bool { return mine[i].name < mine[j].name })
		pf, _, ok := resolveGlobal(c, pkg, name, 0)
		if !ok || pf == nil {
			c.Undecided("what %s denotes", name)
			continue
		}
		pr, ok := record(c, pf)
		if !ok {
			c.Undecided("what %s builds", name)
			continue
		}
		spec := strings.Contains(pr.key(), "internal.TableEntry") || strings.HasPrefix(pr.ret, "description=")
		if it := c.ConstVal("types", "NodeTypeIt"); it != nil && strings.Contains(pr.key(), ", "+it.Key()+",") {
			spec = true
		}
		fam = append(fam, variant{name: name, plain: name, spec: spec})
		c.Check(len(pr.lists) == 0, name+" adds nothing", pf.Pos(), nil, "%s adds the decoration %v", name, pr.lists)
		c.Check(len(mine) == 3, name+" has all variants", pf.Pos(), nil, "%s has the variants %v only", name, mine)
		for _, v := range mine {
			v.spec = spec
			fam = append(fam, v)
			f, _, ok := resolveGlobal(c, pkg, v.name, 0)
			if !ok || f == nil {
				c.Undecided("what %s denotes", v.name)
				continue
			}
			r, ok := record(c, f)
			if !ok {
				c.Undecided("what %s builds", v.name)
				continue
			}
			c.Check(strings.Join(r.lists, ",") == v.mark, v.name+" decoration", f.Pos(), nil, "%s adds the decorations %v, not %s", v.name, r.lists, v.mark)
			c.Check(r.key() == pr.key(), v.name+" builds what "+name+" builds", f.Pos(), nil, "%s builds %s; %s builds %s", v.name, r.key(), name, pr.key())
		}
	}
	return fam
}

func k04reexports(c *Ctx) {
	root := rootScope(c)
	if root == nil {
		return
	}
	var rootPkg *ssa.Package
	var dsl []*ssa.Package
	for _, p := range c.P.SSA.AllPackages() {
		switch s := c.P.ShortPkg(p.Pkg.Path()); {
		case p.Pkg.Scope() == root:
			rootPkg = p
		case strings.HasPrefix(s, "dsl/"):
			dsl = append(dsl, p)
		}
	}
	sort.Slice(dsl, func(i, j int) bool { return dsl[i].Pkg.Path() < dsl[j].Pkg.Path() })
	for _, p := range dsl {
		sc := p.Pkg.Scope()
		for _, name := range sc.Names() {
			o := sc.Lookup(name)
			if !o.Exported() {
				continue
			}
			w := root.Lookup(name)
			if w == nil {
				c.Ok("%s.%s has no counterpart", p.Pkg.Name(), name)
				continue
			}
			con := p.Pkg.Name() + "." + name
			switch o := o.(type) {
			case *types.TypeName:
				c.Check(types.Identical(o.Type(), w.Type()), con, o.Pos(), nil, "%s is the type %s, not %s", con, o.Type(), w.Type())
			case *types.Const:
				wc, ok := w.(*types.Const)
				c.Check(ok && types.Identical(o.Type(), w.Type()) && o.Val().ExactString() == wc.Val().ExactString(), con, o.Pos(), nil, "%s is not the constant of that name", con)
			default:
				f1, g1, ok1 := resolveGlobal(c, p, name, 0)
				f2, g2, ok2 := resolveGlobal(c, rootPkg, name, 0)
				if !ok1 || !ok2 {
					c.Undecided("what %s denotes", con)
					continue
				}
				show := func(f *ssa.Function, g *ssa.Global) string {
					if f != nil {
						return f.String()
					}
					return fmt.Sprint(g)
				}
				c.Check(f1 == f2 && g1 == g2, con, o.Pos(), nil, "%s denotes %s; in the main package it is %s", con, show(f1, g1), show(f2, g2))
			}
		}
	}
}

func k04unfocus(c *Ctx, fam []variant) {
	fn := c.Fn("ginkgo/unfocus.isFocus")
	if fn == nil {
		return
	}
	for _, v := range fam {
		x := engine.New(c.P, engine.Cfg{Root: fn, Linear: true, Budget: 2000, Args: []*engine.Val{engine.Const(constant.MakeString(v.name), types.Typ[types.String])}})
		c.Run(x)
		for _, e := range x.Exits {
			if e.Kind != engine.ExitReturn {
				continue
			}
			if b, ok := e.Ret.Bool(); ok {
				c.Check(b == (v.mark == "Focus"), "recognises "+v.name, fn.Pos(), e.St.Path(4), "unfocusing treats %s as focused: %v", v.name, b)
			} else {
				c.Undecided("whether %s is taken as focused", v.name)
			}
		}
	}
}

func k04outline(c *Ctx, fam []variant) {
	fn := c.Fn("ginkgo/outline.ginkgoNodeFromCallExpr")
	if fn == nil {
		return
	}
	for _, v := range fam {
		var x *engine.Interp
		named := false
		x = engine.New(c.P, engine.Cfg{Root: fn, Linear: true, Budget: 20000,
			Opaque: func(f *ssa.Function) bool { return true },
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				tup, isT := k.T.(*types.Tuple)
				switch {
				case strings.HasSuffix(k.Name, "packageAndIdentNamesFromCallExpr") && isT && tup.Len() == 3:
					named = true
					return k.Return(engine.Tuple(engine.Const(constant.MakeString("pkg"), tup.At(0).Type()), engine.Const(constant.MakeString(v.name), tup.At(1).Type()), engine.BoolVal(true))), true
				case strings.HasSuffix(k.Name, "pendingFromCallExpr"):
					return k.Return(engine.BoolVal(false)), true
				}
				return nil, false
			},
			Init: func(st *engine.State) {
				for _, p := range fn.Params {
					if engine.TypeStr(p.Type()) == "*string" {
						x.Store(st, "*"+p.Name(), engine.Const(constant.MakeString("pkg"), types.Typ[types.String]))
					}
				}
			}})
		c.Run(x)
		if !named {
			c.Undecided("how the outline tool finds the name of a call")
			return
		}
		for _, e := range x.Exits {
			if e.Kind != engine.ExitReturn || len(e.Ret.Args) < 2 {
				continue
			}
			ok, known := e.Ret.Args[1].Bool()
			if !known {
				// the package may be missing
				continue
			}
			loc, _ := x.Deref(e.Ret.Args[0])
			get := func(f string) (bool, bool) {
				if e.Ret.Args[0].IsNil() {
					return false, false
				}
				for _, l := range []string{loc + ".ginkgoMetadata." + f, loc + "." + f} {
					if b, ok := x.Load(e.St, l, types.Typ[types.Bool]).Bool(); ok {
						return b, true
					}
				}
				return false, false
			}
			if e.Ret.Args[0].IsNil() {
				c.Fail("outlines "+v.name, fn.Pos(), e.St.Path(6), "the outline does not recognise %s", v.name)
				continue
			}
			if !ok {
				continue
			}
			c.Ok("outlines %s", v.name)
			for f, want := range map[string]bool{"Spec": v.spec, "Focused": v.mark == "Focus", "Pending": v.mark == "Pending"} {
				if b, ok := get(f); ok {
					c.Check(b == want, "outlines "+v.name+" "+f, fn.Pos(), e.St.Path(6), "the outline marks %s as %s: %v", v.name, strings.ToLower(f), b)
				} else {
					c.Undecided("whether the outline marks %s as %s", v.name, f)
				}
			}
		}
	}
}
