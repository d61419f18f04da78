package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{
		ID:        "O06",
		Technique: "interprocedural string-provenance dataflow over every printf-style call of the module, constant evaluation of the TeamCity escaper, and a must-lockset on the console writer",
		Note:      "Strings are followed through concatenation, phis, calls, closures, parameters, fields and globals. The formatter's {{...}} style tags are interpreted in text by design and are not format verbs. Formats that users pass to printf-style entry points are theirs.",
		Run:       o06,
	})
}

// textFlow answers where the text of a string value can come from.
type textFlow struct {
	c     *Ctx
	rets  map[string]map[string]ssa.Value
	busy  map[string]bool
	sinks map[*ssa.Function]*fmtSink
	depth int
}

// fmtSink is a function that uses one of its parameters as a printf-style format.
type fmtSink struct {
	format, args int  // parameter indices, receiver included
	guarded      bool // only formats when there are arguments
}

var fmtBase = map[string]fmtSink{
	"fmt.Printf": {0, 1, false}, "fmt.Sprintf": {0, 1, false}, "fmt.Errorf": {0, 1, false}, "fmt.Fprintf": {1, 2, false}, "fmt.Appendf": {1, 2, false},
	"log.Printf": {0, 1, false}, "log.Fatalf": {0, 1, false}, "log.Panicf": {0, 1, false},
	"(*log.Logger).Printf": {1, 2, false}, "(*log.Logger).Fatalf": {1, 2, false}, "(*log.Logger).Panicf": {1, 2, false},
}

// origins: "param" entries carry the parameter, "taint:..." entries are text the module does not choose, "?..." entries are not understood.
type origins map[string]ssa.Value

func (o origins) add(other origins) {
	for k, v := range other {
		o[k] = v
	}
}

func (o origins) list(prefix string) []string {
	var out []string
	for _, k := range sortedKeys(o) {
		if strings.HasPrefix(k, prefix) {
			out = append(out, strings.TrimPrefix(k, prefix))
		}
	}
	return out
}

func one(kind string, v ssa.Value) origins { return origins{kind: v} }

// quietType: text made from such a value holds no format verb.
func quietType(t types.Type) bool {
	if b, ok := t.Underlying().(*types.Basic); ok {
		if b.Info()&(types.IsNumeric|types.IsBoolean) == 0 {
			return false
		}
		n, isNamed := t.(*types.Named)
		if !isNamed {
			return true
		}
		p := ""
		if n.Obj().Pkg() != nil {
			p = n.Obj().Pkg().Path()
		}
		return p == "time" || p == "os" || p == "io/fs"
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time"
}

func (f *textFlow) of(v ssa.Value, seen map[ssa.Value]bool) origins {
	out := origins{}
	if v == nil || seen[v] {
		return out
	}
	seen[v] = true
	if quietType(v.Type()) {
		return out
	}
	switch v := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return out
	case *ssa.BinOp:
		if v.Op == token.ADD {
			out.add(f.of(v.X, seen))
			out.add(f.of(v.Y, seen))
			return out
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			out.add(f.of(e, seen))
		}
		return out
	case *ssa.Parameter:
		return one("param:"+v.Parent().RelString(nil)+"."+v.Name(), v)
	case *ssa.FreeVar:
		fn := v.Parent()
		mc := f.c.P.ClosureOf(fn)
		if mc == nil {
			return one("?captured "+v.Name(), v)
		}
		for i, fv := range fn.FreeVars {
			if fv == v {
				return f.of(mc.Bindings[i], seen)
			}
		}
	case *ssa.ChangeType:
		return f.of(v.X, seen)
	case *ssa.MakeInterface:
		return f.of(v.X, seen)
	case *ssa.ChangeInterface:
		return f.of(v.X, seen)
	case *ssa.TypeAssert:
		// a type of its own whose methods format with it, such as a table's EntryDescription, says that the text is a format
		if n, ok := v.AssertedType.(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), f.c.P.Module) {
			for i := 0; i < n.NumMethods(); i++ {
				if s := f.sinks[f.c.P.SSA.FuncValue(n.Method(i))]; s != nil && s.format == 0 {
					return out
				}
			}
		}
		return f.of(v.X, seen)
	case *ssa.Convert:
		return f.of(v.X, seen)
	case *ssa.SliceToArrayPointer:
		return f.of(v.X, seen)
	case *ssa.Slice:
		return f.of(v.X, seen)
	case *ssa.MakeSlice, *ssa.MakeMap:
		return out
	case *ssa.MakeClosure:
		return out
	case *ssa.Alloc:
		f.stored(v, out, seen)
		return out
	case *ssa.FieldAddr:
		return f.field(v.X.Type(), v.Field, v, seen)
	case *ssa.Field:
		return f.field(v.X.Type(), v.Field, v, seen)
	case *ssa.IndexAddr:
		return f.of(v.X, seen)
	case *ssa.Index:
		return f.of(v.X, seen)
	case *ssa.Lookup:
		return f.of(v.X, seen)
	case *ssa.Range:
		return f.of(v.X, seen)
	case *ssa.Next:
		return f.of(v.Iter, seen)
	case *ssa.Extract:
		if call, ok := v.Tuple.(*ssa.Call); ok {
			return f.call(call, v.Index, seen)
		}
		return f.of(v.Tuple, seen)
	case *ssa.UnOp:
		return f.of(v.X, seen)
	case *ssa.Global:
		return f.global(v, seen)
	case *ssa.Call:
		return f.call(v, 0, seen)
	}
	return one(fmt.Sprintf("?%T", v), v)
}

// stored collects what is stored through an address of this function.
func (f *textFlow) stored(a ssa.Value, out origins, seen map[ssa.Value]bool) {
	refs := a.Referrers()
	if refs == nil {
		return
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == a {
				out.add(f.of(r.Val, seen))
			}
		case *ssa.IndexAddr:
			if r.X == a {
				f.stored(r, out, seen)
			}
		case *ssa.FieldAddr:
			if r.X == a {
				f.stored(r, out, seen)
			}
		case *ssa.MapUpdate:
			if r.Map == a {
				out.add(f.of(r.Value, seen))
			}
		}
	}
}

func (f *textFlow) field(t types.Type, i int, at ssa.Value, seen map[ssa.Value]bool) origins {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return one("?field", at)
	}
	fld := s.Field(i)
	n, named := t.(*types.Named)
	pkg := ""
	if named && n.Obj().Pkg() != nil {
		pkg = n.Obj().Pkg().Path()
	}
	name := engine.TypeStr(t) + "." + fld.Name()
	if !strings.HasPrefix(pkg, f.c.P.Module) && pkg != "" {
		return one("taint:field "+name, at)
	}
	if named && n.Obj().Exported() && fld.Exported() && !strings.Contains(pkg, "/internal") && s.NumFields() > 0 && s.Tag(i) == "" && f.userFills(n, fld) {
		return one("taint:field "+name, at)
	}
	out := origins{}
	stores := f.c.P.FieldStores(f.c.P.Funcs, f.c.P.FieldID(t, i))
	if len(stores) == 0 {
		return one("?field "+name, at)
	}
	for _, st := range stores {
		out.add(f.of(st.Val, seen))
	}
	return out
}

// userFills: types of the public packages that users, or decoded reports, fill. Types only the module builds are followed to their stores.
func (f *textFlow) userFills(n *types.Named, fld *types.Var) bool {
	switch n.Obj().Name() {
	case "SpecReport", "Report", "Failure", "AdditionalFailure", "ReportEntry", "ReportEntryValue", "CodeLocation", "SpecEvent", "ProgressReport", "Goroutine", "FunctionCall", "SuiteConfig", "ReporterConfig", "CLIConfig", "GoFlagsConfig":
		return true
	}
	return false
}

func (f *textFlow) global(g *ssa.Global, seen map[ssa.Value]bool) origins {
	if g.Pkg == nil || !f.c.P.InModule(g.Pkg.Func("init")) {
		return one("taint:global "+g.String(), g)
	}
	out := origins{}
	n := 0
	for _, fn := range append(f.c.P.Funcs[:len(f.c.P.Funcs):len(f.c.P.Funcs)], g.Pkg.Func("init")) {
		if fn == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != g {
						continue
					}
					switch in := in.(type) {
					case *ssa.Store:
						if in.Addr == g {
							n++
							out.add(f.of(in.Val, seen))
						}
					case *ssa.IndexAddr:
						f.stored(in, out, seen)
					case *ssa.FieldAddr:
						f.stored(in, out, seen)
					case *ssa.MapUpdate:
						out.add(f.of(in.Value, seen))
					}
				}
			}
		}
	}
	if n == 0 {
		return one("?global "+g.Name(), g)
	}
	return out
}

func (f *textFlow) call(call *ssa.Call, result int, seen map[ssa.Value]bool) origins {
	out := origins{}
	com := call.Common()
	if com.IsInvoke() {
		if com.Method.Name() == "Error" && com.Method.Type().(*types.Signature).Params().Len() == 0 {
			return one("taint:the text of an error", call)
		}
		fns := f.c.P.Callees(call)
		if len(fns) == 0 {
			return one("taint:"+com.Method.Name()+"()", call)
		}
		for _, fn := range fns {
			out.add(f.result(fn, append([]ssa.Value{com.Value}, com.Args...), result, seen))
		}
		return out
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			for _, a := range com.Args {
				out.add(f.of(a, seen))
			}
			return out
		}
		if b.Name() == "recover" {
			return one("taint:a recovered panic", call)
		}
		return one("?"+b.Name(), call)
	}
	fn := com.StaticCallee()
	if fn == nil {
		fns := f.c.P.Callees(call)
		if len(fns) == 0 {
			return one("?call", call)
		}
		for _, fn := range fns {
			out.add(f.result(fn, com.Args, result, seen))
		}
		return out
	}
	return f.result(fn, com.Args, result, seen)
}

func (f *textFlow) result(fn *ssa.Function, args []ssa.Value, result int, seen map[ssa.Value]bool) origins {
	out := origins{}
	if !f.c.P.InModule(fn) || len(fn.Blocks) == 0 {
		name := f.c.P.CalleeName(fn)
		pkg := ""
		if fn.Pkg != nil {
			pkg = fn.Pkg.Pkg.Path()
		} else if o := fn.Object(); o != nil && o.Pkg() != nil {
			pkg = o.Pkg().Path()
		}
		switch pkg {
		case "fmt", "strings", "regexp", "path", "path/filepath", "strconv", "slices", "bytes", "sort", "unicode", "maps", "errors":
			if name == "filepath.Abs" || name == "path/filepath.Abs" {
				break
			}
			for _, a := range args {
				if strings.Contains(a.Type().String(), "regexp.Regexp") {
					continue
				}
				out.add(f.of(a, seen))
			}
			return out
		case "time", "math":
			return out
		case "reflect", "runtime":
			return one("taint:"+name, fn)
		}
		return one("taint:"+name, fn)
	}
	key := fmt.Sprintf("%s#%d", fn.RelString(nil), result)
	sum, done := f.rets[key]
	if !done {
		if f.busy[key] {
			return out
		}
		f.busy[key] = true
		s := origins{}
		for _, b := range fn.Blocks {
			if len(b.Instrs) == 0 {
				continue
			}
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && result < len(r.Results) {
				s.add(f.of(r.Results[result], map[ssa.Value]bool{}))
			}
		}
		delete(f.busy, key)
		if len(f.busy) == 0 {
			f.rets[key] = s
		}
		sum = s
	}
	for k, v := range sum {
		if p, ok := v.(*ssa.Parameter); ok && strings.HasPrefix(k, "param:") && p.Parent() == fn {
			for i, q := range fn.Params {
				if q == p && i < len(args) {
					out.add(f.of(args[i], seen))
				}
			}
			continue
		}
		out[k] = v
	}
	return out
}

// sinkOf returns how the call formats, if it does.
func (f *textFlow) sinkOf(ci ssa.CallInstruction) (s *fmtSink, args []ssa.Value) {
	com := ci.Common()
	if fn := com.StaticCallee(); fn != nil {
		if b, ok := fmtBase[f.c.P.CalleeName(fn)]; ok {
			return &b, com.Args
		}
		return f.sinks[fn], com.Args
	}
	if !com.IsInvoke() {
		return nil, nil
	}
	for _, fn := range f.c.P.Callees(ci) {
		if s := f.sinks[fn]; s != nil {
			return s, append([]ssa.Value{com.Value}, com.Args...)
		}
	}
	// an interface of the standard library or the user with a printf-shaped method
	return nil, nil
}

// underLen: the instruction only runs when the list has elements.
func underLen(in ssa.Instruction, list ssa.Value) bool {
	for b := in.Block(); b != nil; b = b.Idom() {
		id := b.Idom()
		if id == nil || len(id.Instrs) == 0 {
			continue
		}
		iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		lens := func(v ssa.Value) bool {
			call, ok := v.(*ssa.Call)
			if !ok {
				return false
			}
			bi, ok := call.Common().Value.(*ssa.Builtin)
			return ok && bi.Name() == "len" && call.Common().Args[0] == list
		}
		if !lens(cmp.X) && !lens(cmp.Y) {
			continue
		}
		zero := func(v ssa.Value) bool {
			k, ok := v.(*ssa.Const)
			return ok && k.Value != nil && constant.Sign(k.Value) == 0
		}
		one := func(v ssa.Value) bool {
			k, ok := v.(*ssa.Const)
			return ok && k.Value != nil && constant.Compare(k.Value, token.EQL, constant.MakeInt64(1))
		}
		some := -1 // which successor has elements
		switch {
		case lens(cmp.X) && zero(cmp.Y) && (cmp.Op == token.GTR || cmp.Op == token.NEQ), lens(cmp.X) && one(cmp.Y) && cmp.Op == token.GEQ,
			lens(cmp.Y) && zero(cmp.X) && (cmp.Op == token.LSS || cmp.Op == token.NEQ):
			some = 0
		case lens(cmp.X) && zero(cmp.Y) && (cmp.Op == token.EQL || cmp.Op == token.LEQ), lens(cmp.X) && one(cmp.Y) && cmp.Op == token.LSS,
			lens(cmp.Y) && zero(cmp.X) && cmp.Op == token.EQL:
			some = 1
		}
		if some >= 0 && id.Succs[some].Dominates(in.Block()) && len(id.Succs[some].Preds) == 1 {
			return true
		}
	}
	return false
}

func o06(c *Ctx) {
	f := &textFlow{c: c, rets: map[string]map[string]ssa.Value{}, busy: map[string]bool{}, sinks: map[*ssa.Function]*fmtSink{}}
	inScope := func(fn *ssa.Function) bool {
		n := c.P.CalleeName(topFn(fn))
		return !strings.Contains(n, "internal/test_helpers")
	}
	type site struct {
		fn   *ssa.Function
		ci   ssa.CallInstruction
		s    *fmtSink
		args []ssa.Value
		from origins
	}
	wrapperOf := func(st site) *fmtSink {
		// the enclosing function passes its own variadic list on
		list, ok := st.args[st.s.args].(*ssa.Parameter)
		if !ok || !st.fn.Signature.Variadic() || st.fn.Params[len(st.fn.Params)-1] != list {
			return nil
		}
		for i, p := range st.fn.Params {
			k := "param:" + p.Parent().RelString(nil) + "." + p.Name()
			if _, has := st.from[k]; has && i < len(st.fn.Params)-1 {
				return &fmtSink{format: i, args: len(st.fn.Params) - 1, guarded: st.s.guarded || underLen(st.ci.(ssa.Instruction), list)}
			}
		}
		return nil
	}
	var sites []site
	for round := 0; round < 8; round++ {
		sites = nil
		grew := false
		for _, fn := range c.P.Funcs {
			if !inScope(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					s, args := f.sinkOf(ci)
					if s == nil || s.args >= len(args) {
						continue
					}
					st := site{fn, ci, s, args, f.of(args[s.format], map[ssa.Value]bool{})}
					if w := wrapperOf(st); w != nil && f.sinks[fn] == nil {
						f.sinks[fn] = w
						grew = true
					}
					sites = append(sites, st)
				}
			}
		}
		if !grew {
			break
		}
	}
	c.Rule("formats", "the format operand of every printf-style call of the module, and of every call to a function that passes its own format on, is built from constants only")
	wrappers := 0
	for fn := range f.sinks {
		c.Funcs[c.P.CalleeName(fn)] = true
		wrappers++
	}
	var judge func(st site, from origins, label string, depth int)
	judge = func(st site, from origins, label string, depth int) {
		w := f.sinks[st.fn]
		for _, t := range from.list("taint:") {
			c.Fail(label, st.ci.Pos(), nil, "the format passed to %s is built from %s", calleeLabel(c, st.ci), t)
		}
		for _, t := range from.list("?") {
			c.Undecided("%s: the format is built from something not understood: %s", label, t)
		}
		for _, k := range from.list("param:") {
			p, _ := from["param:"+k].(*ssa.Parameter)
			if p == nil {
				continue
			}
			fn := p.Parent()
			if w != nil && fn == st.fn && fn.Params[w.format] == p {
				continue // a wrapper: its callers are judged
			}
			if depth > 6 {
				c.Undecided("%s: parameters too deep", label)
				continue
			}
			calls := c.P.Callers(fn)
			if public(c, fn) {
				c.Fail(label, st.ci.Pos(), nil, "the format passed to %s is the argument %s of %s, which is not its format", calleeLabel(c, st.ci), p.Name(), c.P.CalleeName(fn))
				continue
			}
			idx := -1
			for i, q := range fn.Params {
				if q == p {
					idx = i
				}
			}
			for _, r := range calls {
				if !inScope(r.Caller) {
					continue
				}
				com := r.Instr.Common()
				args := com.Args
				if com.IsInvoke() {
					args = append([]ssa.Value{com.Value}, args...)
				}
				if idx < 0 || idx >= len(args) {
					continue
				}
				judge(site{fn: r.Caller, ci: st.ci, s: st.s, args: st.args}, f.of(args[idx], map[ssa.Value]bool{}), label+" < "+c.P.CalleeName(r.Caller), depth+1)
			}
		}
		if len(from) == 0 || w != nil {
			c.Ok("%s: the format is constant text", label)
		}
	}
	perFn := map[string]int{}
	for _, st := range sites {
		k, isK := st.args[st.s.args].(*ssa.Const)
		empty := isK && k.IsNil()
		name := c.P.CalleeName(st.fn)
		c.Funcs[name] = true
		perFn[name]++
		label := fmt.Sprintf("%s in %s", calleeLabel(c, st.ci), name)
		if empty && st.s.guarded {
			c.Ok("%s: no arguments, text is not formatted", label)
			continue
		}
		judge(st, st.from, label, 0)
	}
	c.Floor(300)
	o06teamcity(c, f, inScope)
	o06writer(c)
}

func calleeLabel(c *Ctx, ci ssa.CallInstruction) string {
	if fn := ci.Common().StaticCallee(); fn != nil {
		return c.P.CalleeName(fn)
	}
	if ci.Common().IsInvoke() {
		return "invoke " + ci.Common().Method.Name()
	}
	return "call"
}

// public: users can call the function with any argument.
func public(c *Ctx, fn *ssa.Function) bool {
	o := fn.Object()
	if o == nil || !o.Exported() || o.Pkg() == nil {
		return false
	}
	short := c.P.ShortPkg(o.Pkg().Path())
	if strings.HasPrefix(short, "internal") || strings.HasPrefix(short, "ginkgo/") || strings.Contains(short, "/internal") {
		return false
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && !n.Obj().Exported() {
			return false
		}
	}
	return true
}

// ---- TeamCity ----

var tcMeta = []struct{ in, out string }{{"|", "||"}, {"'", "|'"}, {"\n", "|n"}, {"\r", "|r"}, {"[", "|["}, {"]", "|]"}, {"a]]b|||c''\n\n\r\r[[x]", "a|]|]b||||||c|'|'|n|n|r|r|[|[x|]"}, {"a|'\n\r[]|n%s{{red}}", "a|||'|n|r|[|]||n%s{{red}}"}}

// o06escapes evaluates the function on every metacharacter.
func o06escapes(c *Ctx, fn *ssa.Function) (escaper bool, wrong string, understood bool) {
	str := types.Typ[types.String]
	understood = true
	for _, m := range tcMeta {
		var x *engine.Interp
		x = engine.New(c.P, engine.Cfg{Root: fn, Args: []*engine.Val{engine.Const(constant.MakeString(m.in), str)}, Linear: true, Budget: 4000, OnBranch: onKnownBranch, OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			lit := func(i int) (string, bool) {
				if i >= len(k.Args) {
					return "", false
				}
				return k.Args[i].Str()
			}
			switch k.Name {
			case "strings.ReplaceAll", "strings.Replace":
				a, o1 := lit(0)
				b, o2 := lit(1)
				d, o3 := lit(2)
				if o1 && o2 && o3 {
					n := -1
					if k.Name == "strings.Replace" {
						m, ok := k.Args[3].Int()
						if !ok {
							return nil, false
						}
						n = int(m)
					}
					return k.Return(engine.Const(constant.MakeString(strings.Replace(a, b, d, n)), str)), true
				}
			case "(*strings.Replacer).Replace":
				if es := replacerOf(c.P, k); es != nil {
					if a, ok := lit(1); ok {
						return k.Return(engine.Const(constant.MakeString(strings.NewReplacer(es...).Replace(a)), str)), true
					}
				}
			}
			return nil, false
		}})
		c.Run(x)
		got, ok := "", false
		if len(x.Exits) == 1 && x.Exits[0].Ret != nil {
			got, ok = x.Exits[0].Ret.Str()
		}
		if !ok {
			return false, "", false
		}
		if got != m.in {
			escaper = true
		}
		if got != m.out && wrong == "" {
			wrong = fmt.Sprintf("%q becomes %q, not %q", m.in, got, m.out)
		}
	}
	return escaper, wrong, understood
}

// replacerOf finds the constant pairs a strings.Replacer was built with.
func replacerOf(p *engine.Prog, k *engine.Call) []string {
	ci, ok := k.Instr.(ssa.CallInstruction)
	if !ok || len(ci.Common().Args) == 0 {
		return nil
	}
	var build *ssa.Call
	var find func(v ssa.Value, d int)
	find = func(v ssa.Value, d int) {
		if d > 6 {
			return
		}
		switch v := v.(type) {
		case *ssa.Call:
			if fn := v.Common().StaticCallee(); fn != nil && p.CalleeName(fn) == "strings.NewReplacer" {
				build = v
			}
		case *ssa.UnOp:
			if g, ok := v.X.(*ssa.Global); ok {
				for _, b := range g.Pkg.Func("init").Blocks {
					for _, in := range b.Instrs {
						if s, ok := in.(*ssa.Store); ok && s.Addr == g {
							find(s.Val, d+1)
						}
					}
				}
			}
		}
	}
	find(ci.Common().Args[0], 0)
	if build == nil {
		return nil
	}
	sl, ok := build.Common().Args[0].(*ssa.Slice)
	if !ok {
		return nil
	}
	a, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	vals := map[int64]string{}
	for _, r := range *a.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		i, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		for _, r2 := range *ia.Referrers() {
			if s, ok := r2.(*ssa.Store); ok {
				kc, ok := s.Val.(*ssa.Const)
				if !ok || kc.Value == nil {
					return nil
				}
				vals[i.Int64()] = constant.StringVal(kc.Value)
			}
		}
	}
	out := make([]string, len(vals))
	for i := range out {
		out[i] = vals[int64(i)]
	}
	if len(out)%2 != 0 {
		return nil
	}
	return out
}

func o06teamcity(c *Ctx, f *textFlow, inScope func(*ssa.Function) bool) {
	c.Rule("teamcity", "every text that is put between the quotes of a TeamCity service message has been through a function that escapes each of the metacharacters | ' \\n \\r [ ]")
	escapers := map[*ssa.Function]bool{}
	isEscaper := func(fn *ssa.Function) bool {
		if fn == nil || !c.P.InModule(fn) || len(fn.Params) != 1 || fn.Signature.Results().Len() != 1 {
			return false
		}
		if !types.Identical(fn.Params[0].Type(), types.Typ[types.String]) || !types.Identical(fn.Signature.Results().At(0).Type(), types.Typ[types.String]) {
			return false
		}
		if ok, done := escapers[fn]; done {
			return ok
		}
		escapers[fn] = false
		esc, wrong, understood := o06escapes(c, fn)
		switch {
		case !understood:
			if strings.Contains(strings.ToLower(fn.Name()), "escape") {
				c.Undecided("%s is not understood", c.P.CalleeName(fn))
				escapers[fn] = true
			}
		case esc:
			escapers[fn] = true
			c.Check(wrong == "", "escaper "+c.P.CalleeName(fn), fn.Pos(), nil, "%s", wrong)
		}
		return escapers[fn]
	}
	n := 0
	var safe func(v ssa.Value, seen map[ssa.Value]bool) (ok bool, why string)
	safe = func(v ssa.Value, seen map[ssa.Value]bool) (bool, string) {
		if seen[v] {
			return true, ""
		}
		seen[v] = true
		if quietType(v.Type()) {
			return true, ""
		}
		switch v := v.(type) {
		case *ssa.Const:
			if v.Value != nil && v.Value.Kind() == constant.String && strings.ContainsAny(constant.StringVal(v.Value), "|'\n\r[]") {
				return false, "the constant " + v.Value.ExactString()
			}
			return true, ""
		case *ssa.MakeInterface:
			return safe(v.X, seen)
		case *ssa.ChangeType:
			return safe(v.X, seen)
		case *ssa.Phi:
			for _, e := range v.Edges {
				if ok, why := safe(e, seen); !ok {
					return false, why
				}
			}
			return true, ""
		case *ssa.BinOp:
			if v.Op == token.ADD {
				for _, e := range []ssa.Value{v.X, v.Y} {
					if ok, why := safe(e, seen); !ok {
						return false, why
					}
				}
				return true, ""
			}
		case *ssa.UnOp:
			if a, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == a {
						if ok, why := safe(s.Val, seen); !ok {
							return false, why
						}
					}
				}
				return true, ""
			}
		case *ssa.Parameter:
			fn := v.Parent()
			if public(c, fn) {
				return false, "the argument " + v.Name() + " of " + c.P.CalleeName(fn)
			}
			for i, p := range fn.Params {
				if p != v {
					continue
				}
				for _, r := range c.P.Callers(fn) {
					if i < len(r.Instr.Common().Args) {
						if ok, why := safe(r.Instr.Common().Args[i], seen); !ok {
							return false, why
						}
					}
				}
			}
			return true, ""
		case *ssa.Call:
			fn := v.Common().StaticCallee()
			if isEscaper(fn) {
				return true, ""
			}
			if fn != nil && (c.P.CalleeName(fn) == "(*strings.Replacer).Replace" || strings.HasPrefix(c.P.CalleeName(fn), "strings.Replace")) {
				return true, "" // escaped in place: not followed
			}
			if fn != nil && fn.Signature.Recv() != nil && len(v.Common().Args) == 1 {
				if b, ok := fn.Signature.Recv().Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					return true, "" // the name of an enumerator is text of the module's own
				}
			}
			if fn != nil && c.P.InModule(fn) && len(fn.Blocks) > 0 && fn.Signature.Results().Len() == 1 {
				for _, b := range fn.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						if ok, why := safe(r.Results[0], seen); !ok {
							return false, "the result of " + c.P.CalleeName(fn) + " (" + why + ")"
						}
					}
				}
				return true, ""
			}
			if fn != nil && c.P.CalleeName(fn) == "fmt.Sprintf" {
				for _, e := range variadicElems(v.Common().Args[1]) {
					if ok, why := safe(e, seen); !ok {
						return false, why
					}
				}
				return safe(v.Common().Args[0], seen)
			}
			return false, "the result of " + calleeLabel(c, v)
		}
		return false, describe(c, v)
	}
	for _, fn := range c.P.Funcs {
		if !inScope(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := ci.Common()
				cal := com.StaticCallee()
				if cal == nil || len(com.Args) < 2 {
					continue
				}
				s, args := f.sinkOf(ci)
				if s == nil || s.args >= len(args) {
					continue
				}
				fk, ok := args[s.format].(*ssa.Const)
				if !ok || fk.Value == nil || fk.Value.Kind() != constant.String || !strings.Contains(constant.StringVal(fk.Value), "##teamcity[") {
					continue
				}
				format := constant.StringVal(fk.Value)
				label := "message " + teamcityName(format) + " in " + c.P.CalleeName(fn)
				c.Funcs[c.P.CalleeName(fn)] = true
				n++
				es := variadicElems(args[s.args])
				verbs := verbsOf(format)
				if len(es) != len(verbs) {
					c.Undecided("%s: the arguments are not understood", label)
					continue
				}
				for i, e := range es {
					if verbs[i] == "d" {
						c.Ok("%s argument %d: a number", label, i+1)
						continue
					}
					good, why := safe(e, map[ssa.Value]bool{})
					c.Check(good, fmt.Sprintf("%s argument %d", label, i+1), ci.Pos(), nil, "the text of %%%s comes from %s without being escaped", verbs[i], why)
				}
				c.Check(strings.HasSuffix(format, "]\n"), label+" ends", ci.Pos(), nil, "the message %q does not end its line", format)
			}
		}
	}
	if n == 0 {
		c.Undecided("no TeamCity service message found")
	}
	c.Floor(20)
}

func describe(c *Ctx, v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.UnOp:
		return describe(c, v.X)
	case *ssa.FieldAddr:
		return "the field " + c.P.FieldID(v.X.Type(), v.Field)
	case *ssa.Field:
		return "the field " + c.P.FieldID(v.X.Type(), v.Field)
	}
	return v.Name()
}

func teamcityName(format string) string {
	s := strings.TrimPrefix(format, "##teamcity[")
	if i := strings.IndexAny(s, " ]"); i >= 0 {
		s = s[:i]
	}
	return s
}

func verbsOf(format string) []string {
	var out []string
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("0123456789.+-# ", format[j]) >= 0 {
			j++
		}
		if j < len(format) && format[j] != '%' {
			out = append(out, format[j:j+1])
		}
		i = j
	}
	return out
}

// variadicElems are the values of a variadic argument built at the call.
func variadicElems(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	a, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	got := map[int64]ssa.Value{}
	for _, r := range *a.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		i, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		for _, r2 := range *ia.Referrers() {
			if s, ok := r2.(*ssa.Store); ok && s.Addr == ia {
				got[i.Int64()] = s.Val
			}
		}
	}
	var keys []int64
	for i := range got {
		keys = append(keys, i)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	var out []ssa.Value
	for _, i := range keys {
		out = append(out, got[i])
	}
	return out
}

// ---- the console writer ----

func o06writer(c *Ctx) {
	c.Rule("one block at a time", "every write to the console writer of a reporter happens with the reporter's lock held, so what one call emits is not mixed with what another goroutine emits")
	li := c.P.Locks()
	typ, _ := c.Type("reporters", "DefaultReporter").(*types.Named)
	if typ == nil {
		c.Undecided("no DefaultReporter")
		return
	}
	s, _ := typ.Underlying().(*types.Struct)
	if s == nil {
		return
	}
	writers := map[string]bool{}
	for i := 0; i < s.NumFields(); i++ {
		if engine.TypeStr(s.Field(i).Type()) == "io.Writer" {
			writers[c.P.FieldID(typ, i)] = true
		}
	}
	if len(writers) == 0 {
		c.Undecided("DefaultReporter has no writer")
		return
	}
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				var ops []ssa.Value
				if ci.Common().IsInvoke() {
					ops = append(ops, ci.Common().Value)
				}
				ops = append(ops, ci.Common().Args...)
				hit := false
				for _, o := range ops {
					hit = hit || loadsField(c, o, writers)
				}
				if !hit {
					continue
				}
				name := c.P.CalleeName(fn)
				c.Funcs[name] = true
				held := false
				for l := range li.Must[in] {
					held = held || strings.HasPrefix(l, "reporters.DefaultReporter.")
				}
				c.Check(held, "write in "+name, in.Pos(), nil, "the console writer is used without the reporter's lock (held: %v)", li.Must[in])
			}
		}
	}
	c.Floor(1)
}

func loadsField(c *Ctx, v ssa.Value, ids map[string]bool) bool {
	for d := 0; d < 4; d++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.FieldAddr:
			return ids[c.P.FieldID(x.X.Type(), x.Field)]
		case *ssa.Field:
			return ids[c.P.FieldID(x.X.Type(), x.Field)]
		default:
			return false
		}
	}
	return false
}
