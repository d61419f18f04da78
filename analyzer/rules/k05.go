package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{
		ID:        "K05",
		Technique: "abstract interpretation of the node builders over every node type, every decoration, every pair of decorations that conflict, and a set of body signatures chosen by shape, with a model of package reflect that works on the types of the program",
		Note:      "Argument lists are enumerated by kind: values of decorations are symbolic, lists hold up to four arguments in several orders. Bodies whose parameter is a user type are represented by one type of each shape.",
		Run:       func(c *Ctx) { k05(c, false) },
	})
	register(&Def{
		ID:        "K09",
		Technique: "abstract interpretation of the table constructs over shapes of body signatures, entry descriptions and parameter lists, running the entries' bodies in turn on the state their construction left, with a model of package reflect that works on the types of the program",
		Note:      "Parameters are symbolic; body signatures and parameter lists are enumerated by shape: fixed, variadic, with either kind of context, with interface and struct parameters, with too few, too many, nil and ill-typed parameters. Two entries with different parameters are run in the order second, first, first again.",
		Run:       func(c *Ctx) { k05(c, true) },
	})
}

// typeModel follows reflect.Type values: constants that name the type.
type typeModel struct {
	byName map[string]types.Type
}

func (m *typeModel) val(t types.Type) *engine.Val {
	if t == nil {
		return engine.Const(constant.MakeString("rtype:<nil>"), types.Typ[types.String])
	}
	v := rtype(t)
	s, _ := v.Str()
	if _, ok := m.byName[s]; !ok {
		for _, o := range sortedKeys(m.byName) {
			if types.Identical(m.byName[o], t) {
				return engine.Const(constant.MakeString(o), types.Typ[types.String])
			}
		}
	}
	m.byName[s] = t
	return v
}

func (m *typeModel) of(v *engine.Val) (t types.Type, known bool) {
	if v == nil {
		return nil, false
	}
	s, ok := v.Unbox().Str()
	if !ok || !strings.HasPrefix(s, "rtype:") {
		return nil, false
	}
	if s == "rtype:<nil>" {
		return nil, true
	}
	t, ok = m.byName[s]
	return t, ok
}

// globals gives the package-level reflect.Type variables their value, read from their initialisers.
func (m *typeModel) globals(c *Ctx, x *engine.Interp, st *engine.State, pkgs ...*ssa.Package) {
	var typeOf func(v ssa.Value) types.Type
	typeOf = func(v ssa.Value) types.Type {
		call, ok := v.(*ssa.Call)
		if !ok {
			return nil
		}
		com := call.Common()
		if com.IsInvoke() {
			t := typeOf(com.Value)
			if t == nil || com.Method.Name() != "Elem" {
				return nil
			}
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				return u.Elem()
			case *types.Slice:
				return u.Elem()
			case *types.Chan:
				return u.Elem()
			}
			return nil
		}
		if fn := com.StaticCallee(); fn != nil && c.P.CalleeName(fn) == "reflect.TypeOf" {
			if mi, ok := com.Args[0].(*ssa.MakeInterface); ok {
				return mi.X.Type()
			}
		}
		return nil
	}
	for _, pk := range pkgs {
		if pk == nil || pk.Func("init") == nil {
			continue
		}
		for _, b := range pk.Func("init").Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				if t := typeOf(s.Val); t != nil {
					x.Store(st, x.GlobalLoc(g), m.val(t))
				}
			}
		}
	}
}

// call models package reflect on values and types the interpreter knows.
func (m *typeModel) call(k *engine.Call) ([]engine.Outcome, bool) {
	if !strings.Contains(k.Name, "reflect.") {
		return nil, false
	}
	ret := func(v *engine.Val) ([]engine.Outcome, bool) { return k.Return(v), true }
	if k.Name == "reflect.TypeOf" {
		v := k.Args[0]
		if v.IsNil() {
			return ret(m.val(nil))
		}
		if v.K == engine.VIface && v.Unbox().T != nil {
			return ret(m.val(v.Unbox().T))
		}
		return nil, false
	}
	recv := k.Recv
	if recv == nil && len(k.Args) > 0 {
		recv = k.Args[0]
	}
	if k.Com != nil && k.Com.IsInvoke() {
		t, known := m.of(recv)
		if !known {
			return nil, false
		}
		if t == nil {
			return []engine.Outcome{{St: k.St, Kind: engine.ExitPanic, Ret: engine.Sym("nonnil:niltype~", types.NewInterfaceType(nil, nil))}}, true
		}
		arg := func(i int) *engine.Val {
			if i < len(k.Args) {
				return k.Args[len(k.Args)-1-i]
			}
			return nil
		}
		sig, _ := t.Underlying().(*types.Signature)
		num := func() (int64, bool) {
			a := arg(0)
			if a == nil {
				return 0, false
			}
			return a.Int()
		}
		switch k.Com.Method.Name() {
		case "Kind":
			if n, ok := kindOf(t); ok {
				return ret(engine.IntVal(n, k.T))
			}
		case "NumIn":
			if sig != nil {
				return ret(engine.IntVal(int64(sig.Params().Len()), k.T))
			}
		case "NumOut":
			if sig != nil {
				return ret(engine.IntVal(int64(sig.Results().Len()), k.T))
			}
		case "In":
			if n, ok := num(); ok && sig != nil && int(n) < sig.Params().Len() {
				return ret(m.val(sig.Params().At(int(n)).Type()))
			}
		case "Out":
			if n, ok := num(); ok && sig != nil && int(n) < sig.Results().Len() {
				return ret(m.val(sig.Results().At(int(n)).Type()))
			}
		case "IsVariadic":
			if sig != nil {
				return ret(engine.BoolVal(sig.Variadic()))
			}
		case "Elem":
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				return ret(m.val(u.Elem()))
			case *types.Slice:
				return ret(m.val(u.Elem()))
			}
		case "Implements", "AssignableTo", "ConvertibleTo":
			o, known := m.of(arg(0))
			if !known || o == nil {
				return nil, false
			}
			switch k.Com.Method.Name() {
			case "Implements":
				it, ok := o.Underlying().(*types.Interface)
				return ret(engine.BoolVal(ok && types.Implements(t, it)))
			case "AssignableTo":
				return ret(engine.BoolVal(types.AssignableTo(t, o)))
			}
			return ret(engine.BoolVal(types.ConvertibleTo(t, o)))
		case "String", "Name":
			return ret(engine.Const(constant.MakeString(engine.TypeStr(t)), k.T))
		}
		return nil, false
	}
	switch k.Name {
	case "reflect.ValueOf":
		if v := k.Args[0]; v.K == engine.VSym && strings.HasPrefix(v.S, "set:") {
			return ret(engine.Expr("rval", k.T, v))
		}
	case "(reflect.Value).IsNil":
		if recv != nil && recv.K == engine.VExpr && recv.S == "rval" {
			if v := recv.Args[0]; v.IsNil() {
				return ret(engine.BoolVal(true))
			} else if v.K == engine.VSym && strings.HasPrefix(v.S, "set:") {
				return ret(engine.BoolVal(false))
			}
		}
	case "(reflect.Value).IsZero":
		if recv != nil && recv.K == engine.VExpr && recv.S == "rval" {
			v := recv.Args[0].Unbox()
			if n, ok := v.Int(); ok {
				return ret(engine.BoolVal(n == 0))
			} else if v.K == engine.VSym && strings.HasPrefix(v.S, "set:") {
				return ret(engine.BoolVal(false))
			}
		}
	case "(reflect.Value).Len":
		if v := rvLoad(k.X, k.St, recv); v != nil {
			if es, ok := k.X.Elems(k.St, v); ok {
				return ret(engine.IntVal(int64(len(es)), k.T))
			}
		}
		return nil, false
	case "(reflect.Value).Index":
		if v := rvLoad(k.X, k.St, recv); v != nil {
			es, ok := k.X.Elems(k.St, v)
			n, ok2 := k.Args[1].Int()
			if ok && ok2 && int(n) < len(es) {
				e := es[n]
				if st, isS := v.T.Underlying().(*types.Slice); isS && (e.T == nil || !types.Identical(e.T, st.Elem())) {
					w := *e
					w.T = st.Elem()
					e = &w
				}
				return ret(engine.Expr("rval", k.T, e))
			}
		}
		return nil, false
	case "(reflect.Value).Type":
		if recv != nil && recv.K == engine.VExpr && recv.S == "rzero" {
			return []engine.Outcome{{St: k.St, Kind: engine.ExitPanic, Ret: engine.Sym("nonnil:zerovalue~", types.NewInterfaceType(nil, nil))}}, true
		}
		if t := rvType(recv); t != nil {
			return ret(m.val(t))
		}
		return nil, false
	}
	return reflectModel(k)
}

// branch decides what the model knows about comparisons of types.
func (m *typeModel) branch(x *engine.Interp, st *engine.State, in *ssa.If, cond *engine.Val, taken bool) {
	onKnownBranch(x, st, in, cond, taken)
	neg := false
	for cond.K == engine.VExpr && cond.S == "!" {
		cond, neg = cond.Args[0], !neg
	}
	if cond.K != engine.VExpr || len(cond.Args) != 2 || cond.S != "==" && cond.S != "!=" {
		return
	}
	for i := 0; i < 2; i++ {
		a, b := cond.Args[i], cond.Args[1-i]
		if s, ok := a.Unbox().Str(); ok && strings.HasPrefix(s, "rtype:") && b.IsNil() {
			if ((s == "rtype:<nil>") == (cond.S == "==")) != neg != taken {
				st.Stop()
			}
		}
	}
}

// ---- arguments ----

// k05arg is an argument of a construct.
type k05arg struct {
	name string
	make func(x *engine.Interp, st *engine.State) *engine.Val
}

type k05s struct {
	c   *Ctx
	m   *typeModel
	fn  *ssa.Function
	any types.Type
	n   int
	why string
	// tables only
	only bool
}

func (w *k05s) boxed(name string, t types.Type) k05arg {
	return k05arg{name, func(x *engine.Interp, st *engine.State) *engine.Val {
		return engine.Box(engine.Sym("set:"+name+"~", t), w.any)
	}}
}

func (w *k05s) konst(name string, v constant.Value, t types.Type) k05arg {
	return k05arg{name, func(x *engine.Interp, st *engine.State) *engine.Val { return engine.Box(engine.Const(v, t), w.any) }}
}

func (w *k05s) nilArg() k05arg {
	return k05arg{"nil", func(x *engine.Interp, st *engine.State) *engine.Val { return engine.Nil(w.any) }}
}

func (w *k05s) list(name string, elem types.Type, args ...k05arg) k05arg {
	return k05arg{name, func(x *engine.Interp, st *engine.State) *engine.Val {
		var es []*engine.Val
		for _, a := range args {
			v := a.make(x, st)
			if !types.IsInterface(elem) {
				v = v.Unbox()
			}
			es = append(es, v)
		}
		return engine.Box(w.slice(x, st, es, types.NewSlice(elem)), w.any)
	}}
}

func (w *k05s) slice(x *engine.Interp, st *engine.State, es []*engine.Val, t types.Type) *engine.Val {
	w.n++
	base := fmt.Sprintf("*k05list%d", w.n)
	for i, e := range es {
		x.Store(st, fmt.Sprintf("%s[%d]", base, i), e)
	}
	return engine.SliceAt(base, len(es), t)
}

func (w *k05s) body(name string, sig types.Type) k05arg {
	return k05arg{name, func(x *engine.Interp, st *engine.State) *engine.Val {
		return engine.Box(engine.Sym("nonnil:set:fn:"+name+"~", sig), w.any)
	}}
}

// result of building one node.
type k05built struct {
	errs   []string
	panics string
	node   func(field string) *engine.Val
	path   []string
	x      *engine.Interp
	st     *engine.State
}

// strings is a list of strings the node has.
func (b k05built) strings(field string) (out []string, known bool) {
	v := b.node(field)
	if v == nil {
		return nil, false
	}
	es, ok := b.x.Elems(b.st, v)
	if !ok {
		return nil, v.IsNil()
	}
	for _, e := range es {
		s, ok := e.Unbox().Str()
		if !ok {
			return nil, false
		}
		out = append(out, s)
	}
	return out, true
}

// k05call is one call the node's function makes while it runs.
type k05call struct {
	fn   string
	args []string
}

// runBody runs a function the node keeps and says what it calls; out is what a call of the user's function gives.
func (w *k05s) runBody(b k05built, v *engine.Val, out *engine.Val, empty bool) (calls []k05call, ret *engine.Val, kind engine.ExitKind, path []string, ok bool) {
	strip := func(a *engine.Val) string {
		for a.K == engine.VExpr && a.S == "rval" && len(a.Args) == 1 {
			a = a.Args[0]
		}
		return a.Unbox().Key()
	}
	var sig *types.Signature
	if v.Fn != nil {
		sig = v.Fn.Signature
	} else if v.T != nil {
		sig, _ = v.T.Underlying().(*types.Signature)
	}
	if sig == nil {
		return nil, nil, engine.ExitStop, nil, false
	}
	var args []*engine.Val
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		n := "set:payload~"
		if types.IsInterface(t) {
			n = "set:ctx~"
		}
		if _, isSlice := t.Underlying().(*types.Slice); isSlice && empty {
			args = append(args, engine.Nil(t))
			continue
		}
		args = append(args, engine.Sym(n, t))
	}
	if v.Fn == nil { // the user's function itself
		c := k05call{fn: v.Key()}
		for _, a := range args {
			c.args = append(c.args, strip(a))
		}
		return []k05call{c}, out, engine.ExitReturn, nil, true
	}
	var x *engine.Interp
	x = engine.New(w.c.P, engine.Cfg{Root: v.Fn, Bind: v.Args, Args: args, Linear: true, Lists: 12, Budget: 20000, MaxDepth: 12, OnBranch: w.m.branch,
		Init: func(st *engine.State) { st.CopyMem(b.st) },
		OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			if k.Name == "(reflect.Value).Call" {
				es, known := k.X.Elems(k.St, k.Args[1])
				if !known {
					return nil, false
				}
				c := k05call{fn: strip(k.Args[0])}
				for _, a := range es {
					c.args = append(c.args, strip(a))
				}
				calls = append(calls, c)
				st, isSlice := k.T.(*types.Slice)
				if !isSlice {
					return nil, false
				}
				var res []*engine.Val
				if out != nil && out.K == engine.VTuple {
					for _, o := range out.Args {
						res = append(res, engine.Expr("rval", st.Elem(), o))
					}
				} else if out != nil {
					res = append(res, engine.Expr("rval", st.Elem(), out))
				}
				return k.Return(k.NewSlice(res, k.T)), true
			}
			if k.Fn == nil && k.FnVal != nil && !strings.HasPrefix(k.Name, "builtin") && (k.Com == nil || !k.Com.IsInvoke()) {
				c := k05call{fn: k.FnVal.Key()}
				for _, a := range k.Args {
					c.args = append(c.args, strip(a))
				}
				calls = append(calls, c)
				if out != nil && strings.Contains(c.fn, "set:fn:") {
					return k.Return(out), true
				}
				return k.Return(engine.Nil(k.T)), true
			}
			if strings.HasPrefix(k.Name, "fmt.Sprint") {
				return k.Return(engine.Sym("set:text~", k.T)), true
			}
			return w.call(k)
		}})
	x.ContinueTokens(b.x)
	w.c.Run(x)
	var ends []*engine.Exit
	for _, e := range x.Exits {
		if e.Kind != engine.ExitStop {
			ends = append(ends, e)
		}
	}
	if len(ends) != 1 || len(x.Undec) > 0 {
		w.why = fmt.Sprintf("its function is not understood: %d ends %v", len(ends), x.Undec)
		return nil, nil, engine.ExitStop, nil, false
	}
	return calls, ends[0].Ret, ends[0].Kind, ends[0].St.Path(10), true
}

// callOf gives the arguments of the only call of the user's function.
func callOf(calls []k05call, name string) (args []string, n int) {
	for _, c := range calls {
		if strings.Contains(c.fn, "set:fn:"+name) {
			args, n = c.args, n+1
		}
	}
	return args, n
}

// build runs the builder on the arguments; ok is false when it is not understood.
func (w *k05s) build(nodeType *engine.Val, args []k05arg) (out []k05built, ok bool) {
	fn := w.fn
	vals := make([]*engine.Val, len(fn.Params))
	var x *engine.Interp
	listT := fn.Params[len(fn.Params)-1].Type()
	for i, p := range fn.Params {
		if nodeType != nil && engine.TypeStr(p.Type()) == "types.NodeType" {
			vals[i] = nodeType
		}
	}
	w.n++
	base := fmt.Sprintf("*k05args%d", w.n)
	vals[len(vals)-1] = engine.SliceAt(base, len(args), listT)
	x = engine.New(w.c.P, engine.Cfg{Root: fn, Args: vals, Linear: true, Lists: 12, Budget: 60000, MaxDepth: 20, OnBranch: w.m.branch,
		Init: func(st *engine.State) {
			w.m.globals(w.c, x, st, fn.Pkg)
			for i, a := range args {
				x.Store(st, fmt.Sprintf("%s[%d]", base, i), a.make(x, st))
			}
		},
		OnCall: w.call})
	w.c.Run(x)
	if len(x.Undec) > 0 || len(x.Exits) == 0 {
		w.why = fmt.Sprint(x.Undec)
		return nil, false
	}
	for _, e := range x.Exits {
		e := e
		if e.Kind == engine.ExitStop {
			continue // a branch the model rules out
		}
		b := k05built{path: e.St.Path(12), x: x, st: e.St}
		if e.Kind != engine.ExitReturn {
			b.panics = fmt.Sprintf("kind %v: %v", e.Kind, e.Ret)
			out = append(out, b)
			continue
		}
		res := e.Ret
		if res == nil || len(res.Args) != 2 {
			return nil, false
		}
		switch {
		case res.Args[1].IsNil():
		case types.Identical(res.Args[1].T, w.c.P.ErrorType()):
			b.errs = append(b.errs, ginkgoErr(res.Args[1]))
		default:
			es, known := x.Elems(e.St, res.Args[1])
			if !known {
				return nil, false
			}
			for _, v := range es {
				b.errs = append(b.errs, ginkgoErr(v))
			}
		}
		b.node = func(field string) *engine.Val { return x.FieldOf(e.St, res.Args[0], field) }
		out = append(out, b)
	}
	return out, true
}

func (w *k05s) call(k *engine.Call) ([]engine.Outcome, bool) {
	switch k.Name {
	case "types.NewCodeLocation":
		return k.Return(engine.Sym("loc~"+k.Args[0].Key(), k.T)), true
	case "internal.UniqueNodeID":
		return k.Return(engine.Sym("set:id~", k.T)), true
	case "types.ValidateAndCleanupLabel":
		tt, ok := k.T.(*types.Tuple)
		if !ok {
			return nil, false
		}
		if s, isC := k.Args[0].Str(); isC && s == "bad&label" {
			return k.Return(engine.Tuple(k.Args[0], engine.Sym("nonnil:err:InvalidLabel", tt.At(1).Type()))), true
		}
		return k.Return(engine.Tuple(k.Args[0], engine.Nil(tt.At(1).Type()))), true
	}
	if strings.Contains(k.Name, "DeprecationTracker") {
		return k.Return(k.Fresh()), true
	}
	return w.m.call(k)
}

// k05deco is a decoration: what the documentation says where it may be used, and what it sets.
type k05deco struct {
	arg    k05arg
	where  string // containers, specs, each, all-but-containers, any
	field  string
	value  string // what the field must mention
	needs  string // a decoration it goes with
	ctx    bool   // needs a body that takes a context
	typ    types.Type
	labels string
}

func (w *k05s) ok(kind, where string) bool {
	switch where {
	case "containers and specs":
		return kind == "Container" || kind == "It"
	case "containers":
		return kind == "Container"
	case "specs":
		return kind == "It"
	case "setup and teardown of specs":
		return in(kind, []string{"BeforeEach", "JustBeforeEach", "AfterEach", "JustAfterEach"})
	case "all but containers":
		return kind != "Container"
	}
	return true
}

// sigs of the functions that appear as bodies, by name.
func (w *k05s) sig(params, results []types.Type, variadic bool) *types.Signature {
	tup := func(ts []types.Type) *types.Tuple {
		var vs []*types.Var
		for _, t := range ts {
			vs = append(vs, types.NewVar(0, nil, "", t))
		}
		return types.NewTuple(vs...)
	}
	return types.NewSignatureType(nil, nil, nil, tup(params), tup(results), variadic)
}

const k05decos = "a decoration that is allowed on a kind of node sets its field on the node and gives no error, before or after the body, alone or in a list; one that is not allowed gives an error"

const k05tables = "a table is given exactly one body, passes on its decorations and makes one node per entry, in order, with the entry's decorations and location and under its description; the node's body calls the table's body with the entry's parameters, or reports parameters that do not fit; every other argument list ends with an error"

func k05(c *Ctx, tables bool) {
	fn := c.Fn("internal.NewNode")
	if fn == nil || len(fn.Params) < 3 {
		c.Rule("builder", "the node builder is understood")
		c.Undecided("no NewNode")
		return
	}
	w := &k05s{c: c, m: &typeModel{byName: map[string]types.Type{}}, fn: fn, any: types.NewInterfaceType(nil, nil), only: tables}
	w.run()
}

func (w *k05s) named(name string) types.Type {
	t := w.c.Type("internal", name)
	if t == nil {
		w.c.Undecided("no type %s", name)
	}
	return t
}

func (w *k05s) run() {
	c, fn := w.c, w.fn
	if w.only {
		c.Rule("tables", k05tables)
	} else {
		c.Rule("decorations", k05decos)
	}
	str := types.Typ[types.String]
	ctxT := types.Type(nil)
	for _, p := range c.P.SSA.AllPackages() {
		if p.Pkg.Path() == "context" {
			ctxT = p.Type("Context").Type()
		}
	}
	specCtx := w.named("SpecContext")
	specReport, report := c.Type("types", "SpecReport"), c.Type("types", "Report")
	nt := c.Type("types", "NodeType")
	locT := c.Type("types", "CodeLocation")
	if ctxT == nil || specCtx == nil || specReport == nil || report == nil || nt == nil || locT == nil {
		c.Undecided("the types of package types are not understood")
		return
	}
	f0 := w.sig(nil, nil, false)
	sigs := map[string]types.Type{
		"func()":                        f0,
		"func(SpecContext)":             w.sig([]types.Type{specCtx}, nil, false),
		"func(context.Context)":         w.sig([]types.Type{ctxT}, nil, false),
		"func() []byte":                 w.sig(nil, []types.Type{types.NewSlice(types.Typ[types.Byte])}, false),
		"func(SpecContext) []byte":      w.sig([]types.Type{specCtx}, []types.Type{types.NewSlice(types.Typ[types.Byte])}, false),
		"func(context.Context) []byte":  w.sig([]types.Type{ctxT}, []types.Type{types.NewSlice(types.Typ[types.Byte])}, false),
		"func([]byte)":                  w.sig([]types.Type{types.NewSlice(types.Typ[types.Byte])}, nil, false),
		"func(SpecContext, []byte)":     w.sig([]types.Type{specCtx, types.NewSlice(types.Typ[types.Byte])}, nil, false),
		"func(context.Context, []byte)": w.sig([]types.Type{ctxT, types.NewSlice(types.Typ[types.Byte])}, nil, false),
		"func(SpecReport)":              w.sig([]types.Type{specReport}, nil, false),
		"func(SpecContext, SpecReport)": w.sig([]types.Type{specCtx, specReport}, nil, false),
		"func(Report)":                  w.sig([]types.Type{report}, nil, false),
		"func(SpecContext, Report)":     w.sig([]types.Type{specCtx, report}, nil, false),
		"func() error":                  w.sig(nil, []types.Type{c.P.ErrorType()}, false),
		"func(string)":                  w.sig([]types.Type{str}, nil, false),
		"func(any)":                     w.sig([]types.Type{w.any}, nil, false),
		"func(...string)":               w.sig([]types.Type{types.NewSlice(str)}, nil, true),
		"func(...byte)":                 w.sig([]types.Type{types.NewSlice(types.Typ[types.Byte])}, nil, true),
		"func(SpecContext, string)":     w.sig([]types.Type{specCtx, str}, nil, false),
		"func(string, string)":          w.sig([]types.Type{str, str}, nil, false),
		"func() string":                 w.sig(nil, []types.Type{str}, false),
		"func(SpecContext) string":      w.sig([]types.Type{specCtx}, []types.Type{str}, false),
	}
	if done := c.Type("internal", "Done"); done != nil {
		sigs["func(Done)"] = w.sig([]types.Type{done}, nil, false)
	}
	pkg := types.NewPackage("user", "user")
	mk := func(name string, under types.Type) types.Type {
		return types.NewNamed(types.NewTypeName(0, pkg, name, nil), under, nil)
	}
	sigs["a named func() type"] = mk("Body", f0)
	sigs["a named func(SpecContext) type"] = mk("CtxBody", sigs["func(SpecContext)"])
	if it, ok := specCtx.Underlying().(*types.Interface); ok {
		extra := types.NewFunc(0, pkg, "Extra", w.sig(nil, nil, false))
		wide := mk("WideContext", types.NewInterfaceType([]*types.Func{extra}, []types.Type{specCtx}).Complete())
		_ = it
		sigs["func(an interface wider than SpecContext)"] = w.sig([]types.Type{wide}, nil, false)
		sigs["func(an interface wider than SpecContext) []byte"] = w.sig([]types.Type{wide}, []types.Type{types.NewSlice(types.Typ[types.Byte])}, false)
		sigs["func(an interface wider than SpecContext, []byte)"] = w.sig([]types.Type{wide, types.NewSlice(types.Typ[types.Byte])}, nil, false)
	}
	kinds := map[string]*engine.Val{}
	var kindList []string
	for _, m := range c.P.EnumDomain(nt) {
		n := m.Val
		if n == 0 || n&(n-1) != 0 || !strings.HasPrefix(m.Name, "NodeType") {
			continue
		}
		kind := strings.TrimPrefix(m.Name, "NodeType")
		if _, dup := kinds[kind]; dup {
			continue
		}
		kinds[kind] = engine.IntVal(n, nt)
		kindList = append(kindList, kind)
	}
	sort.Strings(kindList)
	// the bodies each kind of node is given
	bodies := func(kind string, ctx bool) []string {
		switch kind {
		case "Container":
			return []string{"func()"}
		case "ReportBeforeEach", "ReportAfterEach":
			if ctx {
				return []string{"func(SpecContext, SpecReport)"}
			}
			return []string{"func(SpecReport)"}
		case "ReportBeforeSuite", "ReportAfterSuite":
			if ctx {
				return []string{"func(SpecContext, Report)"}
			}
			return []string{"func(Report)"}
		case "SynchronizedBeforeSuite":
			if ctx {
				return []string{"func(SpecContext) []byte", "func(SpecContext, []byte)"}
			}
			return []string{"func() []byte", "func([]byte)"}
		case "SynchronizedAfterSuite":
			if ctx {
				return []string{"func(SpecContext)", "func(SpecContext)"}
			}
			return []string{"func()", "func()"}
		}
		if ctx {
			return []string{"func(SpecContext)"}
		}
		return []string{"func()"}
	}
	fnArgs := func(names []string) []k05arg {
		var out []k05arg
		for i, n := range names {
			out = append(out, w.body(fmt.Sprintf("%s#%d", n, i), sigs[n]))
		}
		return out
	}
	ints := func(name string, t types.Type) k05arg { return w.boxed(name, t) }
	truth := func(name, typ string) k05arg {
		return w.konst(name, constant.MakeBool(true), w.named(typ))
	}
	labelsT := w.named("Labels")
	var decos []k05deco
	add := func(d k05deco, typ string) {
		if d.typ = w.named(typ); d.typ != nil {
			decos = append(decos, d)
		}
	}
	add(k05deco{arg: truth("Focus", "focusType"), where: "containers and specs", field: "MarkedFocus", value: "true"}, "focusType")
	add(k05deco{arg: truth("Pending", "pendingType"), where: "containers and specs", field: "MarkedPending", value: "true"}, "pendingType")
	add(k05deco{arg: truth("Serial", "serialType"), where: "containers and specs", field: "MarkedSerial", value: "true", labels: "Serial"}, "serialType")
	add(k05deco{arg: truth("Ordered", "orderedType"), where: "containers", field: "MarkedOrdered", value: "true"}, "orderedType")
	add(k05deco{arg: truth("ContinueOnFailure", "continueOnFailureType"), where: "containers", field: "MarkedContinueOnFailure", value: "true", needs: "Ordered"}, "continueOnFailureType")
	add(k05deco{arg: truth("OncePerOrdered", "honorsOrderedType"), where: "setup and teardown of specs", field: "MarkedOncePerOrdered", value: "true"}, "honorsOrderedType")
	for _, n := range []string{"FlakeAttempts", "MustPassRepeatedly"} {
		if t := w.named(n); t != nil {
			add(k05deco{arg: ints(n, t), where: "containers and specs", field: n, value: "set:" + n}, n)
		}
	}
	for _, n := range []string{"PollProgressAfter", "PollProgressInterval", "NodeTimeout", "GracePeriod"} {
		if t := w.named(n); t != nil {
			add(k05deco{arg: ints(n, t), where: "all but containers", field: n, value: "set:" + n, ctx: true}, n)
		}
	}
	if t := w.named("SpecTimeout"); t != nil {
		add(k05deco{arg: ints("SpecTimeout", t), where: "specs", field: "SpecTimeout", value: "set:SpecTimeout", ctx: true}, "SpecTimeout")
	}
	if labelsT != nil {
		labels := k05arg{"Label(a, b)", func(x *engine.Interp, st *engine.State) *engine.Val {
			return engine.Box(w.slice(x, st, []*engine.Val{engine.Const(constant.MakeString("a"), str), engine.Const(constant.MakeString("b"), str)}, labelsT), w.any)
		}}
		add(k05deco{arg: labels, where: "containers and specs", field: "Labels", labels: "a b"}, "Labels")
	}
	byName := map[string]k05deco{}
	for _, d := range decos {
		byName[d.arg.name] = d
	}
	if w.only {
		w.tables(sigs, byName, mk("Point2", types.NewStruct(nil, nil)))
		return
	}
	judge := func(label string, kind string, args []k05arg, want func(b k05built) (bool, string)) {
		res, ok := w.build(kinds[kind], args)
		if !ok {
			c.Undecided("%s is not understood: %s", label, w.why)
			return
		}
		for _, b := range res {
			if b.panics != "" {
				c.Fail(label, fn.Pos(), b.path, "building the node panics")
				continue
			}
			good, why := want(b)
			c.Check(good, label, fn.Pos(), b.path, "%s", why)
		}
	}
	rejected := func(b k05built) (bool, string) {
		return len(b.errs) > 0, "no error is given"
	}
	set := func(d k05deco) func(b k05built) (bool, string) {
		return func(b k05built) (bool, string) {
			if len(b.errs) > 0 {
				return false, fmt.Sprintf("it is allowed, yet gives the errors %v", b.errs)
			}
			if d.labels != "" {
				got, known := b.strings("Labels")
				if !known {
					c.Undecided("the labels of a node with %s are not understood", d.arg.name)
					return true, ""
				}
				for _, l := range strings.Fields(d.labels) {
					if !in(l, got) {
						return false, fmt.Sprintf("its label %q is not among %v", l, got)
					}
				}
			}
			v := b.node(d.field)
			if v == nil {
				return false, "its field " + d.field + " is not found"
			}
			if d.value != "" && !v.Mentions(d.value) && v.Key() != d.value {
				return false, fmt.Sprintf("%s of the node is %s", d.field, v.Key())
			}
			return true, ""
		}
	}
	for _, kind := range kindList {
		for _, d := range decos {
			body := fnArgs(bodies(kind, kind != "Container"))
			orders := [][]k05arg{append(append([]k05arg{}, body...), d.arg), append([]k05arg{d.arg}, body...)}
			if d.needs != "" {
				o := byName[d.needs].arg
				orders = [][]k05arg{append(append([]k05arg{o}, body...), d.arg), append([]k05arg{d.arg, o}, body...)}
			}
			orders = append(orders, append(append([]k05arg{}, body...), w.list("list", w.any, orders[1][:len(orders[1])-len(body)]...)))
			for i, args := range orders {
				label := fmt.Sprintf("%s on %s (%s)", d.arg.name, kind, []string{"after the body", "before the body", "in a list"}[i])
				if w.ok(kind, d.where) {
					judge(label, kind, args, set(d))
				} else {
					judge(label, kind, args, rejected)
				}
			}
		}
	}
	// labels add up
	if la, ok := byName["Label(a, b)"]; ok && labelsT != nil {
		serial, hasSerial := byName["Serial"]
		more := k05arg{"Label(b, c)", func(x *engine.Interp, st *engine.State) *engine.Val {
			return engine.Box(w.slice(x, st, []*engine.Val{engine.Const(constant.MakeString("b"), str), engine.Const(constant.MakeString("c"), str)}, labelsT), w.any)
		}}
		for _, kind := range kindList {
			if !w.ok(kind, la.where) {
				continue
			}
			body := fnArgs(bodies(kind, false))
			for _, t := range []struct {
				args []k05arg
				want string
			}{
				{[]k05arg{la.arg, more}, "a b c"}, {[]k05arg{more, la.arg}, "a b c"}, {[]k05arg{la.arg, serial.arg}, "Serial a b"}, {[]k05arg{serial.arg, la.arg}, "Serial a b"},
				{[]k05arg{more, serial.arg, la.arg}, "Serial a b c"}, {[]k05arg{la.arg, w.list("list", w.any, more, serial.arg)}, "Serial a b c"}, {[]k05arg{w.list("list", w.any, la.arg), serial.arg, more}, "Serial a b c"},
			} {
				if strings.Contains(t.want, "Serial") && !hasSerial {
					continue
				}
				var ns []string
				for _, a := range t.args {
					ns = append(ns, a.name)
				}
				want := t.want
				judge(fmt.Sprintf("labels of %s with %s", kind, strings.Join(ns, ", ")), kind, append(append([]k05arg{}, t.args...), body...), func(b k05built) (bool, string) {
					if len(b.errs) > 0 {
						return false, fmt.Sprintf("it is allowed, yet gives the errors %v", b.errs)
					}
					got, known := b.strings("Labels")
					if !known {
						c.Undecided("the labels of a node with several labels are not understood")
						return true, ""
					}
					seen := map[string]bool{}
					for _, g := range got {
						seen[g] = true
					}
					return strings.Join(sortedKeys(seen), " ") == want, fmt.Sprintf("its labels are %v, not %s", got, want)
				})
			}
		}
	}
	c.Floor(600)

	c.Rule("conflicts", "decorations that exclude each other, and decorations without what they need, give an error in either order")
	both := func(kind, a, b string, ctx bool) {
		da, okA := byName[a]
		db, okB := byName[b]
		if !okA || !okB {
			c.Undecided("no decoration %s or %s", a, b)
			return
		}
		body := fnArgs(bodies(kind, ctx))
		judge(fmt.Sprintf("%s and %s on %s", a, b, kind), kind, append(append([]k05arg{}, body...), da.arg, db.arg), rejected)
		judge(fmt.Sprintf("%s and %s on %s", b, a, kind), kind, append([]k05arg{db.arg, da.arg}, body...), rejected)
		for _, d := range decos {
			if d.arg.name == a || d.arg.name == b || d.needs != "" || !w.ok(kind, d.where) {
				continue
			}
			judge(fmt.Sprintf("%s, %s and %s on %s", a, b, d.arg.name, kind), kind, append(append([]k05arg{}, body...), da.arg, d.arg, db.arg), rejected)
		}
	}
	for _, kind := range []string{"Container", "It"} {
		both(kind, "Focus", "Pending", kind == "It")
		both(kind, "FlakeAttempts", "MustPassRepeatedly", kind == "It")
	}
	judge("ContinueOnFailure without Ordered", "Container", append(fnArgs([]string{"func()"}), byName["ContinueOnFailure"].arg), rejected)
	for _, kind := range kindList {
		if kind == "Container" {
			continue
		}
		for _, n := range []string{"NodeTimeout", "SpecTimeout", "GracePeriod"} {
			judge(fmt.Sprintf("%s on %s without a context", n, kind), kind, append(fnArgs(bodies(kind, false)), byName[n].arg), rejected)
		}
	}
	if labelsT != nil {
		bad := k05arg{"a bad label", func(x *engine.Interp, st *engine.State) *engine.Val {
			return engine.Box(w.slice(x, st, []*engine.Val{engine.Const(constant.MakeString("a"), str), engine.Const(constant.MakeString("bad&label"), str)}, labelsT), w.any)
		}}
		judge("a malformed label", "It", append(fnArgs([]string{"func()"}), bad), rejected)
	}
	c.Floor(60)

	c.Rule("bodies", "each kind of node takes the bodies the documentation lists and gives an error for every other function, for a missing one and for one too many; building it never panics")
	accepts := func(kind string, i int, sig string) bool {
		plain := []string{"func()", "func(SpecContext)", "func(context.Context)"}
		switch kind {
		case "Container":
			return sig == "func()"
		case "ReportBeforeEach", "ReportAfterEach":
			return sig == "func(SpecReport)" || sig == "func(SpecContext, SpecReport)"
		case "ReportBeforeSuite", "ReportAfterSuite":
			return sig == "func(Report)" || sig == "func(SpecContext, Report)"
		case "SynchronizedBeforeSuite":
			if i == 0 {
				return in(sig, append(plain, "func() []byte", "func(SpecContext) []byte", "func(context.Context) []byte"))
			}
			return in(sig, append(plain, "func([]byte)", "func(SpecContext, []byte)", "func(context.Context, []byte)"))
		}
		return in(sig, append(plain, "func(Done)"))
	}
	accepted := func(b k05built) (bool, string) {
		return len(b.errs) == 0, fmt.Sprintf("it is a documented body, yet gives the errors %v", b.errs)
	}
	// named function types with a documented shape may be taken or rejected
	either := func(b k05built) (bool, string) { return true, "" }
	bodyField := map[string][]string{
		"ReportBeforeEach": {"ReportEachBody"}, "ReportAfterEach": {"ReportEachBody"}, "ReportBeforeSuite": {"ReportSuiteBody"}, "ReportAfterSuite": {"ReportSuiteBody"},
		"SynchronizedBeforeSuite": {"SynchronizedBeforeSuiteProc1Body", "SynchronizedBeforeSuiteAllProcsBody"},
		"SynchronizedAfterSuite":  {"SynchronizedAfterSuiteAllProcsBody", "SynchronizedAfterSuiteProc1Body"},
	}
	hasCtx := map[string][]string{
		"SynchronizedBeforeSuite": {"SynchronizedBeforeSuiteProc1BodyHasContext", "SynchronizedBeforeSuiteAllProcsBodyHasContext"},
		"SynchronizedAfterSuite":  {"SynchronizedAfterSuiteAllProcsBodyHasContext", "SynchronizedAfterSuiteProc1BodyHasContext"},
	}
	for _, kind := range kindList {
		good := bodies(kind, false)
		for i := range good {
			for _, s := range sortedKeys(sigs) {
				names := append([]string{}, good...)
				names[i] = s
				want := rejected
				fields := bodyField[kind]
				if len(fields) == 0 {
					fields = []string{"Body"}
				}
				ctxs := hasCtx[kind]
				if len(ctxs) == 0 {
					ctxs = []string{"HasContext"}
				}
				switch {
				case accepts(kind, i, s):
					takes := strings.Contains(s, "SpecContext") || strings.Contains(s, "context.Context")
					i := i
					want = func(b k05built) (bool, string) {
						if ok, why := accepted(b); !ok {
							return false, why
						}
						v := b.node(fields[i])
						if v == nil || v.IsNil() {
							return false, "the node has no " + fields[i]
						}
						if kind != "Container" {
							h := b.node(ctxs[i])
							got, known := false, false
							if h != nil {
								got, known = h.Bool()
							}
							if known && got != takes {
								return false, fmt.Sprintf("%s of the node is %v", ctxs[i], got)
							}
						}
						var out *engine.Val
						if strings.HasSuffix(s, "[]byte") {
							out = engine.Sym("set:bytes~", types.NewSlice(types.Typ[types.Byte]))
						}
						for _, empty := range []bool{false, true} {
							calls, ret, kindOfEnd, _, known := w.runBody(b, v, out, empty)
							if !known {
								c.Undecided("%s of %s: %s", s, kind, w.why)
								return true, ""
							}
							var wants []string
							if takes {
								wants = append(wants, "set:ctx~")
							}
							if strings.Contains(s, "Report)") || strings.Contains(s, "[]byte)") && !empty {
								wants = append(wants, "set:payload~")
							} else if strings.Contains(s, "[]byte)") {
								wants = append(wants, "nil")
							}
							args, n := callOf(calls, s)
							if n != 1 || kindOfEnd != engine.ExitReturn {
								return false, fmt.Sprintf("the node's function calls the body %d times (ends with %v)", n, kindOfEnd)
							}
							if s != "func(Done)" && strings.Join(args, " ") != strings.Join(wants, " ") {
								return false, fmt.Sprintf("the body is called with (%s), not (%s)", strings.Join(args, ", "), strings.Join(wants, ", "))
							}
							if out != nil && (ret == nil || ret.Key() != out.Key()) {
								return false, fmt.Sprintf("what the body returns is not passed on: %v", ret)
							}
						}
						return true, ""
					}
				case strings.HasPrefix(s, "a named"):
					want = either
				}
				which := ""
				if len(good) > 1 {
					which = []string{" as its first function", " as its second function"}[i]
				}
				judge(fmt.Sprintf("%s of %s%s", s, kind, which), kind, fnArgs(names), want)
			}
		}
		judge("no body of "+kind, kind, nil, rejected)
		if len(good) == 2 {
			judge("one body of "+kind, kind, fnArgs(good[:1]), rejected)
		}
		judge("one body too many of "+kind, kind, fnArgs(append(append([]string{}, good...), good[len(good)-1])), rejected)
	}
	if d, ok := byName["Pending"]; ok {
		judge("a pending spec without a body", "It", []k05arg{d.arg}, accepted)
		judge("a pending container without a body", "Container", []k05arg{d.arg}, accepted)
	}
	c.Floor(450)

	c.Rule("unknown", "an argument that is neither a decoration nor a body gives an error on every kind of node, nil included")
	point := mk("Point", types.NewStruct([]*types.Var{types.NewVar(0, pkg, "X", types.Typ[types.Int])}, nil))
	unknown := []k05arg{w.nilArg(), w.boxed("a string", str), w.boxed("an int", types.Typ[types.Int]), w.boxed("a struct", point), w.boxed("a pointer", types.NewPointer(point)),
		w.boxed("a bool", types.Typ[types.Bool]), w.boxed("a duration", w.durationType()), w.boxed("an error value", mk("MyErr", point.Underlying())),
		w.list("a list of strings", str, w.konst("s", constant.MakeString("s"), str)), w.list("a list with nil", w.any, w.nilArg()), w.boxed("a map", types.NewMap(str, str)), w.boxed("a channel", types.NewChan(types.SendRecv, str))}
	for _, kind := range kindList {
		for _, u := range unknown {
			judge(fmt.Sprintf("%s passed to %s", u.name, kind), kind, append(fnArgs(bodies(kind, false)), u), rejected)
		}
	}
	c.Floor(200)

	w.location(kinds, fnArgs([]string{"func()"}), locT)
	w.recognised(decos, unknown, locT)
	w.cleanup(sigs, byName)
	w.entry()
	w.tables(sigs, byName, mk("Point2", types.NewStruct(nil, nil)))
}

func (w *k05s) durationType() types.Type {
	for _, p := range w.c.P.SSA.AllPackages() {
		if p.Pkg.Path() == "time" {
			return p.Type("Duration").Type()
		}
	}
	return types.Typ[types.Int64]
}

// location: where the node says it is.
func (w *k05s) location(kinds map[string]*engine.Val, body []k05arg, locT types.Type) {
	c := w.c
	c.Rule("location", "a node is located at the caller of the DSL function, an Offset moves that up by as many frames, a CodeLocation replaces it, wherever they stand in the argument list; the location is what errors are given")
	off := w.named("Offset")
	if off == nil {
		return
	}
	offset := w.konst("Offset(3)", constant.MakeInt64(3), off)
	loc := w.boxed("CodeLocation", locT)
	for _, t := range []struct {
		name string
		args []k05arg
		want string
	}{
		{"no location", body, "loc~2"},
		{"Offset(3) first", append([]k05arg{offset}, body...), "loc~5"},
		{"Offset(3) last", append(append([]k05arg{}, body...), offset), "loc~5"},
		{"CodeLocation first", append([]k05arg{loc}, body...), "set:CodeLocation~"},
		{"CodeLocation last", append(append([]k05arg{}, body...), loc), "set:CodeLocation~"},
		{"CodeLocation in a list", append(append([]k05arg{}, body...), w.list("list", w.any, loc)), "set:CodeLocation~"},
	} {
		res, ok := w.build(kinds["It"], t.args)
		if !ok {
			c.Undecided("%s is not understood: %s", t.name, w.why)
			continue
		}
		for _, b := range res {
			if b.panics != "" {
				c.Fail(t.name, w.fn.Pos(), b.path, "building the node panics")
				continue
			}
			v := b.node("CodeLocation")
			c.Check(len(b.errs) == 0 && v != nil && v.Key() == t.want, t.name, w.fn.Pos(), b.path, "the node is at %v, not at %s (errors %v)", v, t.want, b.errs)
		}
	}
	c.Floor(6)
}

// recognised: what the functions that split off decorations take for one.
func (w *k05s) recognised(decos []k05deco, unknown []k05arg, locT types.Type) {
	c := w.c
	c.Rule("recognised", "tables and cleanups take for decorations exactly what the node builder acts on, alone or as a list")
	fn := c.Fn("internal.PartitionDecorations")
	if fn == nil || len(fn.Params) != 1 {
		c.Undecided("no PartitionDecorations")
		return
	}
	run := func(a k05arg) (deco, rest int, ok bool, path []string) {
		var x *engine.Interp
		w.n++
		base := fmt.Sprintf("*k05args%d", w.n)
		x = engine.New(c.P, engine.Cfg{Root: fn, Args: []*engine.Val{engine.SliceAt(base, 1, fn.Params[0].Type())}, Linear: true, Lists: 8, Budget: 20000, MaxDepth: 16, OnBranch: w.m.branch,
			Init: func(st *engine.State) {
				w.m.globals(c, x, st, fn.Pkg)
				x.Store(st, base+"[0]", a.make(x, st))
			}, OnCall: w.call})
		c.Run(x)
		live := x.Exits[:0:0]
		for _, e := range x.Exits {
			if e.Kind != engine.ExitStop {
				live = append(live, e)
			}
		}
		x.Exits = live
		if len(x.Undec) > 0 || len(x.Exits) != 1 || x.Exits[0].Kind != engine.ExitReturn || x.Exits[0].Ret == nil || len(x.Exits[0].Ret.Args) != 2 {
			if len(x.Exits) == 1 && x.Exits[0].Kind == engine.ExitPanic {
				return -1, -1, true, x.Exits[0].St.Path(10)
			}
			return 0, 0, false, nil
		}
		e := x.Exits[0]
		ds, ok1 := x.Elems(e.St, e.Ret.Args[0])
		rs, ok2 := x.Elems(e.St, e.Ret.Args[1])
		return len(ds), len(rs), ok1 && ok2, e.St.Path(10)
	}
	check := func(a k05arg, want bool) {
		d, r, ok, path := run(a)
		if !ok {
			c.Undecided("%s is not understood", a.name)
			return
		}
		if want {
			c.Check(d == 1 && r == 0, a.name, fn.Pos(), path, "%s is not taken for a decoration (%d decorations, %d others)", a.name, d, r)
		} else {
			c.Check(d == 0 && r == 1, a.name, fn.Pos(), path, "%s is not kept as a plain argument (%d decorations, %d others)", a.name, d, r)
		}
	}
	all := append([]k05deco{}, decos...)
	if off := w.named("Offset"); off != nil {
		all = append(all, k05deco{arg: w.konst("Offset(3)", constant.MakeInt64(3), off)})
	}
	all = append(all, k05deco{arg: w.boxed("CodeLocation", locT)})
	for _, d := range all {
		check(d.arg, true)
		check(w.list("a list of "+d.arg.name, w.any, d.arg), true)
		check(w.list("a list of "+d.arg.name+" and a string", w.any, d.arg, w.boxed("s", types.Typ[types.String])), false)
	}
	for _, u := range unknown {
		check(u, false)
	}
	check(w.body("a function", w.sig(nil, nil, false)), false)
	check(w.list("an empty list", w.any), false)
	c.Floor(50)
}

// cleanup: what DeferCleanup makes of its arguments.
func (w *k05s) cleanup(sigs map[string]types.Type, byName map[string]k05deco) {
	c := w.c
	c.Rule("cleanup", "DeferCleanup gives an error when it has no function, builds a node that has a body otherwise, passes decorations on, and never panics while the node is built")
	fn := c.Fn("internal.NewCleanupNode")
	if fn == nil {
		c.Undecided("no NewCleanupNode")
		return
	}
	old := w.fn
	w.fn = fn
	defer func() { w.fn = old }()
	ctxIface, _ := sigs["func(context.Context)"].(*types.Signature).Params().At(0).Type().Underlying().(*types.Interface)
	specIface, _ := sigs["func(SpecContext)"].(*types.Signature).Params().At(0).Type().Underlying().(*types.Interface)
	// what the node does when it runs
	runs := func(label string, b k05built, v *engine.Val, name string, sig *types.Signature, rest []k05arg) {
		var wants []string
		if sig.Params().Len() > 0 && ctxIface != nil && specIface != nil {
			t := sig.Params().At(0).Type()
			if types.Implements(t, specIface) {
				wants = append(wants, "set:ctx~")
			} else if types.Implements(t, ctxIface) {
				own := len(rest) > 0
				if own {
					u := rest[0].make(nil, nil).Unbox().T
					own = u != nil && types.Implements(u, ctxIface)
				}
				if !own {
					wants = append(wants, "set:ctx~")
				}
			}
		}
		for _, a := range rest {
			wants = append(wants, a.make(nil, nil).Unbox().Key())
		}
		for _, fails := range []bool{false, true} {
			var outs []*engine.Val
			for i := 0; i < sig.Results().Len(); i++ {
				t := sig.Results().At(i).Type()
				o := engine.Sym("set:out~", t)
				if i == sig.Results().Len()-1 && types.Identical(t, c.P.ErrorType()) && !fails {
					o = engine.Nil(t)
				}
				outs = append(outs, o)
			}
			isErr := len(outs) > 0 && types.Identical(outs[len(outs)-1].T, c.P.ErrorType())
			if fails && !isErr {
				continue
			}
			var out *engine.Val
			if len(outs) > 0 {
				out = engine.Tuple(outs...)
			}
			calls, _, kind, path, known := w.runBody(b, v, out, false)
			if !known {
				c.Undecided("%s: %s", label, w.why)
				return
			}
			args, n := callOf(calls, name)
			c.Check(n == 1 && kind == engine.ExitReturn, label+" call", fn.Pos(), path, "running the cleanup calls the function %d times", n)
			if n != 1 {
				continue
			}
			c.Check(strings.Join(args, " ") == strings.Join(wants, " "), label+" arguments", fn.Pos(), path, "the function is called with (%s), not (%s)", strings.Join(args, ", "), strings.Join(wants, ", "))
			failed := 0
			for _, k := range calls {
				if !strings.Contains(k.fn, "set:fn:") {
					failed++
				}
			}
			c.Check((failed > 0) == (fails && isErr), label+" error", fn.Pos(), path, "the function returns an error: %v, a failure is recorded %d times", fails, failed)
		}
	}
	run := func(label string, args []k05arg, wantErr bool, field string) {
		res, ok := w.build(nil, args)
		if !ok {
			c.Undecided("%s is not understood: %s", label, w.why)
			return
		}
		for _, b := range res {
			if b.panics != "" {
				c.Fail(label, fn.Pos(), b.path, "building the node panics")
				continue
			}
			if wantErr {
				c.Check(len(b.errs) > 0, label, fn.Pos(), b.path, "no error is given")
				continue
			}
			c.Check(len(b.errs) == 0, label, fn.Pos(), b.path, "errors %v", b.errs)
			if len(b.errs) > 0 {
				continue
			}
			v := b.node("Body")
			c.Check(v != nil && !v.IsNil(), label+" body", fn.Pos(), b.path, "the node has no body")
			var sig *types.Signature
			var name string
			var rest []k05arg
			hasNil := false
			for _, a := range args {
				u := a.make(nil, nil)
				hasNil = hasNil || u.IsNil()
				if s, isF := sigs[a.name].(*types.Signature); isF && sig == nil {
					sig, name = s, a.name
				} else if sig != nil {
					rest = append(rest, a)
				}
			}
			if sig != nil && !hasNil && field == "" && v != nil && !v.IsNil() {
				runs(label, b, v, name, sig, rest)
			}
			if field != "" {
				v := b.node(field)
				c.Check(v != nil && v.Mentions("set:"), label+" effect", fn.Pos(), b.path, "%s of the node is %v", field, v)
			}
		}
	}
	more := map[string]types.Type{"func() (string, error)": w.sig(nil, []types.Type{types.Typ[types.String], c.P.ErrorType()}, false), "func() (error, string)": w.sig(nil, []types.Type{c.P.ErrorType(), types.Typ[types.String]}, false),
		"func(SpecContext) error": w.sig([]types.Type{sigs["func(SpecContext)"].(*types.Signature).Params().At(0).Type()}, []types.Type{c.P.ErrorType()}, false)}
	for k, v := range sigs {
		more[k] = v
	}
	sigs = more
	str := w.boxed("a string", types.Typ[types.String])
	run("DeferCleanup()", nil, true, "")
	run("DeferCleanup(a string)", []k05arg{str}, true, "")
	run("DeferCleanup(nil)", []k05arg{w.nilArg()}, true, "")
	for _, s := range sortedKeys(sigs) {
		f := w.body(s, sigs[s])
		run("DeferCleanup("+s+")", []k05arg{f}, false, "")
		run("DeferCleanup("+s+", nil)", []k05arg{f, w.nilArg()}, false, "")
		run("DeferCleanup("+s+", a string)", []k05arg{f, str}, false, "")
		run("DeferCleanup("+s+", a string, an int)", []k05arg{f, str, w.boxed("an int", types.Typ[types.Int])}, false, "")
		if t := w.named("specContext"); t != nil {
			run("DeferCleanup("+s+", a context)", []k05arg{f, w.boxed("a context", types.NewPointer(t))}, false, "")
		}
		if t := w.plainContext(); t != nil {
			run("DeferCleanup("+s+", a plain context)", []k05arg{f, w.boxed("a plain context", t)}, false, "")
			run("DeferCleanup("+s+", a string, a plain context)", []k05arg{f, str, w.boxed("a plain context", t)}, false, "")
		}
	}
	ctxF := w.body("func(SpecContext)", sigs["func(SpecContext)"])
	for _, n := range []string{"NodeTimeout", "GracePeriod", "PollProgressAfter", "PollProgressInterval"} {
		if d, ok := byName[n]; ok {
			run("DeferCleanup(func(SpecContext), "+n+")", []k05arg{ctxF, d.arg}, false, n)
			run("DeferCleanup("+n+", func(SpecContext))", []k05arg{d.arg, ctxF}, false, n)
		}
	}
	timing := []string{"NodeTimeout", "GracePeriod", "PollProgressAfter", "PollProgressInterval"}
	for i, n := range timing {
		for _, o := range timing[i+1:] {
			d, ok := byName[n]
			e, ok2 := byName[o]
			if !ok || !ok2 {
				continue
			}
			for _, f := range []string{n, o} {
				run("DeferCleanup("+n+", "+o+", func(SpecContext))", []k05arg{d.arg, e.arg, ctxF}, false, f)
				run("DeferCleanup("+o+", func(SpecContext), "+n+")", []k05arg{e.arg, ctxF, d.arg}, false, f)
			}
		}
	}
	if off, locT := w.named("Offset"), c.Type("types", "CodeLocation"); off != nil && locT != nil {
		offset, loc := w.konst("Offset(3)", constant.MakeInt64(3), off), w.boxed("CodeLocation", locT)
		for _, t := range []struct {
			name string
			args []k05arg
			want string
		}{
			{"a cleanup without a location", []k05arg{ctxF}, "loc~2"},
			{"a cleanup with an offset", []k05arg{offset, ctxF}, "loc~5"},
			{"a cleanup with an offset after the function", []k05arg{ctxF, offset}, "loc~5"},
			{"a cleanup with a location", []k05arg{ctxF, loc}, "set:CodeLocation~"},
		} {
			res, ok := w.build(nil, t.args)
			if !ok {
				c.Undecided("%s is not understood: %s", t.name, w.why)
				continue
			}
			for _, b := range res {
				if b.panics != "" || len(b.errs) > 0 {
					c.Fail(t.name, fn.Pos(), b.path, "no node is built: %v %v", b.panics, b.errs)
					continue
				}
				v := b.node("CodeLocation")
				c.Check(v != nil && v.Key() == t.want, t.name, fn.Pos(), b.path, "the node is at %v, not at %s", v, t.want)
			}
		}
	}
	for _, n := range []string{"Focus", "Pending", "Serial", "Ordered", "FlakeAttempts", "MustPassRepeatedly", "SpecTimeout", "Label(a, b)", "OncePerOrdered", "ContinueOnFailure"} {
		if d, ok := byName[n]; ok {
			run("DeferCleanup(func(SpecContext), "+n+")", []k05arg{ctxF, d.arg}, true, "")
		}
	}
	c.Floor(60)
}

// plainContext is a type that is a context.Context and no SpecContext.
func (w *k05s) plainContext() types.Type {
	for _, p := range w.c.P.SSA.AllPackages() {
		if p.Pkg.Path() == "context" {
			if t, ok := p.Pkg.Scope().Lookup("Context").(*types.TypeName); ok {
				// a struct that embeds a context has the context's methods
				f := types.NewField(token.NoPos, p.Pkg, "Context", t.Type(), true)
				return types.NewPointer(types.NewNamed(types.NewTypeName(token.NoPos, p.Pkg, "plainContext", nil), types.NewStruct([]*types.Var{f}, nil), nil))
			}
		}
	}
	return nil
}

// entry: what AddReportEntry makes of its arguments.
func (w *k05s) entry() {
	c := w.c
	c.Rule("report entries", "a visibility, location, offset, time or value passed to AddReportEntry is what the entry that reaches the report has; a second value gives an error")
	fn := c.Fn("internal.NewReportEntry")
	add := c.Fn("(*internal.Suite).AddReportEntry")
	if fn == nil || add == nil {
		c.Undecided("no NewReportEntry or AddReportEntry")
		return
	}
	timeT := types.Type(nil)
	for _, p := range c.P.SSA.AllPackages() {
		if p.Pkg.Path() == "time" {
			timeT = p.Type("Time").Type()
		}
	}
	vis := c.Type("types", "ReportEntryVisibility")
	loc := c.Type("types", "CodeLocation")
	off := w.named("Offset")
	if timeT == nil || vis == nil || loc == nil || off == nil {
		c.Undecided("the types of report entries are not understood")
		return
	}
	old := w.fn
	w.fn = fn
	defer func() { w.fn = old }()
	user := w.boxed("value", types.Typ[types.String])
	for _, t := range []struct {
		name  string
		args  []k05arg
		field string
		want  string
		err   bool
	}{
		{"a time", []k05arg{w.boxed("time", timeT)}, "Time", "set:time~", false},
		{"a visibility", []k05arg{w.boxed("visibility", vis)}, "Visibility", "set:visibility~", false},
		{"a location", []k05arg{w.boxed("location", loc)}, "Location", "set:location~", false},
		{"an offset", []k05arg{w.konst("offset", constant.MakeInt64(3), off)}, "Location", "loc~5", false},
		{"a value", []k05arg{user}, "Value", "set:value~", false},
		{"a value after a time", []k05arg{w.boxed("time", timeT), user}, "Value", "set:value~", false},
		{"a time after a value", []k05arg{user, w.boxed("time", timeT)}, "Time", "set:time~", false},
		{"two values", []k05arg{user, w.boxed("other", types.Typ[types.Int])}, "", "", true},
		{"nothing", nil, "Location", "arg", false},
	} {
		res, ok := w.build(nil, t.args)
		if !ok {
			c.Undecided("AddReportEntry with %s is not understood: %s", t.name, w.why)
			continue
		}
		for _, b := range res {
			label := "AddReportEntry with " + t.name
			if b.panics != "" {
				c.Fail(label, fn.Pos(), b.path, "it panics")
				continue
			}
			if t.err {
				c.Check(len(b.errs) > 0, label, fn.Pos(), b.path, "no error is given")
				continue
			}
			if len(b.errs) > 0 {
				c.Fail(label, fn.Pos(), b.path, "errors %v", b.errs)
				continue
			}
			v := b.node(t.field)
			if t.want == "arg" {
				c.Check(v != nil && !v.Mentions("loc~"), label, fn.Pos(), b.path, "%s of the entry is %v", t.field, v)
				continue
			}
			c.Check(v != nil && v.Mentions(t.want), label, fn.Pos(), b.path, "%s of the entry is %v, not %s", t.field, v, t.want)
		}
	}
	// what the suite stores and emits is the entry it was given
	fields := []string{"Time", "Visibility", "Location", "Value", "Name"}
	if e := c.Type("types", "ReportEntry"); e != nil && len(add.Params) == 2 {
		run := int64(0)
		if v := c.ConstVal("internal", "PhaseRun"); v != nil {
			run, _ = v.Int()
		}
		emitted := 0
		var x *engine.Interp
		x = engine.New(c.P, engine.Cfg{Root: add, Linear: true, Budget: 8000, Lists: 4, OnBranch: onKnownBranch,
			Init: func(st *engine.State) {
				x.Store(st, "*"+engine.ParamSym(add.Params[0]).Key()+".phase", engine.IntVal(run, types.Typ[types.Uint]))
			},
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				if strings.HasSuffix(k.Name, ".EmitReportEntry") {
					emitted++
					for _, f := range fields {
						v := k.X.FieldOf(k.St, k.Args[len(k.Args)-1], f)
						src := engine.ParamSym(add.Params[1]).Key() + "." + f
						if v == nil {
							c.Undecided("field %s of the entry is not understood", f)
							continue
						}
						c.Check(v.Mentions(src), "entry field "+f, k.Pos(), k.St.Path(10), "%s of the entry that is reported is %s, not what it was given", f, v.Key())
					}
					return k.Return(k.Fresh()), true
				}
				if strings.Contains(k.Name, "generateTimelineLocation") {
					return k.Return(k.Fresh()), true
				}
				return nil, false
			}})
		c.Run(x)
		if emitted == 0 {
			c.Undecided("no report entry is emitted")
		}
	}
	c.Floor(12)
}

// k05entry is one Entry of a table.
type k05entry struct {
	desc   k05arg
	params []k05arg
	types  []types.Type // nil for a nil parameter
	decos  []k05arg
}

// tables: what a table makes of its arguments.
func (w *k05s) tables(sigs map[string]types.Type, byName map[string]k05deco, point types.Type) {
	c := w.c
	c.Rule("tables", k05tables)
	fn := c.Fn("ginkgo.generateTable")
	entryFn := c.Fn("ginkgo.Entry")
	if fn == nil || entryFn == nil || len(fn.Params) != 3 || len(entryFn.Params) != 2 {
		c.Undecided("tables are not understood")
		return
	}
	str, integer := types.Typ[types.String], types.Typ[types.Int]
	errT := c.P.ErrorType()
	specCtx, ctxT := w.named("SpecContext"), sigs["func(context.Context)"].(*types.Signature).Params().At(0).Type()
	fnT := func(variadic bool, ps ...types.Type) *types.Signature { return w.sig(ps, nil, variadic) }
	strFn := func(variadic bool, ps ...types.Type) *types.Signature {
		return w.sig(ps, []types.Type{str}, variadic)
	}
	// hook for everything a table calls
	type pushed struct {
		kind  string
		text  *engine.Val
		args  []*engine.Val
		st    *engine.State
		x     *engine.Interp
		known bool
	}
	var nodes []pushed
	var calls [][]*engine.Val
	where := "table"
	helper := func(k *engine.Call) ([]engine.Outcome, bool) {
		switch {
		case k.Name == "types.NewCodeLocation":
			return k.Return(engine.Sym("loc~"+where, k.T)), true
		case strings.HasSuffix(k.Name, "GinkgoHelper"), k.Name == "types.MarkAsHelper":
			return k.Return(engine.Nil(k.T)), true
		case k.Name == "internal.NewNode":
			p := pushed{x: k.X, st: k.St.Clone(), known: true}
			for i, q := range c.Fn("internal.NewNode").Params {
				if i >= len(k.Args) {
					break
				}
				switch engine.TypeStr(q.Type()) {
				case "types.NodeType":
					p.kind = kindName(c, k.Args[i])
				case "string":
					p.text = k.Args[i]
				case "[]any", "[]interface{}":
					p.args, p.known = k.X.Elems(k.St, k.Args[i])
				}
			}
			nodes = append(nodes, p)
			return k.Return(engine.Tuple(engine.Sym("the~node", k.T.(*types.Tuple).At(0).Type()), engine.Nil(k.T.(*types.Tuple).At(1).Type()))), true
		case strings.HasSuffix(k.Name, ".pushNode"):
			return k.Return(engine.BoolVal(true)), true
		case k.Name == "ginkgo.exitIfErr":
			if k.Args[0].IsNil() {
				return k.Return(engine.Nil(k.T)), true
			}
			return []engine.Outcome{{St: k.St, Kind: engine.ExitOS, Ret: k.Args[0]}}, true
		case k.Name == "(reflect.Value).Call":
			es, ok := k.X.Elems(k.St, k.Args[1])
			if !ok {
				return nil, false
			}
			calls = append(calls, append([]*engine.Val{k.Args[0]}, es...))
			res := engine.Expr("rval", k.T.(*types.Slice).Elem(), engine.Sym("described~", str))
			return k.Return(k.NewSlice([]*engine.Val{res}, k.T)), true
		case k.Name == "reflect.Zero":
			if t, known := w.m.of(k.Args[0]); known && t != nil {
				return k.Return(engine.Expr("rval", k.T, engine.Sym("zero~", t))), true
			}
			return nil, false
		case k.Name == "(reflect.Value).String":
			return k.Return(engine.Sym("described~", k.T)), true
		case k.Name == "fmt.Sprintf" || k.Name == "fmt.Sprint":
			as := append([]*engine.Val{}, k.Args...)
			if es, ok := k.X.Elems(k.St, k.Args[len(k.Args)-1]); ok {
				as = append(as, es...)
			}
			return k.Return(engine.Expr("text", k.T, as...)), true
		}
		return w.call(k)
	}
	run := func(y *engine.Interp) []*engine.Exit {
		c.Run(y)
		var out []*engine.Exit
		for _, e := range y.Exits {
			if e.Kind != engine.ExitStop {
				out = append(out, e)
			}
		}
		return out
	}
	cfg := func(root *ssa.Function, bind, args []*engine.Val, init func(st *engine.State)) engine.Cfg {
		return engine.Cfg{Root: root, Bind: bind, Args: args, Linear: true, Lists: 12, Budget: 40000, MaxDepth: 16, OnBranch: w.m.branch, OnCall: helper, Init: init}
	}
	pkgs := []*ssa.Package{fn.Pkg, w.fn.Pkg}
	store := func(x *engine.Interp, st *engine.State, args []k05arg, t types.Type) *engine.Val {
		var es []*engine.Val
		for _, a := range args {
			es = append(es, a.make(x, st))
		}
		return w.slice(x, st, es, t)
	}
	bodyOfNode := func(p pushed) (f *engine.Val) {
		for _, a := range p.args {
			if u := a.Unbox(); u.K == engine.VFunc && u.Fn != nil {
				f = u
			}
		}
		return f
	}
	entryArg := func(i int, e k05entry) k05arg {
		return k05arg{"an entry", func(x *engine.Interp, st *engine.State) *engine.Val {
			var y *engine.Interp
			all := append(append([]k05arg{}, e.params...), e.decos...)
			defer func(old string) { where = old }(where)
			where = fmt.Sprintf("entry%d", i)
			d := e.desc.make(x, st)
			l := store(x, st, all, entryFn.Params[1].Type())
			y = engine.New(c.P, cfg(entryFn, nil, []*engine.Val{d, l}, func(s *engine.State) {
				s.CopyMem(st)
				w.m.globals(c, y, s, pkgs...)
			}))
			y.ContinueTokens(x)
			ex := run(y)
			x.ContinueTokens(y)
			if len(ex) != 1 || ex[0].Kind != engine.ExitReturn {
				return engine.Box(engine.Sym("entry~", entryFn.Signature.Results().At(0).Type()), w.any)
			}
			st.CopyMem(ex[0].St)
			return engine.Box(ex[0].Ret, w.any)
		}}
	}
	// build runs generateTable; ended is true when it reported an error
	build := func(subtree bool, args []k05arg) (top *pushed, ended, ok bool) {
		nodes = nil
		var x *engine.Interp
		w.n++
		base := fmt.Sprintf("*k05table%d", w.n)
		x = engine.New(c.P, cfg(fn, nil, []*engine.Val{engine.Sym("the~table", str), engine.BoolVal(subtree), engine.SliceAt(base, len(args), fn.Params[2].Type())}, func(st *engine.State) {
			w.m.globals(c, x, st, pkgs...)
			for i, a := range args {
				x.Store(st, fmt.Sprintf("%s[%d]", base, i), a.make(x, st))
			}
		}))
		ex := run(x)
		if len(ex) != 1 || len(x.Undec) > 0 {
			w.why = fmt.Sprintf("%d exits, %v", len(ex), x.Undec)
			return nil, false, false
		}
		if ex[0].Kind != engine.ExitReturn {
			return nil, ex[0].Kind == engine.ExitOS && ginkgoErr(ex[0].Ret) != "?", ex[0].Kind == engine.ExitOS
		}
		if len(nodes) != 1 || !nodes[0].known {
			return nil, false, len(nodes) == 0
		}
		return &nodes[0], false, true
	}
	body := func(t types.Type) k05arg { return w.body("tablebody", t) }
	f0 := fnT(false)
	plainEntry := k05entry{desc: w.boxed("name", str)}
	for _, t := range []struct {
		name string
		args []k05arg
	}{
		{"no argument", nil},
		{"entries and no body", []k05arg{entryArg(0, plainEntry), entryArg(1, plainEntry)}},
		{"two bodies", []k05arg{body(f0), body(f0), entryArg(0, plainEntry)}},
		{"nil", []k05arg{body(f0), w.nilArg(), entryArg(0, plainEntry)}},
	} {
		top, ended, ok := build(false, t.args)
		if !ok && !ended && top == nil && w.why != "" && nodes == nil {
			c.Undecided("a table with %s is not understood: %s", t.name, w.why)
			continue
		}
		c.Check(ended, "a table with "+t.name, fn.Pos(), nil, "no error is reported")
	}
	params := map[string]struct {
		arg k05arg
		t   types.Type
	}{
		"string": {w.boxed("p1", str), str}, "int": {w.boxed("p2", integer), integer}, "nil": {w.nilArg(), nil},
		"point": {w.boxed("p3", point), point}, "context": {w.boxed("p4", specCtx), specCtx}, "zero int": {w.konst("p6", constant.MakeInt64(0), integer), integer},
	}
	params2 := map[string]struct {
		arg k05arg
		t   types.Type
	}{
		"string": {w.boxed("q1", str), str}, "int": {w.boxed("q2", integer), integer}, "nil": {w.nilArg(), nil},
		"point": {w.boxed("q3", point), point}, "context": {w.boxed("q4", specCtx), specCtx}, "zero int": {w.konst("q6", constant.MakeInt64(0), integer), integer},
	}
	plain := w.plainContext()
	if plain != nil {
		p, q := params["context"], params2["context"]
		p.arg, p.t = w.boxed("p5", plain), plain
		q.arg, q.t = w.boxed("q5", plain), plain
		params["plain context"], params2["plain context"] = p, q
	}
	type tableT struct {
		name string
		sig  *types.Signature
	}
	bodiesT := []tableT{{"func()", f0}, {"func(string)", fnT(false, str)}, {"func(int, string)", fnT(false, integer, str)}, {"func(...string)", fnT(true, types.NewSlice(str))},
		{"func(int, ...string)", fnT(true, integer, types.NewSlice(str))}, {"func(any)", fnT(false, w.any)}, {"func(error)", fnT(false, errT)},
		{"func(SpecContext, string)", fnT(false, specCtx, str)}, {"func(context.Context, string)", fnT(false, ctxT, str)}, {"func(SpecContext, ...string)", fnT(true, specCtx, types.NewSlice(str))}}
	lists := [][]string{{}, {"string"}, {"int"}, {"nil"}, {"int", "string"}, {"string", "string"}, {"int", "string", "string"}, {"string", "nil"}, {"point"}, {"context", "string"}, {"int", "nil", "string"}, {"int", "string", "point"}, {"zero int"}, {"zero int", "string"}}
	if plain != nil {
		lists = append(lists, []string{"plain context", "string"})
	}
	focus, hasFocus := byName["Focus"]
	for _, subtree := range []bool{false, true} {
		for _, b := range bodiesT {
			for n, l := range append(append([][]string{}, lists...), lists...) {
				label := fmt.Sprintf("%s with (%s)", b.name, strings.Join(l, ", "))
				spoilt := n >= len(lists) // the other entry's parameters do not fit
				if spoilt {
					label += " before a misfit"
				}
				if subtree {
					label += " as a subtree"
				}
				takesCtx := b.sig.Params().Len() > 0 && (types.Identical(b.sig.Params().At(0).Type(), specCtx) || types.Identical(b.sig.Params().At(0).Type(), ctxT))
				given := takesCtx && types.Identical(b.sig.Params().At(0).Type(), ctxT) && len(l) > 0 && (l[0] == "context" || l[0] == "plain context")
				ctx := takesCtx && !given
				if subtree && len(l) > 2 || spoilt && given {
					continue
				}
				e := k05entry{desc: w.boxed("name", str)}
				for _, n := range l {
					e.params = append(e.params, params[n].arg)
					e.types = append(e.types, params[n].t)
				}
				if hasFocus {
					e.decos = []k05arg{focus.arg}
				}
				second := k05entry{desc: w.boxed("other", str)}
				l2 := l
				if spoilt {
					l2 = []string{"point", "nil", "point"}
				}
				for _, n := range l2 {
					second.params = append(second.params, params2[n].arg)
					second.types = append(second.types, params2[n].t)
				}
				args := []k05arg{body(b.sig), entryArg(0, e), entryArg(1, second)}
				if entryT := entryFn.Signature.Results().At(0).Type(); len(l)%2 == 1 {
					args = []k05arg{entryArg(0, e), w.list("entries", entryT, entryArg(1, second)), body(b.sig)}
				} else if len(l) == 0 {
					args = []k05arg{w.list("entries", entryT, entryArg(0, e)), body(b.sig), w.list("entries", entryT, entryArg(1, second))}
				}
				if hasFocus {
					args = append(args, byName["Serial"].arg)
				}
				top, ended, ok := build(subtree, args)
				if !ok || top == nil {
					if ended {
						c.Fail(label, fn.Pos(), nil, "the table is rejected")
						continue
					}
					c.Undecided("%s is not understood: %s", label, w.why)
					continue
				}
				c.Check(top.kind == "Container" && top.text.Key() == "the~table", label+" container", fn.Pos(), nil, "the table makes a %s called %v", top.kind, top.text)
				serial := false
				place := 0
				for _, a := range top.args {
					if u := a.Unbox(); u.T != nil && engine.TypeStr(u.T) == "types.CodeLocation" && u.Key() == "loc~table" {
						place++
					}
					serial = serial || a.Unbox().T != nil && engine.TypeStr(a.Unbox().T) == "internal.serialType"
				}
				c.Check(serial || !hasFocus, label+" decorations", fn.Pos(), nil, "the table's decoration is not passed on")
				c.Check(place == 1, label+" place", fn.Pos(), nil, "the table's location is not passed on")
				f := bodyOfNode(*top)
				if f == nil {
					c.Fail(label+" body", fn.Pos(), nil, "the container has no body")
					continue
				}
				nodes = nil
				st := top.st
				var y *engine.Interp
				y = engine.New(c.P, cfg(f.Fn, f.Args, nil, func(s *engine.State) { s.CopyMem(st) }))
				y.ContinueTokens(top.x)
				ex := run(y)
				if len(ex) != 1 || len(y.Undec) > 0 {
					c.Undecided("%s: the container's body is not understood: %v", label, y.Undec)
					continue
				}
				if subtree && ctx {
					c.Check(ex[0].Kind == engine.ExitOS, label+" context", f.Fn.Pos(), ex[0].St.Path(10), "a container cannot take a context, yet no error is reported")
					continue
				}
				if ex[0].Kind != engine.ExitReturn {
					c.Fail(label+" container body", f.Fn.Pos(), ex[0].St.Path(10), "the container's body ends with %v", ex[0].Ret)
					continue
				}
				c.Check(len(nodes) == 2, label+" nodes", f.Fn.Pos(), ex[0].St.Path(10), "two entries make %d nodes", len(nodes))
				if len(nodes) != 2 {
					continue
				}
				want := "It"
				if subtree {
					want = "Container"
				}
				made := nodes
				for i, p := range made {
					name := []string{"set:name~", "set:other~"}[i]
					c.Check(p.kind == want && p.text != nil && p.text.Key() == name, fmt.Sprintf("%s node %d", label, i+1), f.Fn.Pos(), nil, "the entry makes a %s called %v, not a %s called %s", p.kind, p.text, want, name)
					located, focused := false, false
					for _, a := range p.args {
						u := a.Unbox()
						located = located || u.T != nil && engine.TypeStr(u.T) == "types.CodeLocation" && u.Key() == fmt.Sprintf("loc~entry%d", i)
						focused = focused || u.T != nil && engine.TypeStr(u.T) == "internal.focusType"
					}
					c.Check(located, fmt.Sprintf("%s location %d", label, i+1), f.Fn.Pos(), nil, "the entry's location is not passed on")
					c.Check(focused == (i == 0 && hasFocus), fmt.Sprintf("%s decorations %d", label, i+1), f.Fn.Pos(), nil, "Focus on the first entry only: passed on to entry %d is %v", i+1, focused)
				}
				// what the entries' bodies do: the second entry runs first, the first one twice
				last, lastSt := y, ex[0].St
				for turn, which := range []int{1, 0, 0} {
					sub := fmt.Sprintf("%s, entry %d", label, which+1)
					if turn == 2 {
						sub += " again"
					}
					values, entry, list := params, e, l
					if which == 1 {
						values, entry, list = params2, second, l2
					}
					g := bodyOfNode(made[which])
					if g == nil {
						c.Fail(sub+" body", f.Fn.Pos(), nil, "the entry has no body")
						break
					}
					c.Check((len(g.Fn.Params) == 1) == ctx, sub+" context", g.Fn.Pos(), nil, "the entry's body takes %d arguments, the table's body needs a context: %v", len(g.Fn.Params), ctx)
					calls = nil
					var z *engine.Interp
					var gargs []*engine.Val
					if len(g.Fn.Params) == 1 {
						gargs = []*engine.Val{engine.Sym("set:ctx~", g.Fn.Params[0].Type())}
					}
					from := lastSt
					z = engine.New(c.P, cfg(g.Fn, g.Args, gargs, func(s *engine.State) { s.CopyMem(ex[0].St); s.CopyMem(from) }))
					z.ContinueTokens(last)
					zx := run(z)
					if len(zx) != 1 || len(z.Undec) > 0 {
						c.Undecided("%s: the entry's body is not understood: %v", sub, z.Undec)
						break
					}
					last, lastSt = z, zx[0].St
					if !fits(b.sig, entry.types, ctx) {
						c.Check(len(calls) == 0 && zx[0].Kind == engine.ExitPanic && zx[0].Ret != nil && ginkgoErr(zx[0].Ret) != "?", sub+" mismatch", g.Fn.Pos(), zx[0].St.Path(10), "the parameters do not fit, yet the body is called %d times", len(calls))
						continue
					}
					c.Check(len(calls) == 1 && zx[0].Kind == engine.ExitReturn, sub+" call", g.Fn.Pos(), zx[0].St.Path(10), "the parameters fit, yet the body is called %d times (%v)", len(calls), zx[0].Ret)
					if len(calls) != 1 {
						continue
					}
					var wants []string
					if ctx {
						wants = append(wants, "set:ctx~")
					}
					for _, n := range list {
						if n == "nil" {
							wants = append(wants, "zero~")
						} else {
							wants = append(wants, values[n].arg.make(nil, nil).Unbox().Key())
						}
					}
					got := []string{}
					for _, a := range calls[0][1:] {
						if a.K == engine.VExpr && a.S == "rval" {
							got = append(got, a.Args[0].Unbox().Key())
						} else {
							got = append(got, a.Key())
						}
					}
					c.Check(strings.Join(got, " ") == strings.Join(wants, " "), sub+" arguments", g.Fn.Pos(), zx[0].St.Path(10), "the body is called with (%s), not (%s)", strings.Join(got, ", "), strings.Join(wants, ", "))
				}
			}
		}
	}
	// descriptions
	ed := types.Type(nil)
	if sc := rootScope(c); sc != nil {
		if o := sc.Lookup("EntryDescription"); o != nil {
			ed = o.Type()
		}
	}
	if ed == nil {
		c.Undecided("no EntryDescription")
		return
	}
	descs := []struct {
		name  string
		table *k05arg
		desc  k05arg
		want  string
	}{}
	p := func(a k05arg) *k05arg { return &a }
	add := func(name string, table *k05arg, desc k05arg, want string) {
		descs = append(descs, struct {
			name  string
			table *k05arg
			desc  k05arg
			want  string
		}{name, table, desc, want})
	}
	add("a string", nil, w.boxed("name", str), "set:name~")
	add("a format", nil, w.boxed("format", ed), "set:format~ set:p1~")
	add("a format and no parameters", nil, w.boxed("format", ed), "set:format~")
	add("a string and no parameters", nil, w.boxed("name", str), "set:name~")
	add("a function and no parameters", nil, w.body("describer", strFn(false)), "described~")
	add("a function", nil, w.body("describer", strFn(false, str)), "described~")
	add("nil", nil, w.nilArg(), "Entry: ")
	add("nil with a table-level format", p(w.boxed("format", ed)), w.nilArg(), "set:format~ set:p1~")
	add("nil with a table-level function and no parameters", p(w.body("describer", strFn(false))), w.nilArg(), "described~")
	add("nil with a table-level function", p(w.body("describer", strFn(false, str))), w.nilArg(), "described~")
	add("a string with a table-level format", p(w.boxed("format", ed)), w.boxed("name", str), "set:name~")
	add("an int", nil, w.boxed("number", integer), "error")
	add("a function that does not fit", nil, w.body("describer", strFn(false, integer)), "error")
	for _, d := range descs {
		label := "an entry described by " + d.name
		e := k05entry{desc: d.desc, params: []k05arg{params["string"].arg}}
		args := []k05arg{body(fnT(false, str)), entryArg(0, e)}
		if strings.HasSuffix(d.name, "no parameters") {
			e.params = nil
			args = []k05arg{body(fnT(false)), entryArg(0, e)}
		}
		if d.table != nil {
			args = append(args, *d.table)
		}
		top, ended, ok := build(false, args)
		if top == nil && ended {
			c.Fail(label, fn.Pos(), nil, "the table is rejected")
			continue
		}
		if !ok || top == nil {
			c.Undecided("%s is not understood: %s", label, w.why)
			continue
		}
		f := bodyOfNode(*top)
		if f == nil {
			continue
		}
		nodes, calls = nil, nil
		st := top.st
		y := engine.New(c.P, cfg(f.Fn, f.Args, nil, func(s *engine.State) { s.CopyMem(st) }))
		y.ContinueTokens(top.x)
		ex := run(y)
		if len(ex) != 1 || len(y.Undec) > 0 || len(nodes) != 1 {
			c.Undecided("%s: the container's body is not understood: %d %v", label, len(ex), y.Undec)
			continue
		}
		if d.want == "error" {
			g := bodyOfNode(nodes[0])
			if g == nil {
				c.Fail(label, f.Fn.Pos(), nil, "the entry has no body")
				continue
			}
			calls = nil
			z := engine.New(c.P, cfg(g.Fn, g.Args, nil, func(s *engine.State) { s.CopyMem(ex[0].St) }))
			z.ContinueTokens(y)
			zx := run(z)
			if len(zx) != 1 {
				c.Undecided("%s: the entry's body is not understood", label)
				continue
			}
			c.Check(zx[0].Kind == engine.ExitPanic && len(calls) == 0, label, g.Fn.Pos(), zx[0].St.Path(10), "the entry runs its body instead of reporting the description")
			continue
		}
		if d.want == "Entry: " {
			calls = calls[:0:0]
			c.Check(nodes[0].text != nil, label, f.Fn.Pos(), nil, "the entry has no description")
			continue
		}
		text := nodes[0].text
		good := text != nil
		for _, part := range strings.Fields(d.want) {
			if part == "described~" && len(calls) > 0 && d.table != nil {
				continue
			}
			good = good && (text.Mentions(part) || len(calls) == 1 && mentionsAny(calls[0], part))
		}
		c.Check(good, label, f.Fn.Pos(), ex[0].St.Path(10), "the entry is called %v, which should come from %s", text, d.want)
	}
	c.Floor(400)

	c.Rule("forms", "the F, P and X form of a construct is the construct with Focus or Pending among its decorations and nothing else changed")
	scope := rootScope(c)
	root := fn.Pkg
	if scope == nil || root == nil {
		c.Undecided("no root package")
		return
	}
	resolve := func(n string) *ssa.Function {
		if o := scope.Lookup(n); o == nil || !o.Exported() {
			return nil
		}
		f, _, ok := resolveGlobal(c, root, n, 0)
		if !ok || f == nil || f.Signature.Params().Len() != 2 || !f.Signature.Variadic() || !inModule(c, f) {
			return nil
		}
		return f
	}
	item := func(v *engine.Val) string {
		u := v.Unbox()
		if u.K == engine.VFunc && u.Fn != nil {
			return "func"
		}
		t := ""
		if u.T != nil {
			t = engine.TypeStr(u.T)
		}
		return t + ":" + u.Key()
	}
	// observe is what a construct makes of its arguments
	observe := func(f *ssa.Function) (fixed string, items []string, ok bool) {
		nodes = nil
		var x *engine.Interp
		text := w.boxed("name", str).make(nil, nil)
		if !types.IsInterface(f.Params[0].Type()) {
			text = text.Unbox()
		}
		w.n++
		base := fmt.Sprintf("*k05form%d", w.n)
		given := []k05arg{body(f0)}
		for _, n := range []string{"Serial"} {
			if d, has := byName[n]; has {
				given = append(given, d.arg)
			}
		}
		if strings.Contains(f.Name(), "Table") {
			given = append(given, entryArg(0, plainEntry))
		}
		where = "table"
		x = engine.New(c.P, cfg(f, nil, []*engine.Val{text, engine.SliceAt(base, len(given), f.Params[1].Type())}, func(st *engine.State) {
			w.m.globals(c, x, st, pkgs...)
			for i, a := range given {
				x.Store(st, fmt.Sprintf("%s[%d]", base, i), a.make(x, st))
			}
		}))
		ex := run(x)
		if len(ex) != 1 || len(x.Undec) > 0 || ex[0].Kind != engine.ExitReturn {
			return "", nil, false
		}
		ret := ex[0].Ret
		if st, isS := f.Signature.Results().At(0).Type().Underlying().(*types.Struct); isS {
			var parts []string
			for i := 0; i < st.NumFields(); i++ {
				v := x.FieldOf(ex[0].St, ret, st.Field(i).Name())
				es, known := x.Elems(ex[0].St, v)
				if _, isSlice := st.Field(i).Type().Underlying().(*types.Slice); isSlice && known {
					for _, e := range es {
						items = append(items, st.Field(i).Name()+" "+item(e))
					}
					continue
				}
				parts = append(parts, st.Field(i).Name()+"="+v.Unbox().Key())
			}
			return strings.Join(parts, " "), items, true
		}
		if len(nodes) != 1 || !nodes[0].known {
			return "", nil, false
		}
		for _, e := range nodes[0].args {
			items = append(items, item(e))
		}
		return nodes[0].kind + " " + nodes[0].text.Key(), items, true
	}
	for _, n := range scope.Names() {
		if len(n) < 3 || !in(n[:1], []string{"F", "P", "X"}) {
			continue
		}
		base, form := resolve(n[1:]), resolve(n)
		if base == nil || form == nil || base.Signature.Results().Len() != 1 || !types.Identical(base.Signature, form.Signature) {
			continue
		}
		fa, ia, okA := observe(base)
		fb, ib, okB := observe(form)
		if !okA || !okB {
			c.Undecided("%s and %s are not understood", n[1:], n)
			continue
		}
		deco := "internal.pendingType"
		if n[:1] == "F" {
			deco = "internal.focusType"
		}
		count := map[string]int{}
		for _, i := range ib {
			count[i]++
		}
		for _, i := range ia {
			count[i]--
		}
		var extra []string
		for _, i := range sortedKeys(count) {
			if count[i] != 0 {
				extra = append(extra, fmt.Sprintf("%+d %s", count[i], i))
			}
		}
		good := fa == fb && len(extra) == 1 && strings.HasPrefix(extra[0], "+1 ") && strings.Contains(extra[0], deco+":") && strings.HasSuffix(extra[0], "true")
		c.Check(good, n, form.Pos(), nil, "%s gives %s, %s gives %s and differs by %v", n[1:], fa, n, fb, extra)
	}
	c.Floor(12)
}

func mentionsAny(vs []*engine.Val, s string) bool {
	for _, v := range vs {
		if v.Mentions(s) {
			return true
		}
	}
	return false
}

// fits: a call of the function with values of these types is accepted.
func fits(sig *types.Signature, given []types.Type, ctx bool) bool {
	ps := []types.Type{}
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, sig.Params().At(i).Type())
	}
	if ctx {
		ps = ps[1:]
	}
	fixed := len(ps)
	if sig.Variadic() {
		fixed--
	}
	if len(given) < fixed || len(given) > fixed && !sig.Variadic() {
		return false
	}
	for i, t := range given {
		if t == nil {
			continue
		}
		want := types.Type(nil)
		if i < fixed {
			want = ps[i]
		} else {
			want = ps[fixed].(*types.Slice).Elem()
		}
		if !types.AssignableTo(t, want) {
			return false
		}
	}
	return true
}

func kindName(c *Ctx, v *engine.Val) string {
	n, ok := v.Int()
	if !ok {
		return "?"
	}
	for _, m := range c.P.EnumDomain(c.Type("types", "NodeType")) {
		if m.Val == n && n != 0 {
			return strings.TrimPrefix(m.Name, "NodeType")
		}
	}
	return "?"
}
