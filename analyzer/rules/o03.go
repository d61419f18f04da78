package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{
		ID:        "O03",
		Technique: "type-level walk over every record type plus abstract interpretation of the custom codecs and of the report writers (encode then decode, per declared enumeration value)",
		Note:      "The fidelity of encoding/json and encoding/gob themselves for plain exported fields is assumed; strings that are not valid UTF-8 are outside the rule.",
		Run:       o03,
	})
}

// jsonCodec models encoding/json on values the interpreter knows: the encoding of v is json(v).
func jsonCodec(k *engine.Call) ([]engine.Outcome, bool) {
	noErr := engine.Nil(k.X.P.ErrorType())
	switch k.Name {
	case "encoding/json.Marshal", "json.Marshal":
		if len(k.Args) == 0 {
			return nil, false
		}
		v := k.Args[0]
		if v.K == engine.VIface {
			v = v.Unbox()
		}
		if v.K == engine.VAgg && v.T != nil {
			if s, ok := v.T.Underlying().(*types.Struct); ok {
				f := map[string]*engine.Val{}
				for i := 0; i < s.NumFields(); i++ {
					f[s.Field(i).Name()] = engine.Field(v, s.Field(i).Name(), s.Field(i).Type())
				}
				v = engine.Agg(engine.Nil(v.T), f, v.T)
			}
		}
		return k.Return(engine.Tuple(engine.Expr("json", types.NewSlice(types.Typ[types.Byte]), v), noErr)), true
	case "encoding/json.Unmarshal", "json.Unmarshal":
		if len(k.Args) != 2 {
			return nil, false
		}
		b, p := stripConv(k.Args[0]), k.Args[1].Unbox()
		if p.T == nil {
			return nil, false
		}
		pt, ok := p.T.Underlying().(*types.Pointer)
		if !ok {
			return nil, false
		}
		loc, _ := k.X.Deref(p)
		if b.K == engine.VExpr && b.S == "json" && len(b.Args) == 1 {
			v := b.Args[0]
			switch {
			case v.IsNil():
				return k.Return(noErr), true // null leaves the target as it was
			case v.T != nil && basicKind(v.T) == basicKind(pt.Elem()) && basicKind(pt.Elem()) != types.Invalid:
				k.X.Store(k.St, loc, v)
				return k.Return(noErr), true
			}
			if vs, ok := structOf(v.T); ok && v.K == engine.VAgg {
				ts, ok := structOf(pt.Elem())
				if !ok {
					return nil, false
				}
				byName := map[string]string{}
				for i := 0; i < vs.NumFields(); i++ {
					if n, in := jsonName(vs, i); in {
						byName[n] = vs.Field(i).Name()
					}
				}
				for i := 0; i < ts.NumFields(); i++ {
					n, in := jsonName(ts, i)
					if from, has := byName[n]; in && has {
						k.X.Store(k.St, loc+"."+ts.Field(i).Name(), engine.Field(v, from, ts.Field(i).Type()))
					}
				}
				return k.Return(noErr), true
			}
			return nil, false
		}
		return nil, false
	}
	return nil, false
}

func structOf(t types.Type) (*types.Struct, bool) {
	if t == nil {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

func basicKind(t types.Type) types.BasicKind {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind()
	}
	return types.Invalid
}

func stripConv(v *engine.Val) *engine.Val {
	for v != nil && v.K == engine.VExpr && (v.S == "conv" || strings.HasPrefix(v.S, "conv:")) && len(v.Args) == 1 {
		v = v.Args[0]
	}
	return v
}

// jsonName is the name a field has in JSON; in is false when it is not encoded.
func jsonName(s *types.Struct, i int) (name string, in bool) {
	f := s.Field(i)
	if !f.Exported() {
		return "", false
	}
	tag := reflect.StructTag(s.Tag(i)).Get("json")
	if tag == "-" {
		return "", false
	}
	if n, _, _ := strings.Cut(tag, ","); n != "" {
		return n, true
	}
	return f.Name(), true
}

func jsonOmits(s *types.Struct, i int) (empty, zero bool) {
	_, opts, _ := strings.Cut(reflect.StructTag(s.Tag(i)).Get("json"), ",")
	for _, o := range strings.Split(opts, ",") {
		empty = empty || o == "omitempty"
		zero = zero || o == "omitzero"
	}
	return
}

func o03(c *Ctx) {
	types_ := recordTypes(c)
	o03enums(c, types_)
	o03fields(c, types_)
	o03struct(c, types_)
	o03entry(c)
	o03files(c)
}

// ownMethod is the declared method of a named type or its pointer.
func ownMethod(c *Ctx, n *types.Named, name string) *ssa.Function {
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return c.P.SSA.FuncValue(n.Method(i))
		}
	}
	return nil
}

func ownType(c *Ctx, n *types.Named) bool {
	return n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "github.com/onsi/ginkgo/")
}

// recordTypes are the named types of the module a record can contain, from the records that are written to files and
// those that processes exchange.
func recordTypes(c *Ctx) []*types.Named {
	seen := map[*types.Named]bool{}
	var out []*types.Named
	var walk func(t types.Type)
	walk = func(t types.Type) {
		switch u := t.(type) {
		case *types.Alias:
			walk(types.Unalias(u))
		case *types.Named:
			if seen[u] || !ownType(c, u) {
				return
			}
			seen[u] = true
			out = append(out, u)
			walk(u.Underlying())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Exported() {
					walk(u.Field(i).Type())
				}
			}
		case *types.Slice:
			walk(u.Elem())
		case *types.Array:
			walk(u.Elem())
		case *types.Pointer:
			walk(u.Elem())
		case *types.Map:
			walk(u.Key())
			walk(u.Elem())
		}
	}
	for _, n := range []string{"Report", "ProgressReport"} {
		if t := c.Type("types", n); t != nil {
			walk(t)
		}
	}
	for _, n := range []string{"BeforeSuiteState", "ParallelIndexCounter"} {
		if t := c.Type("internal/parallel_support", n); t != nil {
			walk(t)
		}
	}
	return out
}

// initialGlobal evaluates the initializer of a package variable built by one call on a map literal.
func initialMapCall(c *Ctx, x *engine.Interp, st *engine.State, g *ssa.Global) bool {
	init := g.Pkg.Func("init")
	if init == nil {
		return false
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok || s.Addr != g {
				continue
			}
			call, ok := s.Val.(*ssa.Call)
			if !ok || call.Call.StaticCallee() == nil || len(call.Call.Args) != 1 {
				return false
			}
			mm, ok := call.Call.Args[0].(*ssa.MakeMap)
			if !ok {
				return false
			}
			m := engine.Sym("nonnil:map#~lit~"+g.Name(), mm.Type())
			for _, ref := range *mm.Referrers() {
				if mu, ok := ref.(*ssa.MapUpdate); ok && mu.Map == mm {
					kc, ok1 := mu.Key.(*ssa.Const)
					vc, ok2 := mu.Value.(*ssa.Const)
					if !ok1 || !ok2 {
						return false
					}
					x.MapPut(st, m, engine.Const(kc.Value, kc.Type()), engine.Const(vc.Value, vc.Type()))
				}
			}
			y := engine.New(c.P, engine.Cfg{Root: call.Call.StaticCallee(), Args: []*engine.Val{m}, Linear: true, RangeMaps: true, Lists: 400, Budget: 40000,
				Concrete: func(*ssa.Phi) bool { return true }, Init: func(s *engine.State) { s.CopyMem(st) }})
			y.ContinueTokens(x)
			y.Run()
			x.ContinueTokens(y)
			// both iteration orders end in the same tables unless two values share a text
			var first *engine.Exit
			for _, e := range y.Exits {
				if e.Kind == engine.ExitReturn && first == nil {
					first = e
				}
			}
			if first == nil || len(y.Undec) > 0 {
				return false
			}
			st.CopyMem(first.St)
			x.Store(st, x.GlobalLoc(g), first.Ret)
			return true
		}
	}
	return false
}

// tablesUsed are the package variables of struct type that f reads, directly or in functions of its package.
func tablesUsed(c *Ctx, f *ssa.Function) []*ssa.Global {
	var out []*ssa.Global
	seen := map[*ssa.Global]bool{}
	for _, g := range c.P.Reach(f, func(h *ssa.Function) bool { return h.Pkg != f.Pkg }) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if gl, ok := (*op).(*ssa.Global); ok && !seen[gl] {
						if _, isS := gl.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); isS {
							seen[gl] = true
							out = append(out, gl)
						}
					}
				}
			}
		}
	}
	return out
}

func o03enums(c *Ctx, all []*types.Named) {
	c.Rule("enumerations", "every declared value of every enumeration a record can contain encodes to a text of its own, and decoding that text yields the value again (the codecs are interpreted for each declared value)")
	n := 0
	for _, T := range all {
		enc, dec, str := ownMethod(c, T, "MarshalJSON"), ownMethod(c, T, "UnmarshalJSON"), ownMethod(c, T, "String")
		dom := c.P.EnumDomain(T)
		if _, isS := structOf(T); isS || len(dom) == 0 {
			continue
		}
		if enc == nil && dec == nil {
			c.Ok("%s is carried as its number", T.Obj().Name())
			continue
		}
		if enc == nil || dec == nil {
			c.Fail(T.Obj().Name(), T.Obj().Pos(), nil, "%s has only one half of a JSON codec", T.Obj().Name())
			continue
		}
		n++
		run := func(f *ssa.Function, args ...*engine.Val) (*engine.Interp, *engine.Exit) {
			known := true
			var x *engine.Interp
			x = engine.New(c.P, engine.Cfg{Root: f, Args: args, Linear: true, Lists: 400, RangeMaps: true, Budget: 40000, Concrete: func(*ssa.Phi) bool { return true },
				Init: func(s *engine.State) {
					for _, g := range tablesUsed(c, f) {
						known = initialMapCall(c, x, s, g) && known
					}
				},
				OnCall: func(k *engine.Call) ([]engine.Outcome, bool) { return jsonCodec(k) }})
			c.Run(x)
			if !known || len(x.Undec) > 0 {
				return x, nil
			}
			var ret *engine.Exit
			for _, e := range x.Exits {
				if e.Kind == engine.ExitReturn {
					if ret != nil {
						return x, nil
					}
					ret = e
				}
			}
			return x, ret
		}
		texts, names := map[string]string{}, map[string]string{}
		for _, cv := range dom {
			i := cv.Val
			v := engine.IntVal(i, T)
			name := cv.Name
			_, e := run(enc, v)
			if e == nil || e.Ret == nil || e.Ret.K != engine.VTuple || e.Ret.Args[0].K != engine.VExpr || e.Ret.Args[0].S != "json" {
				c.Undecided("the encoding of %s is not understood", name)
				continue
			}
			text := e.Ret.Args[0].Args[0]
			if _, ok := text.Str(); !ok && !text.IsNil() {
				c.Undecided("the encoding of %s is not a constant text", name)
				continue
			}
			c.Check(texts[text.Key()] == "", c.P.CalleeName(enc), enc.Pos(), e.St.Path(8), "%s is written as %s, as %s is", name, text.Key(), texts[text.Key()])
			texts[text.Key()] = name
			p := engine.PtrTo("*e0", types.NewPointer(T))
			x, d := run(dec, p, e.Ret.Args[0])
			if d == nil {
				c.Undecided("the decoding of %s is not understood", name)
				continue
			}
			got := x.Load(d.St, "*e0", T)
			if j, ok := got.Int(); ok {
				c.Check(j == i, c.P.CalleeName(dec), dec.Pos(), d.St.Path(8), "%s is written as %s and read back as %d", name, text.Key(), j)
			} else if got.IsNil() {
				c.Check(i == 0, c.P.CalleeName(dec), dec.Pos(), d.St.Path(8), "%s is written as %s and read back as the zero value", name, text.Key())
			} else {
				// the target was not written: it keeps the value it had, which is zero for a fresh record
				c.Undecided("what %s decodes to is not understood (%s)", name, got.Key())
			}
			if str != nil {
				_, s := run(str, v)
				if s == nil || s.Ret == nil {
					c.Undecided("the text of %s is not understood", name)
				} else if t, ok := s.Ret.Str(); ok {
					c.Check(names[t] == "", c.P.CalleeName(str), str.Pos(), s.St.Path(8), "%s is printed as %q, as %s is", name, t, names[t])
					names[t] = name
				}
			}
		}
	}
	if n > 0 {
		c.Floor(80)
	}
}

func o03fields(c *Ctx, all []*types.Named) {
	c.Rule("fields", "every field of every record type is exported or handled by a codec of its type, has a JSON name of its own, is of a kind both encodings restore, and is left out only when it is zero")
	for _, T := range all {
		s, ok := structOf(T)
		if !ok {
			continue
		}
		full := ownMethod(c, T, "MarshalJSON") != nil && ownMethod(c, T, "UnmarshalJSON") != nil
		gob := ownMethod(c, T, "GobEncode") != nil && ownMethod(c, T, "GobDecode") != nil
		tn := T.Obj().Name()
		names := map[string]string{}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			id := tn + "." + f.Name()
			if !f.Exported() {
				c.Check(full && gob, id, f.Pos(), nil, "%s is not exported and %s has no codec for it: the value is lost between processes and in files", id, tn)
				continue
			}
			if !full && ownMethod(c, T, "MarshalJSON") == nil {
				n, in := jsonName(s, i)
				if !c.Check(in, id, f.Pos(), nil, "%s is left out of the JSON encoding", id) {
					continue
				}
				c.Check(names[n] == "", id, f.Pos(), nil, "%s has the JSON name %q of %s", id, n, names[n])
				names[n] = id
				if _, zero := jsonOmits(s, i); zero {
					if nt, ok := f.Type().(*types.Named); ok && ownType(c, nt) && ownMethod(c, nt, "IsZero") != nil {
						c.Undecided("%s is left out when its IsZero method says so", id)
					}
				}
			} else if !full {
				// decoded field by field: the name must be the one the encoder uses, see the next rule
				_, in := jsonName(s, i)
				c.Check(in, id, f.Pos(), nil, "%s is left out of the JSON decoding", id)
			}
			if why := lossyType(f.Type(), map[types.Type]bool{}); why != "" {
				c.Check(full && gob, id, f.Pos(), nil, "%s is %s, which the encodings do not restore", id, why)
			} else {
				c.Ok("%s", id)
			}
		}
	}
	c.Floor(60)
}

func lossyType(t types.Type, seen map[types.Type]bool) string {
	if seen[t] {
		return ""
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Signature:
		return "a function"
	case *types.Chan:
		return "a channel"
	case *types.Interface:
		return "an interface"
	case *types.Basic:
		if u.Info()&types.IsComplex != 0 || u.Kind() == types.UnsafePointer {
			return "a " + u.Name()
		}
	case *types.Slice:
		return lossyType(u.Elem(), seen)
	case *types.Array:
		return lossyType(u.Elem(), seen)
	case *types.Pointer:
		return lossyType(u.Elem(), seen)
	case *types.Map:
		if b, ok := u.Key().Underlying().(*types.Basic); !ok || b.Info()&(types.IsString|types.IsInteger) == 0 {
			return "a map with keys that are no text"
		}
		return lossyType(u.Elem(), seen)
	}
	return ""
}

// leaves are the settable leaf fields of a struct type, as paths.
func leaves(t types.Type, depth int) [][]int {
	s, ok := structOf(t)
	if n, isN := t.(*types.Named); !ok || depth == 0 || isN && n.Obj().Name() == "Time" {
		return [][]int{nil}
	}
	var out [][]int
	for i := 0; i < s.NumFields(); i++ {
		if !s.Field(i).Exported() {
			continue
		}
		for _, p := range leaves(s.Field(i).Type(), depth-1) {
			out = append(out, append([]int{i}, p...))
		}
	}
	return out
}

// oneLeaf is the zero struct with one leaf set to something that is not zero.
func oneLeaf(x *engine.Interp, st *engine.State, t types.Type, path []int, name string, sliceLen int) *engine.Val {
	if len(path) == 0 {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsBoolean != 0:
				v := *engine.BoolVal(true)
				v.T = t
				return &v
			case u.Info()&types.IsString != 0:
				return engine.Const(constant.MakeString("~"), t)
			case u.Info()&types.IsNumeric != 0:
				return engine.IntVal(7, t)
			}
		case *types.Slice:
			loc := "*set:" + name
			for j := 0; j < sliceLen; j++ {
				x.Store(st, fmt.Sprintf("%s[%d]", loc, j), engine.Sym(fmt.Sprintf("set:%s~%d", name, j), u.Elem()))
			}
			return engine.SliceAt(loc, sliceLen, t)
		case *types.Pointer:
			return engine.PtrTo("*set:"+name, t)
		}
		return engine.Sym("set:"+name, t)
	}
	s, _ := structOf(t)
	f := s.Field(path[0])
	return engine.Agg(engine.Nil(t), map[string]*engine.Val{f.Name(): oneLeaf(x, st, f.Type(), path[1:], name+"."+f.Name(), sliceLen)}, t)
}

func leafName(t types.Type, path []int) string {
	if len(path) == 0 {
		return ""
	}
	s, _ := structOf(t)
	f := s.Field(path[0])
	return "." + f.Name() + leafName(f.Type(), path[1:])
}

// o03struct: a struct type with its own encoder and the standard decoder.
func o03struct(c *Ctx, all []*types.Named) {
	c.Rule("own-encoders", "an encoder written by hand puts every field of the record under the name and with the type the decoder expects, with the record's own value whenever that is not zero (checked with each leaf of the record set alone; a failure counts as set when it has a message or a location)")
	n := 0
	for _, T := range all {
		s, ok := structOf(T)
		enc := ownMethod(c, T, "MarshalJSON")
		if !ok || enc == nil || ownMethod(c, T, "UnmarshalJSON") != nil {
			continue
		}
		if _, ptr := enc.Params[0].Type().(*types.Pointer); ptr {
			c.Undecided("%s encodes through a pointer", enc)
			continue
		}
		var todo [][]int
		var lens []int
		for _, path := range leaves(T, 3) {
			todo, lens = append(todo, path), append(lens, 1)
			if _, isSl := s.Field(path[0]).Type().Underlying().(*types.Slice); isSl && len(path) == 1 {
				todo, lens = append(todo, path), append(lens, 2)
			}
		}
		for at, path := range todo {
			sliceLen := lens[at]
			what := T.Obj().Name() + leafName(T, path)
			arg := engine.Nil(T)
			holder := *arg
			var want *engine.Val
			var encoded []*engine.Val
			var x *engine.Interp
			x = engine.New(c.P, engine.Cfg{Root: enc, Args: []*engine.Val{&holder}, Linear: true, Budget: 20000, OnBranch: onKnownBranch,
				Init: func(st *engine.State) {
					holder = *oneLeaf(x, st, T, path, T.Obj().Name(), sliceLen)
					if fn := s.Field(path[0]).Name(); len(path) > 1 && what != T.Obj().Name()+"."+fn+".Message" && !strings.HasPrefix(what, T.Obj().Name()+"."+fn+".Location.") {
						// a failure is one when it has a message or a location
						if fs, ok := structOf(s.Field(path[0]).Type()); ok && fieldOfType(fs, "Message") != nil && fieldOfType(fs, "Location") != nil {
							in := *holder.F[fn]
							m := map[string]*engine.Val{"Message": engine.Const(constant.MakeString("~"), types.Typ[types.String])}
							for k, v := range in.F {
								m[k] = v
							}
							holder = *engine.Agg(engine.Nil(T), map[string]*engine.Val{fn: engine.Agg(engine.Nil(in.T), m, in.T)}, T)
						}
					}
					want = engine.Field(&holder, s.Field(path[0]).Name(), s.Field(path[0]).Type())
				},
				OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
					if k.Name == "time.Time.IsZero" || k.Name == "(time.Time).IsZero" {
						return k.Return(engine.BoolVal(!strings.HasPrefix(k.Args[0].Key(), "set:"))), true
					}
					if strings.HasSuffix(k.Name, "json.Marshal") && len(k.Args) == 1 {
						encoded = append(encoded, k.Args[0].Unbox())
					}
					return jsonCodec(k)
				}})
			c.Run(x)
			if len(x.Undec) > 0 || len(encoded) != 1 {
				c.Undecided("the encoding of %s is not understood (%d encodings)", what, len(encoded))
				continue
			}
			out := encoded[0]
			os, ok := structOf(out.T)
			if !ok {
				c.Undecided("%s is not encoded as a struct", what)
				continue
			}
			var e *engine.Exit
			for _, r := range x.Exits {
				if r.Kind == engine.ExitReturn {
					e = r
				}
			}
			if e == nil {
				c.Undecided("the encoding of %s has no end", what)
				continue
			}
			n++
			name, _ := jsonName(s, path[0])
			at := -1
			for i := 0; i < os.NumFields(); i++ {
				if on, in := jsonName(os, i); in && on == name {
					at = i
				}
			}
			if !c.Check(at >= 0, c.P.CalleeName(enc), enc.Pos(), e.St.Path(12), "%s is not in the encoded record", what) {
				continue
			}
			got, ft := engine.Field(out, os.Field(at).Name(), os.Field(at).Type()), s.Field(path[0]).Type()
			if p, isP := os.Field(at).Type().(*types.Pointer); isP && !types.Identical(p, ft) {
				if got.IsNil() {
					c.Fail(c.P.CalleeName(enc), enc.Pos(), e.St.Path(12), "%s is set but left out of the encoded record", what)
					continue
				}
				loc, _ := x.Deref(got)
				got = x.Load(e.St, loc, p.Elem())
				c.Check(types.Identical(p.Elem(), ft), c.P.CalleeName(enc), enc.Pos(), nil, "%s is encoded as a %s", what, p.Elem())
			} else {
				c.Check(types.Identical(os.Field(at).Type(), ft), c.P.CalleeName(enc), enc.Pos(), nil, "%s is encoded as a %s", what, os.Field(at).Type())
			}
			c.Check(sameVal(got, want), c.P.CalleeName(enc), enc.Pos(), e.St.Path(12), "%s is set to %s but encoded as %s", what, want.Key(), got.Key())
		}
	}
	c.Floor(n)
}

// sameVal compares two values, leaf by leaf.
func sameVal(a, b *engine.Val) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.Key() == b.Key() || a.IsNil() && b.IsNil() {
		return true
	}
	if s, ok := structOf(b.T); ok && (a.K == engine.VAgg || b.K == engine.VAgg) {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if !sameVal(engine.Field(a, f.Name(), f.Type()), engine.Field(b, f.Name(), f.Type())) {
				return false
			}
		}
		return true
	}
	return false
}

func o03entry(c *Ctx) {
	c.Rule("entry-values", "a report entry's value is carried as its JSON text and its representation: encoding takes both from the value, decoding keeps both, and encoding a decoded value again yields the same text and representation")
	T, _ := c.Type("types", "ReportEntryValue").(*types.Named)
	if T == nil {
		c.Undecided("no ReportEntryValue")
		return
	}
	s, _ := structOf(T)
	var plain []string // the exported text fields
	raw := ""
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Exported() {
			plain = append(plain, s.Field(i).Name())
		} else if _, isI := s.Field(i).Type().Underlying().(*types.Interface); isI {
			raw = s.Field(i).Name()
		}
	}
	enc, dec, str := ownMethod(c, T, "MarshalJSON"), ownMethod(c, T, "UnmarshalJSON"), ownMethod(c, T, "String")
	if raw == "" || enc == nil || dec == nil || str == nil {
		c.Undecided("ReportEntryValue has changed shape")
		return
	}
	txt := func(n string) *engine.Val { return engine.Sym("set:"+n, types.Typ[types.String]) }
	js := types.NewStruct([]*types.Var{types.NewField(0, nil, "AsJSON", types.Typ[types.String], false), types.NewField(0, nil, "Representation", types.Typ[types.String], false)}, nil)
	for _, f := range plain {
		if f != "AsJSON" && f != "Representation" {
			c.Undecided("ReportEntryValue has a further field %s", f)
			return
		}
	}
	in := map[string]*engine.Val{}
	for _, f := range plain {
		in[f] = txt(f)
	}
	anyT := types.NewInterfaceType(nil, nil)
	hook := func(k *engine.Call) ([]engine.Outcome, bool) {
		if outs, ok := jsonCodec(k); ok {
			return outs, true
		}
		if strings.HasSuffix(k.Name, "json.Unmarshal") && len(k.Args) == 2 {
			loc, _ := k.X.Deref(k.Args[1].Unbox())
			k.X.Store(k.St, loc, engine.Expr("decoded", anyT, stripConv(k.Args[0])))
			return k.Return(engine.Nil(k.X.P.ErrorType())), true
		}
		return nil, false
	}
	data := engine.Expr("json", types.NewSlice(types.Typ[types.Byte]), engine.Agg(engine.Nil(js), in, js))
	var x *engine.Interp
	x = engine.New(c.P, engine.Cfg{Root: dec, Args: []*engine.Val{engine.PtrTo("*rev", types.NewPointer(T)), data}, Linear: true, Budget: 20000, OnBranch: onKnownBranch,
		Init: func(st *engine.State) { x.Store(st, "*rev", engine.Nil(T)) }, OnCall: hook})
	c.Run(x)
	n := 0
	for _, e := range x.Exits {
		if e.Kind != engine.ExitReturn || e.Ret == nil || !e.Ret.IsNil() {
			continue
		}
		n++
		for _, f := range plain {
			got := x.Load(e.St, "*rev."+f, types.Typ[types.String])
			c.Check(got.Key() == in[f].Key(), c.P.CalleeName(dec), dec.Pos(), e.St.Path(8), "decoding leaves %s at %s", f, got.Key())
		}
		got := x.Load(e.St, "*rev."+raw, anyT)
		c.Check(strings.Contains(got.Key(), "set:AsJSON"), c.P.CalleeName(dec), dec.Pos(), e.St.Path(8), "the decoded value is %s, not what its JSON text says", got.Key())
	}
	if n == 0 || len(x.Undec) > 0 {
		c.Undecided("the decoding of an entry value is not understood (%v)", x.Undec)
	}
	encode := func(what string, f map[string]*engine.Val, judge func(e *engine.Exit, asJSON, repr *engine.Val)) {
		var outs []*engine.Val
		x := engine.New(c.P, engine.Cfg{Root: enc, Args: []*engine.Val{engine.Agg(engine.Nil(T), f, T)}, Budget: 20000, OnBranch: onKnownBranch,
			OnCall: hook,
			Track:  func(string) bool { return true }})
		c.Run(x)
		for _, e := range x.Exits {
			if e.Kind != engine.ExitReturn || e.Ret == nil || e.Ret.K != engine.VTuple || !e.Ret.Args[1].IsNil() {
				continue
			}
			v := e.Ret.Args[0]
			if v.K != engine.VExpr || v.S != "json" || v.Args[0].K != engine.VAgg {
				c.Undecided("what %s is encoded as is not understood: %s", what, v.Key())
				return
			}
			outs = append(outs, v)
			judge(e, engine.Field(v.Args[0], "AsJSON", types.Typ[types.String]), engine.Field(v.Args[0], "Representation", types.Typ[types.String]))
		}
		if len(outs) == 0 || len(x.Undec) > 0 {
			c.Undecided("the encoding of %s is not understood (%v)", what, x.Undec)
		}
	}
	encode("a value", map[string]*engine.Val{raw: engine.Sym("nonnil:raw~", anyT)}, func(e *engine.Exit, asJSON, repr *engine.Val) {
		c.Check(strings.Contains(asJSON.Key(), "json(") && strings.Contains(asJSON.Key(), "raw~"), c.P.CalleeName(enc), enc.Pos(), e.St.Path(10), "the value is carried as %s", asJSON.Key())
		c.Check(!repr.IsNil() && repr.Key() != `""`, c.P.CalleeName(enc), enc.Pos(), e.St.Path(10), "the representation of a value is left out")
	})
	encode("a decoded value", map[string]*engine.Val{raw: engine.Sym("nonnil:raw~", anyT), "AsJSON": txt("AsJSON"), "Representation": txt("Representation")}, func(e *engine.Exit, asJSON, repr *engine.Val) {
		c.Check(asJSON.Key() == "set:AsJSON", c.P.CalleeName(enc), enc.Pos(), e.St.Path(10), "the JSON text of a decoded value is made anew from the decoded form (%s)", asJSON.Key())
		c.Check(repr.Key() == "set:Representation", c.P.CalleeName(enc), enc.Pos(), e.St.Path(10), "the representation of a decoded value is made anew from the decoded form (%s)", repr.Key())
	})
	encode("a decoded empty value", map[string]*engine.Val{raw: engine.Nil(anyT), "AsJSON": engine.Const(constant.MakeString("null"), types.Typ[types.String]), "Representation": txt("Representation")}, func(e *engine.Exit, asJSON, repr *engine.Val) {
		c.Check(repr.Key() == "set:Representation", c.P.CalleeName(enc), enc.Pos(), e.St.Path(10), "the representation of a decoded value is lost when its JSON is null (%s)", repr.Key())
	})
	for _, m := range []string{"GobEncode", "GobDecode"} {
		f, target := ownMethod(c, T, m), enc
		if m == "GobDecode" {
			target = dec
		}
		if f == nil {
			continue // reported by the fields rule
		}
		var seen []string
		x := engine.New(c.P, engine.Cfg{Root: f, OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			if k.Fn == target {
				var a []string
				for _, v := range k.Args {
					a = append(a, v.Key())
				}
				seen = append(seen, strings.Join(a, " "))
				if m == "GobEncode" {
					return k.Return(engine.Tuple(engine.Sym("json~", types.NewSlice(types.Typ[types.Byte])), engine.Sym("err~", k.X.P.ErrorType()))), true
				}
				return k.Return(engine.Sym("err~", k.X.P.ErrorType())), true
			}
			return nil, false
		}})
		c.Run(x)
		var want []string
		for _, p := range f.Params {
			want = append(want, engine.ParamSym(p).Key())
		}
		if len(seen) == 0 {
			c.Undecided("%s does not use the JSON codec", m)
			continue
		}
		for _, s := range seen {
			if m == "GobDecode" {
				c.Check(s == strings.Join(want, " "), c.P.CalleeName(f), f.Pos(), nil, "the codec for processes decodes %s", s)
			} else {
				c.Ok("the codec for processes encodes %s", s)
			}
		}
		for _, e := range x.Exits {
			if e.Kind != engine.ExitReturn || e.Ret == nil {
				continue
			}
			k := e.Ret.Key()
			if m == "GobEncode" {
				c.Check(e.Ret.K == engine.VTuple && e.Ret.Args[0].Key() == "json~" && e.Ret.Args[1].Key() == "err~", c.P.CalleeName(f), f.Pos(), e.St.Path(6), "the codec for processes returns %s", k)
			} else {
				c.Check(k == "err~", c.P.CalleeName(f), f.Pos(), e.St.Path(6), "the codec for processes returns %s", k)
			}
		}
	}
	c.Floor(8)
}

// o03files: what is written to a JSON file.
func o03files(c *Ctx) {
	c.Rule("files", "the JSON file of a run holds exactly the run's report, and a merged file holds every report of every source that could be decoded, each once, in the order of the sources")
	rep, _ := c.Type("types", "Report").(*types.Named)
	if rep == nil {
		c.Undecided("no Report")
		return
	}
	// the encoder's argument on each path
	encodes := func(fn *ssa.Function, args []*engine.Val, init func(x *engine.Interp, st *engine.State), dec func(k *engine.Call, src string) (*engine.Val, bool), judge func(x *engine.Interp, e *engine.Exit, got []string, pos string)) {
		bad := ""
		var x *engine.Interp
		x = engine.New(c.P, engine.Cfg{Root: fn, Args: args, Linear: true, Budget: 60000, Lists: 8, OnBranch: onKnownBranch,
			Init: func(st *engine.State) {
				if init != nil {
					init(x, st)
				}
			},
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				switch {
				case k.Name == "os.ReadFile":
					var outs []engine.Outcome
					okData := engine.Expr("filedata", types.NewSlice(types.Typ[types.Byte]), k.Args[0])
					outs = append(outs, k.Return(engine.Tuple(okData, engine.Nil(k.X.P.ErrorType())))...)
					s2 := k.St.Clone()
					outs = append(outs, engine.Outcome{St: s2, Ret: engine.Tuple(engine.Nil(okData.T), engine.Sym("nonnil:err:readfile", k.X.P.ErrorType()))})
					return outs, true
				case strings.HasSuffix(k.Name, "json.Unmarshal") && len(k.Args) == 2:
					src := stripConv(k.Args[0])
					if src.K != engine.VExpr || src.S != "filedata" {
						return nil, false
					}
					loc, _ := k.X.Deref(k.Args[1].Unbox())
					v, ok := dec(k, src.Args[0].Key())
					if !ok {
						return nil, false
					}
					s2 := k.St.Clone()
					k.X.Store(k.St, loc, v)
					k.St.Vals["ok:"+src.Args[0].Key()] = engine.BoolVal(true)
					return append(k.Return(engine.Nil(k.X.P.ErrorType())), engine.Outcome{St: s2, Ret: engine.Sym("nonnil:err:unmarshal", k.X.P.ErrorType())}), true
				case strings.HasSuffix(k.Name, "json.Encoder).Encode") && len(k.Args) == 2, strings.HasSuffix(k.Name, "json.Marshal") && len(k.Args) == 1, strings.HasSuffix(k.Name, "json.MarshalIndent") && len(k.Args) == 3:
					v := k.Args[0]
					if strings.HasSuffix(k.Name, "Encode") {
						v = k.Args[1]
					}
					v = v.Unbox()
					es, ok := k.X.Elems(k.St, v)
					if !ok && v.Key() != "empty" && !v.IsNil() {
						bad = "a list the analysis cannot follow is encoded: " + v.Key()
					}
					var ks []string
					for _, e := range es {
						ks = append(ks, e.Key())
					}
					k.St.Vals["encoded"] = engine.Sym(strings.Join(ks, " "), types.Typ[types.String])
				}
				return nil, false
			}})
		c.Run(x)
		n := 0
		for _, e := range x.Exits {
			if e.Kind != engine.ExitReturn {
				continue
			}
			if v := e.St.Vals["encoded"]; v != nil {
				n++
				judge(x, e, strings.Fields(v.S), "")
			}
		}
		if bad != "" || n == 0 || len(x.Undec) > 0 {
			c.Undecided("what %s writes is not understood: %s %v", c.P.CalleeName(fn), bad, x.Undec)
		}
	}
	if fn := c.Fn("reporters.GenerateJSONReport"); fn != nil {
		encodes(fn, nil, nil, nil, func(x *engine.Interp, e *engine.Exit, got []string, _ string) {
			want := engine.ParamSym(fn.Params[0]).Key()
			c.Check(len(got) == 1 && got[0] == want, c.P.CalleeName(fn), fn.Pos(), e.St.Path(10), "the file holds %v, not the report", got)
		})
	}
	if fn := c.Fn("reporters.MergeAndCleanupJSONReports"); fn != nil {
		str := types.Typ[types.String]
		for n := 0; n <= 2; n++ {
			for sizes := 0; sizes < 9; sizes++ {
				size := []int{sizes % 3, sizes / 3}
				if n < 2 && size[1] > 0 || n < 1 && size[0] > 0 {
					continue
				}
				args := []*engine.Val{engine.SliceAt("*srcs", n, fn.Params[0].Type()), engine.Sym("dest~", str)}
				encodes(fn, args, func(x *engine.Interp, st *engine.State) {
					for i := 0; i < n; i++ {
						x.Store(st, fmt.Sprintf("*srcs[%d]", i), engine.Sym(fmt.Sprintf("src~%d", i), str))
					}
				}, func(k *engine.Call, src string) (*engine.Val, bool) {
					var i int
					if _, err := fmt.Sscanf(src, "src~%d", &i); err != nil {
						return nil, false
					}
					for j := 0; j < size[i]; j++ {
						k.X.Store(k.St, fmt.Sprintf("*reps~%d[%d]", i, j), engine.Sym(fmt.Sprintf("rep~%d~%d", i, j), rep))
					}
					return engine.SliceAt(fmt.Sprintf("*reps~%d", i), size[i], types.NewSlice(rep)), true
				}, func(x *engine.Interp, e *engine.Exit, got []string, _ string) {
					var want []string
					for i := 0; i < n; i++ {
						if e.St.Vals[fmt.Sprintf("ok:src~%d", i)] == nil {
							continue
						}
						for j := 0; j < size[i]; j++ {
							want = append(want, fmt.Sprintf("rep~%d~%d", i, j))
						}
					}
					c.Check(strings.Join(got, " ") == strings.Join(want, " "), c.P.CalleeName(fn), fn.Pos(), e.St.Path(14), "sources with %v reports: the merged file holds %v, want %v", size[:n], got, want)
				})
			}
		}
	}
	c.Floor(10)
}
