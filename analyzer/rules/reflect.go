package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

// A model of the parts of package reflect and of text formatting that table-driven code uses. A reflect.Value is
//   raddr(p)  the variable p points to        rval(v)  the value v        rzero()  the zero Value
// and a reflect.Type the constant "rtype:<type>", so that everything can be followed through the interpreter.

func rvT(k *engine.Call) types.Type { return k.T }

func rtype(t types.Type) *engine.Val {
	return engine.Const(constant.MakeString("rtype:"+engine.TypeStr(t)), types.Typ[types.String])
}

func rvType(v *engine.Val) types.Type {
	if v == nil || v.K != engine.VExpr || len(v.Args) != 1 || v.Args[0].T == nil {
		return nil
	}
	switch v.S {
	case "raddr":
		if p, ok := v.Args[0].T.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
	case "rval":
		return v.Args[0].T
	}
	return nil
}

func rvLoad(x *engine.Interp, st *engine.State, v *engine.Val) *engine.Val {
	if v == nil || v.K != engine.VExpr || len(v.Args) != 1 {
		return nil
	}
	if v.S == "raddr" {
		t := rvType(v)
		if t == nil {
			return nil
		}
		loc, _ := x.Deref(v.Args[0])
		return x.Load(st, loc, t)
	}
	return v.Args[0]
}

var kindNumbers = map[types.BasicKind]int64{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6, types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Float32: 13, types.Float64: 14, types.String: 24}

func kindOf(t types.Type) (int64, bool) {
	if t == nil {
		return 0, true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		n, ok := kindNumbers[u.Kind()]
		return n, ok
	case *types.Array:
		return 17, true
	case *types.Chan:
		return 18, true
	case *types.Signature:
		return 19, true
	case *types.Interface:
		return 20, true
	case *types.Map:
		return 21, true
	case *types.Pointer:
		return 22, true
	case *types.Slice:
		return 23, true
	case *types.Struct:
		return 25, true
	}
	return 0, false
}

// reflectModel answers calls into package reflect on values the interpreter knows.
func reflectModel(k *engine.Call) ([]engine.Outcome, bool) {
	name := k.Name
	if !strings.Contains(name, "reflect.") {
		return nil, false
	}
	ret := func(v *engine.Val) ([]engine.Outcome, bool) { return k.Return(v), true }
	arg := func(i int) *engine.Val {
		if i < len(k.Args) {
			return k.Args[i]
		}
		return nil
	}
	recv := arg(0)
	rv := func(op string, vs ...*engine.Val) *engine.Val { return engine.Expr(op, rvT(k), vs...) }
	switch name {
	case "reflect.ValueOf", "reflect.Value.ValueOf":
		v := arg(0)
		if v == nil || v.IsNil() {
			return ret(rv("rzero"))
		}
		if v.K != engine.VIface {
			return nil, false
		}
		return ret(rv("rval", v.Unbox()))
	case "reflect.TypeOf":
		v := arg(0)
		if v == nil || v.K != engine.VIface || v.Unbox().T == nil {
			return nil, false
		}
		return ret(rtype(v.Unbox().T))
	case "reflect.Indirect", "(reflect.Value).Elem":
		if t := rvType(recv); t != nil {
			if _, ok := t.Underlying().(*types.Pointer); ok {
				return ret(rv("raddr", rvLoad(k.X, k.St, recv)))
			}
			if _, ok := t.Underlying().(*types.Interface); ok && name == "(reflect.Value).Elem" {
				if v := rvLoad(k.X, k.St, recv); v != nil && v.K == engine.VIface {
					return ret(rv("rval", v.Unbox()))
				}
				return nil, false
			}
			return ret(recv)
		}
		return nil, false
	case "(reflect.Value).Kind":
		if recv != nil && recv.K == engine.VExpr && recv.S == "rzero" {
			return ret(engine.IntVal(0, k.T))
		}
		if t := rvType(recv); t != nil {
			if n, ok := kindOf(t); ok {
				return ret(engine.IntVal(n, k.T))
			}
		}
		return nil, false
	case "(reflect.Value).IsValid":
		if recv != nil && recv.K == engine.VExpr {
			return ret(engine.BoolVal(recv.S != "rzero"))
		}
		return nil, false
	case "(reflect.Value).MapIndex":
		m := rvLoad(k.X, k.St, recv)
		key := rvLoad(k.X, k.St, arg(1))
		if m == nil || key == nil || !key.IsConst() || m.T == nil {
			return nil, false
		}
		mt, ok := m.T.Underlying().(*types.Map)
		if !ok || !strings.HasPrefix(m.S, "nonnil:map#") {
			return nil, false
		}
		if l := "map:" + m.Key() + "[" + key.Key() + "]"; k.St.Has(l) {
			return ret(rv("rval", k.X.Load(k.St, l, mt.Elem())))
		}
		return ret(rv("rzero"))
	case "(reflect.Value).FieldByName":
		t := rvType(recv)
		n := arg(1)
		if t == nil || n == nil {
			return nil, false
		}
		f, isC := n.Str()
		st, isS := t.Underlying().(*types.Struct)
		if !isC || !isS {
			return nil, false
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() != f {
				continue
			}
			if recv.S == "raddr" {
				loc, _ := k.X.Deref(recv.Args[0])
				return ret(rv("raddr", engine.PtrTo(loc+"."+f, types.NewPointer(st.Field(i).Type()))))
			}
			return ret(rv("rval", engine.Field(recv.Args[0], f, st.Field(i).Type())))
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() {
				return nil, false
			}
		}
		return ret(rv("rzero"))
	case "(reflect.Value).Interface":
		t := rvType(recv)
		v := rvLoad(k.X, k.St, recv)
		if t == nil || v == nil {
			return nil, false
		}
		if types.IsInterface(t) {
			return ret(v)
		}
		if v.T == nil || !types.Identical(v.T, t) {
			w := *v
			w.T = t
			v = &w
		}
		return ret(engine.Box(v, k.T))
	case "(reflect.Value).Addr":
		if recv != nil && recv.K == engine.VExpr && recv.S == "raddr" {
			return ret(rv("rval", recv.Args[0]))
		}
		return nil, false
	case "(reflect.Value).Type":
		if t := rvType(recv); t != nil {
			return ret(rtype(t))
		}
		return nil, false
	case "reflect.AppendSlice", "reflect.Append":
		a := rvLoad(k.X, k.St, recv)
		if a == nil || a.T == nil {
			return nil, false
		}
		es, ok := k.X.Elems(k.St, a)
		if !ok {
			return nil, false
		}
		es = append([]*engine.Val{}, es...)
		b := arg(1)
		if name == "reflect.AppendSlice" {
			bs, ok := k.X.Elems(k.St, rvLoad(k.X, k.St, b))
			if !ok {
				return nil, false
			}
			es = append(es, bs...)
		} else {
			bs, ok := k.X.Elems(k.St, b)
			if !ok {
				return nil, false
			}
			for _, e := range bs {
				es = append(es, rvLoad(k.X, k.St, e))
			}
		}
		return ret(rv("rval", k.NewSlice(es, a.T)))
	case "(reflect.Value).Set":
		v := rvLoad(k.X, k.St, arg(1))
		if recv != nil && recv.K == engine.VExpr && recv.S == "raddr" && v != nil {
			loc, _ := k.X.Deref(recv.Args[0])
			k.X.Store(k.St, loc, v)
			return k.Return(nil), true
		}
		return nil, false
	}
	return nil, false
}

// knownBranch decides comparisons of modelled values that the interpreter left open; ok is false where it has no say.
// Symbols named "set:..." stand for values that differ from their type's zero value.
func knownBranch(cond *engine.Val) (val, ok bool) {
	neg := false
	for cond.K == engine.VExpr && cond.S == "!" {
		cond, neg = cond.Args[0], !neg
	}
	if cond.K != engine.VExpr || len(cond.Args) != 2 || cond.S != "==" && cond.S != "!=" && cond.S != ">" && cond.S != "<" && cond.S != "<=" && cond.S != ">=" {
		return false, false
	}
	a, b := cond.Args[0].Unbox(), cond.Args[1].Unbox()
	swap := map[string]string{"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
	op := cond.S
	isSet := func(v *engine.Val) bool {
		return v != nil && (strings.HasPrefix(v.Key(), "set:") || v.Key() == "flag::CommandLine" || v.K == engine.VExpr && v.S == "len" && strings.HasPrefix(v.Args[0].Key(), "set:"))
	}
	if isSet(b) {
		a, b, op = b, a, swap[op]
	}
	isZero := func(v *engine.Val) bool {
		if v == nil || v.K != engine.VConst {
			return false
		}
		if v.C == nil {
			return true
		}
		switch v.C.Kind() {
		case constant.Int, constant.Float:
			return constant.Sign(v.C) == 0
		case constant.String:
			return constant.StringVal(v.C) == ""
		}
		return false
	}
	if isSet(a) && isZero(b) {
		return (op == "!=" || op == ">" || op == ">=") != neg, true
	}
	isRV := func(v *engine.Val) bool {
		return v != nil && v.K == engine.VExpr && (v.S == "raddr" || v.S == "rval" || v.S == "rzero")
	}
	if isRV(b) {
		a, b = b, a
	}
	if isRV(a) && isZero(b) && (op == "==" || op == "!=") {
		return (op == "==") == (a.S == "rzero") != neg, true
	}
	sa, oka := a.Str()
	sb, okb := b.Str()
	if oka && okb && (op == "==" || op == "!=") {
		return (sa == sb) == (op == "==") != neg, true
	}
	return false, false
}

func onKnownBranch(x *engine.Interp, st *engine.State, in *ssa.If, cond *engine.Val, taken bool) {
	if v, ok := knownBranch(cond); ok && v != taken {
		st.Stop()
	}
}

// renderText is a string value with the unknown parts written as ‹name›; ok is false when a part is not understood.
func renderText(v *engine.Val) (string, bool) {
	if v == nil {
		return "", false
	}
	v = v.Unbox()
	if s, ok := v.Str(); ok {
		return s, true
	}
	if v.IsNil() {
		return "", true
	}
	switch v.K {
	case engine.VSym:
		return "‹" + v.S + "›", strings.HasPrefix(v.S, "set:")
	case engine.VExpr:
		if v.S == "+" && len(v.Args) == 2 {
			a, oka := renderText(v.Args[0])
			b, okb := renderText(v.Args[1])
			return a + b, oka && okb
		}
		if v.S == "text" || v.S == "conv" && len(v.Args) == 1 {
			return renderText(v.Args[0])
		}
	}
	return "", false
}

// textModel answers formatting calls whose pieces are known, as text with the unknown values in ‹name|verb› form.
func textModel(k *engine.Call) ([]engine.Outcome, bool) {
	str := func(s string) ([]engine.Outcome, bool) {
		return k.Return(engine.Const(constant.MakeString(s), k.T)), true
	}
	switch k.Name {
	case "fmt.Sprintf":
		if len(k.Args) != 2 {
			return nil, false
		}
		f, ok := k.Args[0].Str()
		es, ok2 := k.X.Elems(k.St, k.Args[1])
		if !ok || !ok2 {
			return nil, false
		}
		out, n := "", 0
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				out += f[i : i+1]
				continue
			}
			j := i + 1
			for j < len(f) && strings.IndexByte("0123456789.+-# ", f[j]) >= 0 {
				j++
			}
			if j >= len(f) {
				return nil, false
			}
			verb := f[i : j+1]
			i = j
			if verb == "%%" {
				out += "%"
				continue
			}
			if n >= len(es) {
				return nil, false
			}
			e := es[n].Unbox()
			n++
			switch {
			case e.IsConst() && e.C.Kind() == constant.String && (verb == "%s" || verb == "%v"):
				out += constant.StringVal(e.C)
			case e.IsConst() && e.C.Kind() == constant.Int && (verb == "%d" || verb == "%v"):
				out += e.C.ExactString()
			case e.K == engine.VSym:
				out += "‹" + e.S + "|" + verb[1:] + "›"
			default:
				out += "‹" + e.Key() + "|" + verb[1:] + "›"
			}
		}
		if n != len(es) {
			return nil, false
		}
		return str(out)
	case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatBool", "strconv.FormatFloat", "(time.Duration).String":
		if len(k.Args) > 0 && k.Args[0].Unbox().K == engine.VSym {
			verb := map[string]string{"strconv.Itoa": "d", "strconv.FormatInt": "d", "strconv.FormatBool": "t", "strconv.FormatFloat": "g", "(time.Duration).String": "s"}[k.Name]
			if k.Name == "strconv.FormatFloat" && (len(k.Args) != 4 || k.Args[2].Key() != "-1") {
				return nil, false
			}
			return str("‹" + k.Args[0].Unbox().S + "|" + verb + "›")
		}
	case "strings.Split":
		if len(k.Args) == 2 {
			a, ok := k.Args[0].Str()
			sep, ok2 := k.Args[1].Str()
			if ok && ok2 && sep != "" {
				var es []*engine.Val
				for _, p := range strings.Split(a, sep) {
					es = append(es, engine.Const(constant.MakeString(p), types.Typ[types.String]))
				}
				return k.Return(k.NewSlice(es, k.T)), true
			}
			return k.Return(k.NewSlice([]*engine.Val{k.Args[0]}, k.T)), true
		}
	case "strings.TrimPrefix", "strings.TrimSpace", "strings.Trim":
		if len(k.Args) > 0 && !k.Args[0].IsConst() {
			return k.Return(k.Args[0]), true
		}
	case "strings.Join":
		if len(k.Args) == 2 {
			es, ok := k.X.Elems(k.St, k.Args[0])
			sep, ok2 := k.Args[1].Str()
			if ok && ok2 {
				var out []string
				for _, e := range es {
					s, ok := renderText(e)
					if !ok {
						return nil, false
					}
					out = append(out, s)
				}
				if len(es) == 1 {
					return k.Return(es[0]), true
				}
				return str(strings.Join(out, sep))
			}
		}
	}
	return nil, false
}

// settings makes a struct value with every field at a value of its own that is not its zero value, named set:<prefix>.<field>.
func settings(x *engine.Interp, st *engine.State, prefix string, t types.Type) *engine.Val {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	f := map[string]*engine.Val{}
	for i := 0; i < s.NumFields(); i++ {
		n, ft := s.Field(i).Name(), s.Field(i).Type()
		v := engine.Sym("set:"+prefix+"."+n, ft)
		switch u := ft.Underlying().(type) {
		case *types.Slice:
			loc := "*set:" + prefix + "." + n
			for j := 0; j < 2; j++ {
				x.Store(st, fmt.Sprintf("%s[%d]", loc, j), engine.Sym(fmt.Sprintf("set:%s.%s~%d", prefix, n, j), u.Elem()))
			}
			v = engine.SliceAt(loc, 2, ft)
		case *types.Basic:
			if u.Kind() == types.Bool {
				v = engine.BoolVal(true)
				w := *v
				w.T = ft
				v = &w
			}
		}
		f[n] = v
	}
	return engine.Agg(engine.Nil(t), f, t)
}
