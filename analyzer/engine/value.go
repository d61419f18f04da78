package engine

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// VKind classifies abstract values.
type VKind uint8

const (
	VConst VKind = iota // C (nil: the nil/zero constant of T)
	VSym                // unknown with identity S
	VExpr               // operation S over Args
	VPtr                // address S
	VFunc               // function Fn with bindings Args
	VTuple
	VIface // Args[0] boxed, dynamic type is Args[0].T
	VAgg   // struct: Args[0] base, F overrides
	VSlice // slice over array at address S, length N
)

// Val is an abstract value. Values are compared by key.
type Val struct {
	K     VKind
	T     types.Type
	C     constant.Value
	S     string
	B     string // VPtr/VSlice: base allocation ("" when not an allocation)
	Args  []*Val
	F     map[string]*Val
	Fn    *ssa.Function
	N     int
	key   string
	mints bool // contains a minted symbol or an allocation
	depth int
}

func (v *Val) String() string { return v.Key() }

// Key is the canonical form of the value.
func (v *Val) Key() string {
	if v == nil {
		return "<none>"
	}
	if v.key != "" {
		return v.key
	}
	var b strings.Builder
	switch v.K {
	case VConst:
		if v.C == nil {
			b.WriteString("nil")
		} else {
			b.WriteString(v.C.ExactString())
		}
	case VSym:
		b.WriteString(v.S)
	case VExpr:
		b.WriteString(v.S)
		b.WriteByte('(')
		for i, a := range v.Args {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(a.Key())
		}
		b.WriteByte(')')
	case VPtr:
		b.WriteString("&")
		b.WriteString(v.S)
	case VFunc:
		b.WriteString("func:")
		if v.Fn != nil {
			b.WriteString(v.Fn.String())
		} else {
			b.WriteString(v.S)
		}
		if len(v.Args) > 0 {
			b.WriteByte('{')
			for i, a := range v.Args {
				if i > 0 {
					b.WriteByte(',')
				}
				b.WriteString(a.Key())
			}
			b.WriteByte('}')
		}
	case VTuple:
		b.WriteString("<")
		for i, a := range v.Args {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(a.Key())
		}
		b.WriteByte('>')
	case VIface:
		b.WriteString("iface[")
		b.WriteString(typeStr(v.Args[0].T))
		b.WriteString("](")
		b.WriteString(v.Args[0].Key())
		b.WriteByte(')')
	case VAgg:
		b.WriteString("{")
		b.WriteString(v.Args[0].Key())
		var ks []string
		for k := range v.F {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			b.WriteByte('|')
			b.WriteString(k)
			b.WriteByte('=')
			b.WriteString(v.F[k].Key())
		}
		b.WriteByte('}')
	case VSlice:
		fmt.Fprintf(&b, "slice(%s,%d)", v.S, v.N)
	}
	v.key = b.String()
	return v.key
}

func typeStr(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// TypeStr renders a type with short package names.
func TypeStr(t types.Type) string { return typeStr(t) }

func mkConst(c constant.Value, t types.Type) *Val { return &Val{K: VConst, C: c, T: t} }

// Nil is the nil (or zero) constant of t.
func Nil(t types.Type) *Val {
	if t != nil {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&(types.IsBoolean|types.IsInteger|types.IsString) != 0 {
			return zeroVal(t)
		}
	}
	return &Val{K: VConst, T: t}
}

// BoolVal is a boolean constant.
func BoolVal(b bool) *Val { return mkConst(constant.MakeBool(b), types.Typ[types.Bool]) }

// IntVal is an integer constant of type t.
func IntVal(i int64, t types.Type) *Val { return mkConst(constant.MakeInt64(i), t) }

// Sym is a named unknown.
func Sym(name string, t types.Type) *Val {
	return &Val{K: VSym, S: name, T: t, mints: strings.Contains(name, "#"), depth: 1}
}

func mkPtr(loc, base string, t types.Type) *Val {
	return &Val{K: VPtr, S: loc, B: base, T: t, mints: base != "" || strings.Contains(loc, "#"), depth: 1}
}

func mkExpr(op string, t types.Type, args ...*Val) *Val {
	v := &Val{K: VExpr, S: op, T: t, Args: args}
	for _, a := range args {
		if a == nil {
			continue
		}
		if a.mints {
			v.mints = true
		}
		if a.depth >= v.depth {
			v.depth = a.depth + 1
		}
	}
	return v
}

// Expr builds an expression value.
func Expr(op string, t types.Type, args ...*Val) *Val { return mkExpr(op, t, args...) }

func mkFunc(fn *ssa.Function, bind []*Val, t types.Type) *Val {
	v := &Val{K: VFunc, Fn: fn, Args: bind, T: t, depth: 1}
	for _, a := range bind {
		v.mints = v.mints || a.mints
	}
	return v
}

// Tuple builds a tuple value.
// Func is a function value with the given captured values.
func Func(fn *ssa.Function, bind ...*Val) *Val { return mkFunc(fn, bind, fn.Type()) }

func Tuple(vs ...*Val) *Val {
	v := &Val{K: VTuple, Args: vs, depth: 1}
	for _, a := range vs {
		if a == nil {
			continue
		}
		v.mints = v.mints || a.mints
		if a.depth >= v.depth {
			v.depth = a.depth + 1
		}
	}
	return v
}

func mkIface(x *Val, t types.Type) *Val {
	return &Val{K: VIface, Args: []*Val{x}, T: t, mints: x.mints, depth: x.depth + 1}
}

// Box is x held in an interface value of dynamic type t.
func Box(x *Val, t types.Type) *Val { return mkIface(x, t) }

func mkAgg(base *Val, f map[string]*Val, t types.Type) *Val {
	v := &Val{K: VAgg, Args: []*Val{base}, F: f, T: t, mints: base.mints, depth: base.depth + 1}
	for _, a := range f {
		v.mints = v.mints || a.mints
		if a.depth >= v.depth {
			v.depth = a.depth + 1
		}
	}
	return v
}

// IsConst reports whether v is a non-nil constant.
func (v *Val) IsConst() bool { return v != nil && v.K == VConst && v.C != nil }

// IsNil reports whether v is the nil constant.
func (v *Val) IsNil() bool { return v != nil && v.K == VConst && v.C == nil }

// Bool returns the boolean constant value.
func (v *Val) Bool() (val, ok bool) {
	if v != nil && v.K == VConst && v.C != nil && v.C.Kind() == constant.Bool {
		return constant.BoolVal(v.C), true
	}
	return false, false
}

// Int returns the integer constant value.
func (v *Val) Int() (int64, bool) {
	if v == nil || v.K != VConst {
		return 0, false
	}
	if v.C == nil {
		return 0, false
	}
	if v.C.Kind() == constant.Int {
		i, ok := constant.Int64Val(v.C)
		return i, ok
	}
	return 0, false
}

// Str returns the string constant value.
func (v *Val) Str() (string, bool) {
	if v != nil && v.K == VConst && v.C != nil && v.C.Kind() == constant.String {
		return constant.StringVal(v.C), true
	}
	return "", false
}

// Unbox strips interface boxing.
func (v *Val) Unbox() *Val {
	for v != nil && v.K == VIface {
		v = v.Args[0]
	}
	return v
}

// Walk visits v and everything inside it.
func (v *Val) Walk(f func(*Val)) {
	if v == nil {
		return
	}
	f(v)
	for _, a := range v.Args {
		a.Walk(f)
	}
	for _, a := range v.F {
		a.Walk(f)
	}
}

// Mentions reports whether any symbol or address inside v has the given substring.
func (v *Val) Mentions(sub string) bool { return strings.Contains(v.Key(), sub) }

// subst rewrites symbol names and addresses.
func (v *Val) subst(f func(string) string, memo map[*Val]*Val) *Val {
	if v == nil || !v.mints {
		return v
	}
	if r, ok := memo[v]; ok {
		return r
	}
	c := *v
	c.key = ""
	changed := false
	if v.S != "" && (v.K == VSym || v.K == VPtr || v.K == VSlice) {
		if s := f(v.S); s != v.S {
			c.S = s
			changed = true
		}
		if v.B != "" {
			c.B = f(v.B)
		}
	}
	if len(v.Args) > 0 {
		c.Args = make([]*Val, len(v.Args))
		for i, a := range v.Args {
			c.Args[i] = a.subst(f, memo)
			if c.Args[i] != a {
				changed = true
			}
		}
	}
	if len(v.F) > 0 {
		c.F = make(map[string]*Val, len(v.F))
		for k, a := range v.F {
			c.F[k] = a.subst(f, memo)
			if c.F[k] != a {
				changed = true
			}
		}
	}
	r := v
	if changed {
		r = &c
	}
	memo[v] = r
	return r
}

// ConstOf is the value of a declared constant.
func ConstOf(c *types.Const) *Val { return mkConst(c.Val(), c.Type()) }

// BoolConst makes a typed constant.
func Const(c constant.Value, t types.Type) *Val { return mkConst(c, t) }

// Agg builds a struct value from a base and overridden fields.
func Agg(base *Val, f map[string]*Val, t types.Type) *Val { return mkAgg(base, f, t) }

// SliceAt is a slice of known length over the locations loc[0], loc[1], ...
func SliceAt(loc string, n int, t types.Type) *Val {
	return &Val{K: VSlice, S: loc, N: n, T: t, depth: 1}
}

// PtrTo is a pointer to a named location.
func PtrTo(loc string, t types.Type) *Val { return mkPtr(loc, "", t) }
