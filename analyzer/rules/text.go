package rules

import (
	"go/constant"
	"go/types"
	"regexp"
	"strconv"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

// constText answers calls of the text functions of the standard library on known strings.
func constText(k *engine.Call) ([]engine.Outcome, bool) {
	str := func(s string) ([]engine.Outcome, bool) {
		return k.Return(engine.Const(constant.MakeString(s), k.T)), true
	}
	num := func(n int) ([]engine.Outcome, bool) { return k.Return(engine.IntVal(int64(n), k.T)), true }
	yes := func(b bool) ([]engine.Outcome, bool) { return k.Return(engine.BoolVal(b)), true }
	arg := func(i int) (string, bool) {
		if i >= len(k.Args) || k.Args[i] == nil {
			return "", false
		}
		v := k.Args[i].Unbox()
		if v.IsNil() {
			return "", true
		}
		return v.Str()
	}
	list := func(ss []string) ([]engine.Outcome, bool) {
		es := make([]*engine.Val, len(ss))
		for i, s := range ss {
			es[i] = engine.Const(constant.MakeString(s), types.Typ[types.String])
		}
		return k.Return(k.NewSlice(es, k.T)), true
	}
	if strings.HasPrefix(k.Name, "(*regexp.Regexp).") {
		if len(k.Args) < 1 || k.Args[0] == nil {
			return nil, false
		}
		i := strings.Index(k.Args[0].Key(), "re~")
		if i < 0 {
			return nil, false
		}
		pat, err := strconv.Unquote(k.Args[0].Key()[i+3:])
		if err != nil {
			return nil, false
		}
		re, err := regexp.Compile(pat)
		if err != nil {
			return nil, false
		}
		switch k.Name {
		case "(*regexp.Regexp).MatchString":
			if s, ok := arg(1); ok {
				return yes(re.MatchString(s))
			}
		case "(*regexp.Regexp).String":
			return str(pat)
		}
		return nil, false
	}
	switch k.Name {
	case "regexp.Compile", "regexp.MustCompile":
		s, ok := arg(0)
		if !ok {
			return nil, false
		}
		_, err := regexp.Compile(s)
		if k.Name == "regexp.MustCompile" {
			if err != nil {
				return []engine.Outcome{{St: k.St, Kind: engine.ExitPanic}}, true
			}
			return k.Return(engine.Sym("nonnil:re~"+strconv.Quote(s), k.T)), true
		}
		tup := k.T.(*types.Tuple)
		if err != nil {
			return k.Return(engine.Tuple(engine.Nil(tup.At(0).Type()), engine.Sym("nonnil:err:regexp", tup.At(1).Type()))), true
		}
		return k.Return(engine.Tuple(engine.Sym("nonnil:re~"+strconv.Quote(s), tup.At(0).Type()), engine.Nil(tup.At(1).Type()))), true
	case "regexp.MatchString":
		p, ok1 := arg(0)
		s, ok2 := arg(1)
		if !ok1 || !ok2 {
			return nil, false
		}
		tup := k.T.(*types.Tuple)
		m, err := regexp.MatchString(p, s)
		if err != nil {
			return k.Return(engine.Tuple(engine.BoolVal(false), engine.Sym("nonnil:err:regexp", tup.At(1).Type()))), true
		}
		return k.Return(engine.Tuple(engine.BoolVal(m), engine.Nil(tup.At(1).Type()))), true
	case "strconv.Atoi":
		s, ok := arg(0)
		if !ok {
			return nil, false
		}
		tup := k.T.(*types.Tuple)
		n, err := strconv.Atoi(s)
		if err != nil {
			return k.Return(engine.Tuple(engine.IntVal(int64(n), tup.At(0).Type()), engine.Sym("nonnil:err:atoi", tup.At(1).Type()))), true
		}
		return k.Return(engine.Tuple(engine.IntVal(int64(n), tup.At(0).Type()), engine.Nil(tup.At(1).Type()))), true
	case "builtin len", "builtin.len":
		return nil, false
	}
	if !strings.HasPrefix(k.Name, "strings.") {
		return nil, false
	}
	a, ok := arg(0)
	if k.Name == "strings.Join" {
		es, ok := k.X.Elems(k.St, k.Args[0])
		sep, ok2 := arg(1)
		if !ok || !ok2 {
			return nil, false
		}
		var ss []string
		for _, e := range es {
			s, ok := e.Str()
			if !ok && e.IsNil() {
				s, ok = "", true
			}
			if !ok {
				return nil, false
			}
			ss = append(ss, s)
		}
		return str(strings.Join(ss, sep))
	}
	if !ok {
		return nil, false
	}
	switch k.Name {
	case "strings.ToLower":
		return str(strings.ToLower(a))
	case "strings.ToUpper":
		return str(strings.ToUpper(a))
	case "strings.TrimSpace":
		return str(strings.TrimSpace(a))
	case "strings.Fields":
		return list(strings.Fields(a))
	case "strings.ContainsRune", "strings.IndexByte", "strings.IndexRune":
		if len(k.Args) < 2 {
			return nil, false
		}
		r, ok := k.Args[1].Int()
		if !ok {
			return nil, false
		}
		if k.Name == "strings.ContainsRune" {
			return yes(strings.ContainsRune(a, rune(r)))
		}
		return num(strings.IndexRune(a, rune(r)))
	}
	b, ok := arg(1)
	if !ok {
		return nil, false
	}
	switch k.Name {
	case "strings.Contains":
		return yes(strings.Contains(a, b))
	case "strings.ContainsAny":
		return yes(strings.ContainsAny(a, b))
	case "strings.HasPrefix":
		return yes(strings.HasPrefix(a, b))
	case "strings.HasSuffix":
		return yes(strings.HasSuffix(a, b))
	case "strings.EqualFold":
		return yes(strings.EqualFold(a, b))
	case "strings.Index":
		return num(strings.Index(a, b))
	case "strings.IndexAny":
		return num(strings.IndexAny(a, b))
	case "strings.LastIndex":
		return num(strings.LastIndex(a, b))
	case "strings.Count":
		return num(strings.Count(a, b))
	case "strings.Trim":
		return str(strings.Trim(a, b))
	case "strings.TrimLeft":
		return str(strings.TrimLeft(a, b))
	case "strings.TrimRight":
		return str(strings.TrimRight(a, b))
	case "strings.TrimPrefix":
		return str(strings.TrimPrefix(a, b))
	case "strings.TrimSuffix":
		return str(strings.TrimSuffix(a, b))
	case "strings.Split":
		return list(strings.Split(a, b))
	case "strings.SplitN":
		if n, ok := k.Args[2].Int(); ok {
			return list(strings.SplitN(a, b, int(n)))
		}
	case "strings.Cut":
		x, y, found := strings.Cut(a, b)
		return k.Return(engine.Tuple(strVal(x), strVal(y), engine.BoolVal(found))), true
	case "strings.ReplaceAll":
		if c, ok := arg(2); ok {
			return str(strings.ReplaceAll(a, b, c))
		}
	}
	return nil, false
}

// constTables puts the package's map variables that are initialised with constants, and never assigned again, in memory.
func constTables(c *Ctx, x *engine.Interp, st *engine.State, pkgs ...*ssa.Package) {
	for _, pk := range pkgs {
		if pk == nil || pk.Func("init") == nil {
			continue
		}
		for _, b := range pk.Func("init").Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				mm, ok2 := s.Val.(*ssa.MakeMap)
				if !ok || !ok2 || globalChanges(c, g) {
					continue
				}
				type kv struct{ k, v *ssa.Const }
				var es []kv
				all := true
				for _, ref := range *mm.Referrers() {
					if mu, ok := ref.(*ssa.MapUpdate); ok && mu.Map == mm {
						kc, ok1 := mu.Key.(*ssa.Const)
						vc, ok2 := mu.Value.(*ssa.Const)
						all = all && ok1 && ok2
						es = append(es, kv{kc, vc})
					}
				}
				if !all {
					continue
				}
				m := engine.Sym("nonnil:map#~table~"+g.Name(), mm.Type())
				x.Store(st, x.GlobalLoc(g), m)
				for _, e := range es {
					x.MapPut(st, m, engine.Const(e.k.Value, e.k.Type()), engine.Const(e.v.Value, e.v.Type()))
				}
			}
		}
	}
}
