package engine

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"
)

// Dom is what is known about one atom: a set of enum members (Enum, bitmask over the type's domain), or an integer interval with exclusions.
type Dom struct {
	V    *Val
	Enum bool
	Mask uint64
	Lo   int64
	Hi   int64
	Ex   []int64
}

func (d Dom) key() string {
	if d.Enum {
		return fmt.Sprintf("m%x", d.Mask)
	}
	return fmt.Sprintf("[%d,%d]%v", d.Lo, d.Hi, d.Ex)
}

func (d Dom) empty() bool {
	if d.Enum {
		return d.Mask == 0
	}
	return d.Lo > d.Hi
}

func (d Dom) excludes(k int64) bool {
	for _, e := range d.Ex {
		if e == k {
			return true
		}
	}
	return false
}

func (d *Dom) normalize() {
	for changed := true; changed; {
		changed = false
		for i, e := range d.Ex {
			if e == d.Lo && d.Lo <= d.Hi {
				d.Lo++
				changed = true
			} else if e == d.Hi && d.Lo <= d.Hi {
				d.Hi--
				changed = true
			}
			if changed || e < d.Lo || e > d.Hi {
				d.Ex = append(append([]int64{}, d.Ex[:i]...), d.Ex[i+1:]...)
				changed = true
				break
			}
		}
	}
	sort.Slice(d.Ex, func(i, j int) bool { return d.Ex[i] < d.Ex[j] })
}

// EnumMember is one declared constant of an enumeration type.
type EnumMember struct {
	Name string
	Val  int64
}

// EnumDomain lists the atomic declared constants of a named integer type of the module (combinations of bit flags excluded).
func (p *Prog) EnumDomain(t types.Type) []EnumMember {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return nil
	}
	if p.enumCache == nil {
		p.enumCache = map[*types.Named][]EnumMember{}
	}
	if d, ok := p.enumCache[n]; ok {
		return d
	}
	p.enumCache[n] = nil
	obj := n.Obj()
	if obj.Pkg() == nil || p.Pkgs[obj.Pkg().Path()] == nil {
		return nil
	}
	b, ok := n.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return nil
	}
	all := map[int64]string{}
	sc := obj.Pkg().Scope()
	for _, name := range sc.Names() {
		c, ok := sc.Lookup(name).(*types.Const)
		if !ok || !types.Identical(c.Type(), t) {
			continue
		}
		v, ok := constant.Int64Val(constant.ToInt(c.Val()))
		if !ok {
			continue
		}
		if old, ok := all[v]; !ok || name < old {
			all[v] = name
		}
	}
	if len(all) < 2 {
		return nil
	}
	var vals []int64
	for v := range all {
		vals = append(vals, v)
	}
	sort.Slice(vals, func(i, j int) bool { return vals[i] < vals[j] })
	// bit flags: the single-bit constants, plus zero; combinations are not atoms
	pow := 0
	for _, v := range vals {
		if v > 0 && v&(v-1) == 0 {
			pow++
		}
	}
	var union int64
	for _, v := range vals {
		if v > 0 && v&(v-1) == 0 {
			union |= v
		}
	}
	flags := pow >= 3
	if flags {
		for _, v := range vals {
			if v != 0 && v&(v-1) != 0 && v&^union != 0 {
				flags = false
			}
		}
		if pow*2 < len(vals) && pow < 5 {
			flags = false
		}
	}
	var d []EnumMember
	for _, v := range vals {
		if flags && v != 0 && v&(v-1) != 0 {
			continue
		}
		d = append(d, EnumMember{all[v], v})
	}
	if len(d) > 60 {
		d = nil
	}
	if flags && len(d) > 0 && d[0].Val != 0 {
		d = append([]EnumMember{{"<zero>", 0}}, d...)
	}
	p.enumCache[n] = d
	return d
}

func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// evalConst evaluates an expression given one symbol's constant.
func evalConst(v *Val, symKey string, c constant.Value) constant.Value {
	switch v.K {
	case VConst:
		if v.C == nil && (isInt(v.T)) {
			return constant.MakeInt64(0)
		}
		return v.C
	case VSym:
		if v.Key() == symKey {
			return c
		}
		return nil
	case VExpr:
		if v.Key() == symKey {
			return c
		}
		switch len(v.Args) {
		case 1:
			a := evalConst(v.Args[0], symKey, c)
			if a == nil {
				return nil
			}
			return constUn(v.S, a, v.T)
		case 2:
			a := evalConst(v.Args[0], symKey, c)
			if a == nil {
				return nil
			}
			b := evalConst(v.Args[1], symKey, c)
			if b == nil {
				return nil
			}
			return constBin(v.S, a, b, v.T)
		}
	}
	return nil
}

func constUn(op string, a constant.Value, t types.Type) (r constant.Value) {
	defer func() {
		if recover() != nil {
			r = nil
		}
	}()
	switch op {
	case "!":
		if a.Kind() == constant.Bool {
			return constant.MakeBool(!constant.BoolVal(a))
		}
	case "neg":
		return constant.UnaryOp(token.SUB, a, 0)
	case "^":
		prec := uint(0)
		if t != nil && isUnsigned(t) {
			prec = 64
			if b, ok := t.Underlying().(*types.Basic); ok {
				switch b.Kind() {
				case types.Uint8:
					prec = 8
				case types.Uint16:
					prec = 16
				case types.Uint32:
					prec = 32
				}
			}
		}
		return constant.UnaryOp(token.XOR, a, prec)
	case "conv":
		return a
	}
	return nil
}

var binTok = map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL, "&": token.AND, "|": token.OR, "^": token.XOR, "&^": token.AND_NOT,
	"==": token.EQL, "!=": token.NEQ, "<": token.LSS, "<=": token.LEQ, ">": token.GTR, ">=": token.GEQ, "<<": token.SHL, ">>": token.SHR, "/": token.QUO, "%": token.REM}

func constBin(op string, a, b constant.Value, t types.Type) (r constant.Value) {
	defer func() {
		if recover() != nil {
			r = nil
		}
	}()
	tok, ok := binTok[op]
	if !ok {
		return nil
	}
	switch tok {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if a.Kind() == constant.Bool && b.Kind() == constant.Bool {
			eq := constant.BoolVal(a) == constant.BoolVal(b)
			return constant.MakeBool(eq == (tok == token.EQL))
		}
		return constant.MakeBool(constant.Compare(a, tok, b))
	case token.SHL, token.SHR:
		s, ok := constant.Uint64Val(b)
		if !ok || s > 64 {
			return nil
		}
		return constant.Shift(a, tok, uint(s))
	case token.QUO:
		if a.Kind() == constant.Int && b.Kind() == constant.Int {
			if constant.Sign(b) == 0 {
				return nil
			}
			return constant.BinaryOp(a, token.QUO_ASSIGN, b)
		}
		return constant.BinaryOp(a, tok, b)
	default:
		return constant.BinaryOp(a, tok, b)
	}
}

// atoms of an expression that have a finite domain
func (x *Interp) domSyms(v *Val, out map[string]*Val) {
	if v == nil {
		return
	}
	switch v.K {
	case VSym:
		if isBool(v.T) || x.P.EnumDomain(v.T) != nil {
			out[v.Key()] = v
		}
	case VExpr:
		switch v.S {
		case "==", "!=", "<", "<=", ">", ">=", "&", "|", "^", "&^", "!", "+", "-", "<<", ">>", "conv", "neg":
			for _, a := range v.Args {
				x.domSyms(a, out)
			}
		default:
			if isBool(v.T) || x.P.EnumDomain(v.T) != nil {
				out[v.Key()] = v
			}
		}
	}
}

func isWeakKey(k string) bool { return strings.Contains(k, "~~;") }

func (x *Interp) enumDom(st *State, v *Val) (Dom, []int64) {
	var vals []int64
	if isBool(v.T) {
		vals = []int64{0, 1}
	} else {
		for _, m := range x.P.EnumDomain(v.T) {
			vals = append(vals, m.Val)
		}
	}
	if d, ok := st.facts[v.Key()]; ok && d.Enum {
		return d, vals
	}
	return Dom{V: v, Enum: true, Mask: (uint64(1) << uint(len(vals))) - 1}, vals
}

type branch struct {
	val bool
	st  *State
}

// decide splits a state on a boolean value. The receiver state is consumed.
func (x *Interp) decide(st *State, v *Val, wantTrue, wantFalse bool) []branch {
	if b, ok := v.Bool(); ok {
		return []branch{{b, st}}
	}
	if v.K == VConst { // zero bool
		return []branch{{false, st}}
	}
	neg := false
	for v.K == VExpr && v.S == "!" {
		v = v.Args[0]
		neg = !neg
	}
	if b, ok := v.Bool(); ok {
		return []branch{{b != neg, st}}
	}
	// decide via one finite-domain symbol
	syms := map[string]*Val{}
	x.domSyms(v, syms)
	if len(syms) == 1 {
		for k, s := range syms {
			d, vals := x.enumDom(st, s)
			var tm, fm, um uint64
			for i, val := range vals {
				if d.Mask&(1<<uint(i)) == 0 {
					continue
				}
				var c constant.Value
				if isBool(s.T) {
					c = constant.MakeBool(val == 1)
				} else {
					c = constant.MakeInt64(val)
				}
				r := evalConst(v, k, c)
				if r == nil || r.Kind() != constant.Bool {
					um |= 1 << uint(i)
				} else if constant.BoolVal(r) {
					tm |= 1 << uint(i)
				} else {
					fm |= 1 << uint(i)
				}
			}
			if um == 0 {
				if neg {
					tm, fm = fm, tm
				}
				if fm == 0 {
					return []branch{{true, st}}
				}
				if tm == 0 {
					return []branch{{false, st}}
				}
				s2 := st.clone()
				if !isWeakKey(k) {
					st.facts[k] = Dom{V: s, Enum: true, Mask: tm}
					s2.facts[k] = Dom{V: s, Enum: true, Mask: fm}
				}
				return []branch{{true, st}, {false, s2}}
			}
		}
	}
	// correlated finite-domain comparison of two symbols or anything else: canonical atom
	atom, aneg := x.canonAtom(v)
	neg = neg != aneg
	if b, ok := atom.Bool(); ok {
		return []branch{{b != neg, st}}
	}
	// integer interval facts
	if atom.K == VExpr && (atom.S == "<k" || atom.S == "==k") {
		sv := atom.Args[0]
		k, _ := atom.Args[1].Int()
		d, ok := st.facts[sv.Key()]
		if !ok || d.Enum {
			d = Dom{V: sv, Lo: math.MinInt64, Hi: math.MaxInt64}
			if isUnsigned(sv.T) || (sv.K == VExpr && (sv.S == "len" || sv.S == "cap")) {
				d.Lo = 0
			}
		}
		t, f := d, d
		t.Ex = append([]int64{}, d.Ex...)
		f.Ex = append([]int64{}, d.Ex...)
		if atom.S == "<k" {
			if t.Hi > k-1 {
				t.Hi = k - 1
			}
			if f.Lo < k {
				f.Lo = k
			}
		} else {
			if t.Lo < k {
				t.Lo = k
			}
			if t.Hi > k {
				t.Hi = k
			}
			if d.excludes(k) {
				t.Lo, t.Hi = 1, 0
			}
			f.Ex = append(f.Ex, k)
		}
		t.normalize()
		f.normalize()
		if neg {
			t, f = f, t
		}
		if t.empty() && f.empty() {
			return nil
		}
		if t.empty() {
			return []branch{{false, st}}
		}
		if f.empty() {
			return []branch{{true, st}}
		}
		s2 := st.clone()
		if !isWeakKey(sv.Key()) && x.factOK(sv) {
			st.facts[sv.Key()] = t
			s2.facts[sv.Key()] = f
		}
		return []branch{{true, st}, {false, s2}}
	}
	// an upward loop counter is never below the length of an empty list, and one below it means the list is not empty
	if atom.K == VExpr && atom.S == "<" && len(atom.Args) == 2 && atom.Args[1].K == VExpr && atom.Args[1].S == "len" && upCounter(atom.Args[0]) {
		ln := atom.Args[1]
		if d, ok := st.facts[ln.Key()]; ok && !d.Enum && d.Hi <= 0 {
			return []branch{{neg, st}}
		}
	}
	k := atom.Key()
	if d, ok := st.facts[k]; ok && d.Enum {
		if d.Mask == 2 {
			return []branch{{!neg, st}}
		}
		if d.Mask == 1 {
			return []branch{{neg, st}}
		}
	}
	s2 := st.clone()
	if !isWeakKey(k) && x.factOK(atom) {
		tm, fm := uint64(2), uint64(1)
		if neg {
			tm, fm = fm, tm
		}
		st.facts[k] = Dom{V: atom, Enum: true, Mask: tm}
		s2.facts[k] = Dom{V: atom, Enum: true, Mask: fm}
	}
	return []branch{{true, st}, {false, s2}}
}

func upCounter(v *Val) bool {
	k := v.Key()
	return strings.HasPrefix(k, "loop:") || strings.HasPrefix(k, "+(1,loop:")
}

func (x *Interp) factOK(v *Val) bool {
	if x.Cfg.TrackFact != nil {
		return x.Cfg.TrackFact(v)
	}
	return v.depth <= 6
}

// canonAtom normalises a comparison.
func (x *Interp) canonAtom(v *Val) (*Val, bool) {
	if v.K != VExpr || len(v.Args) != 2 {
		return v, false
	}
	a, b := v.Args[0], v.Args[1]
	bt := types.Typ[types.Bool]
	op := v.S
	neg := false
	switch op {
	case "!=":
		op, neg = "==", true
	case ">":
		op, a, b = "<", b, a
	case ">=":
		op, neg = "<", true
	case "<=":
		op, a, b, neg = "<", b, a, true
	}
	switch op {
	case "==", "<":
	default:
		return v, false
	}
	intc := func(v *Val) (int64, bool) {
		if v.K == VConst && v.C == nil && isInt(v.T) {
			return 0, true
		}
		return v.Int()
	}
	if isInt(a.T) || isInt(b.T) {
		if k, ok := intc(b); ok {
			if op == "==" && k == 0 && (isUnsigned(a.T) || a.K == VExpr && a.S == "len") {
				return mkExpr("<k", bt, a, IntVal(1, types.Typ[types.Int])), neg
			}
			return mkExpr(op+"k", bt, a, IntVal(k, types.Typ[types.Int])), neg
		}
		if k, ok := intc(a); ok {
			if op == "==" {
				if k == 0 && (isUnsigned(b.T) || b.K == VExpr && b.S == "len") {
					return mkExpr("<k", bt, b, IntVal(1, types.Typ[types.Int])), neg
				}
				return mkExpr("==k", bt, b, IntVal(k, types.Typ[types.Int])), neg
			}
			// k < b  <=>  !(b < k+1)
			return mkExpr("<k", bt, b, IntVal(k+1, types.Typ[types.Int])), !neg
		}
	}
	if op == "==" {
		// string emptiness: s == "" <=> len(s) < 1
		if s, ok := b.Str(); ok && s == "" {
			return mkExpr("<k", bt, mkExpr("len", types.Typ[types.Int], a), IntVal(1, types.Typ[types.Int])), neg
		}
		if s, ok := a.Str(); ok && s == "" {
			return mkExpr("<k", bt, mkExpr("len", types.Typ[types.Int], b), IntVal(1, types.Typ[types.Int])), neg
		}
		if a.Key() == b.Key() && !isWeakKey(a.Key()) {
			return BoolVal(true), neg
		}
		if a.IsNil() || (a.K == VConst && b.K != VConst) || (a.Key() > b.Key() && !b.IsNil() && b.K != VConst) {
			a, b = b, a
		}
		return mkExpr("==", bt, a, b), neg
	}
	return mkExpr("<", bt, a, b), neg
}

// DomNames renders the possible values of an enum/bool symbol in the state.
func (x *Interp) DomNames(st *State, v *Val) []string {
	if v == nil {
		return nil
	}
	if v.K == VConst {
		c, ok := v.Int()
		if !ok && v.C == nil && isInt(v.T) {
			c, ok = 0, true
		}
		if ok {
			for _, m := range x.P.EnumDomain(v.T) {
				if m.Val == c {
					return []string{m.Name}
				}
			}
			return []string{fmt.Sprint(c)}
		}
		if b, ok := v.Bool(); ok {
			return []string{fmt.Sprint(b)}
		}
		if isBool(v.T) && v.C == nil {
			return []string{"false"}
		}
		return []string{v.Key()}
	}
	if isBool(v.T) {
		bs := x.decide(st.clone(), v, true, true)
		var out []string
		for _, b := range bs {
			out = append(out, fmt.Sprint(b.val))
		}
		sort.Strings(out)
		return out
	}
	if ms := x.P.EnumDomain(v.T); ms != nil {
		d, _ := x.enumDom(st, v)
		var out []string
		for i, m := range ms {
			if d.Mask&(1<<uint(i)) != 0 {
				out = append(out, m.Name)
			}
		}
		return out
	}
	return []string{"?" + v.Key()}
}

// FactBool returns the known value of a canonical boolean atom key.
func (st *State) FactBool(key string) (val, known bool) {
	d, ok := st.facts[key]
	if !ok || !d.Enum {
		return false, false
	}
	if d.Mask == 2 {
		return true, true
	}
	if d.Mask == 1 {
		return false, true
	}
	return false, false
}

// FactInt returns the known interval of an integer atom.
func (st *State) FactInt(key string) (lo, hi int64, ex []int64, known bool) {
	d, ok := st.facts[key]
	if !ok || d.Enum {
		return 0, 0, nil, false
	}
	return d.Lo, d.Hi, d.Ex, true
}

// Facts lists the facts of a state, for reports.
func (st *State) Facts() []string {
	var out []string
	for k, d := range st.facts {
		if d.Enum && isBool(d.V.T) {
			out = append(out, fmt.Sprintf("%s=%v", k, d.Mask == 2))
		} else if d.Enum {
			out = append(out, fmt.Sprintf("%s∈%x", k, d.Mask))
		} else {
			out = append(out, fmt.Sprintf("%s∈[%d,%d]\\%v", k, d.Lo, d.Hi, d.Ex))
		}
	}
	sort.Strings(out)
	return out
}

// Mem renders the memory, for debugging.
func (st *State) Has(loc string) bool { return st.mem[loc] != nil }

// Mem lists the memory, for debugging.
func (st *State) Mem() []string {
	var out []string
	for k, v := range st.mem {
		out = append(out, k+"="+v.Key())
	}
	sort.Strings(out)
	return out
}
