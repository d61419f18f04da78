package engine

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (x *Interp) exit(st *State, kind ExitKind, ret *Val, pos token.Pos) {
	key := string(kind) + "|" + x.exitKey(st, ret)
	if x.exitSeen[key] {
		return
	}
	x.exitSeen[key] = true
	x.Exits = append(x.Exits, &Exit{Kind: kind, St: st, Ret: ret, Pos: pos})
}

func (x *Interp) exitKey(st *State, ret *Val) string {
	save := st.frames
	st.frames = nil
	k := x.stateKey(st)
	st.frames = save
	if ret != nil {
		k += "\nR" + ret.Key()
	}
	return k
}

// step runs the top frame from its current instruction to the next fork, call or block end.
func (x *Interp) step(st *State) {
	for {
		if st.stop {
			x.exit(st, ExitStop, nil, token.NoPos)
			return
		}
		f := st.top()
		if f.idx >= len(f.block.Instrs) {
			x.undecided("fell off block in %s", f.fn)
			return
		}
		in := f.block.Instrs[f.idx]
		x.Steps++
		switch in := in.(type) {
		case *ssa.Alloc:
			tok := x.mintTok(st, in, "alloc")
			loc := "alloc" + tok
			// a re-executed allocation starts clean
			for k := range st.mem {
				if k == loc || strings.HasPrefix(k, loc+".") || strings.HasPrefix(k, loc+"[") {
					delete(st.mem, k)
				}
			}
			f = st.top()
			f.env[in] = mkPtr(loc, loc, in.Type())
			el := in.Type().Underlying().(*types.Pointer).Elem()
			st.mem[loc] = zeroVal(el)
		case *ssa.Phi:
			// evaluated at block entry
		case *ssa.BinOp:
			v := x.binop(st, in, x.get(st, in.X), x.get(st, in.Y))
			f.env[in] = v
		case *ssa.UnOp:
			if !x.unop(st, in) {
				return
			}
		case *ssa.ChangeType:
			v := *x.get(st, in.X)
			v.T = in.Type()
			f.env[in] = &v
		case *ssa.Convert:
			x.convert(st, in)
		case *ssa.MultiConvert:
			f.env[in] = mkExpr("conv:"+typeStr(in.Type()), in.Type(), x.get(st, in.X))
		case *ssa.ChangeInterface:
			v := *x.get(st, in.X)
			v.T = in.Type()
			f.env[in] = &v
		case *ssa.SliceToArrayPointer:
			f.env[in] = mkExpr("arr", in.Type(), x.get(st, in.X))
		case *ssa.MakeInterface:
			xv := x.get(st, in.X)
			if xv.T == nil || !types.Identical(xv.T, in.X.Type()) {
				c := *xv
				c.T = in.X.Type()
				xv = &c
			}
			f.env[in] = mkIface(xv, in.Type())
		case *ssa.MakeClosure:
			var bind []*Val
			for _, b := range in.Bindings {
				bind = append(bind, x.get(st, b))
			}
			f.env[in] = mkFunc(in.Fn.(*ssa.Function), bind, in.Type())
		case *ssa.MakeMap:
			f.env[in] = Sym("nonnil:map"+x.mintTok(st, in, "map"), in.Type())
			f = st.top()
		case *ssa.MakeChan:
			sz := x.get(st, in.Size)
			tok := x.mintTok(st, in, "chan")
			v := Sym("nonnil:chan("+sz.Key()+")"+tok, in.Type())
			st.top().env[in] = v
		case *ssa.MakeSlice:
			l := x.get(st, in.Len)
			if n, ok := l.Int(); ok && (n <= 8 || x.Cfg.Linear && n <= 24) {
				tok := x.mintTok(st, in, "mkslice")
				loc := "alloc" + tok
				st.mem[loc] = Nil(types.NewArray(in.Type().Underlying().(*types.Slice).Elem(), n))
				v := &Val{K: VSlice, S: loc, B: loc, N: int(n), T: in.Type(), mints: true, depth: 1}
				st.top().env[in] = v
			} else {
				// identity plus length expression
				st.top().env[in] = x.Mint(st, in, "nonnil:mkslice", in.Type())
			}
		case *ssa.FieldAddr:
			p := x.get(st, in.X)
			loc, base := x.Deref(p)
			name := fieldName(in.X.Type(), in.Field)
			f.env[in] = mkPtr(loc+"."+name, base, in.Type())
		case *ssa.Field:
			f.env[in] = Field(x.get(st, in.X), fieldName(in.X.Type(), in.Field), in.Type())
		case *ssa.IndexAddr:
			xv, iv := x.get(st, in.X), x.get(st, in.Index)
			f.env[in] = x.indexAddr(xv, iv, in.Type())
		case *ssa.Index:
			xv, iv := x.get(st, in.X), x.get(st, in.Index)
			f.env[in] = mkExpr("index", in.Type(), xv, iv)
		case *ssa.Lookup:
			x.lookup(st, in)
		case *ssa.Slice:
			x.slice(st, in)
		case *ssa.Extract:
			tv := x.get(st, in.Tuple)
			if tv.K == VTuple && in.Index < len(tv.Args) {
				f.env[in] = tv.Args[in.Index]
			} else if tv.K == VSym {
				f.env[in] = Sym(fmt.Sprintf("%s.%d", tv.S, in.Index), in.Type())
			} else {
				f.env[in] = mkExpr(fmt.Sprintf("ret%d", in.Index), in.Type(), tv)
			}
		case *ssa.TypeAssert:
			if !x.typeAssert(st, in) {
				return
			}
		case *ssa.Range:
			f.env[in] = mkExpr("range", in.Type(), x.get(st, in.X))
			if s, ok := x.get(st, in.X).Str(); ok && x.Cfg.Linear && isString(in.X.Type()) && len(s) <= 256 {
				it := Sym("striter"+x.mintTok(st, in, "striter"), in.Type())
				st.Vals[it.S] = mkConst(constant.MakeString(s), types.Typ[types.String])
				st.Vals[it.S+"@"] = IntVal(0, types.Typ[types.Int])
				st.top().env[in] = it
				break
			}
			if x.Cfg.RangeMaps && x.Cfg.Linear {
				if ks, ok := x.mapKeys(st, x.get(st, in.X)); ok {
					it := Sym("mapiter"+x.mintTok(st, in, "mapiter"), in.Type())
					st.Vals[it.S] = Tuple(ks...)
					st.Vals[it.S+"@"] = x.get(st, in.X)
					st.Vals[it.S+"!"] = Tuple(ks...)
					f.env[in] = it
					if len(ks) > 1 && !x.Cfg.OneMapOrder {
						rev := make([]*Val, len(ks))
						for i, k := range ks {
							rev[len(ks)-1-i] = k
						}
						s2 := st.clone()
						s2.Vals[it.S] = Tuple(rev...)
						s2.Note("%s: the map is iterated in another order", x.P.RelPos(in.Pos()))
						s2.top().idx++
						x.push(s2)
					}
				}
			}
		case *ssa.Next:
			if it := x.get(st, in.Iter); strings.HasPrefix(it.S, "mapiter#") && st.Vals[it.S] != nil {
				ks := st.Vals[it.S].Args
				tt := in.Type().(*types.Tuple)
				if len(ks) == 0 && !x.Cfg.OneMapOrder {
					// entries made meanwhile may be visited or not
					if cur, ok := x.mapKeys(st, st.Vals[it.S+"@"]); ok {
						seen := map[string]bool{}
						for _, k := range st.Vals[it.S+"!"].Args {
							seen[k.Key()] = true
						}
						for _, k := range cur {
							if !seen[k.Key()] {
								ks = append(ks, k)
							}
						}
						if len(ks) > 0 {
							s2 := st.clone()
							s2.top().env[in] = Tuple(BoolVal(false), zeroVal2(tt.At(1).Type()), zeroVal2(tt.At(2).Type()))
							s2.top().idx++
							x.push(s2)
							st.Note("%s: the iteration reaches entries made meanwhile", x.P.RelPos(in.Pos()))
							st.Vals[it.S+"!"] = Tuple(append(append([]*Val{}, st.Vals[it.S+"!"].Args...), ks...)...)
						}
					}
				}
				if len(ks) == 0 {
					st.top().env[in] = Tuple(BoolVal(false), zeroVal2(tt.At(1).Type()), zeroVal2(tt.At(2).Type()))
				} else {
					m := st.Vals[it.S+"@"]
					st.Vals[it.S] = Tuple(ks[1:]...)
					v := st.mem["map:"+m.Key()+"["+mapKey(ks[0])+"]"]
					if v == nil {
						v = zeroVal2(tt.At(2).Type())
					}
					st.top().env[in] = Tuple(BoolVal(true), ks[0], v)
				}
				break
			}
			if it := x.get(st, in.Iter); strings.HasPrefix(it.S, "striter#") && st.Vals[it.S] != nil {
				s, _ := st.Vals[it.S].Str()
				i, _ := st.Vals[it.S+"@"].Int()
				tt := in.Type().(*types.Tuple)
				if int(i) >= len(s) {
					st.top().env[in] = Tuple(BoolVal(false), zeroVal2(tt.At(1).Type()), zeroVal2(tt.At(2).Type()))
				} else {
					r, n := utf8.DecodeRuneInString(s[i:])
					st.Vals[it.S+"@"] = IntVal(i+int64(n), types.Typ[types.Int])
					st.top().env[in] = Tuple(BoolVal(true), IntVal(i, types.Typ[types.Int]), IntVal(int64(r), types.Typ[types.Rune]))
				}
				break
			}
			rv := x.get(st, in.Iter)
			tt := in.Type().(*types.Tuple)
			s2 := st.clone()
			s2.top().env[in] = Tuple(BoolVal(false), zeroVal2(tt.At(1).Type()), zeroVal2(tt.At(2).Type()))
			s2.top().idx++
			x.push(s2)
			tok := x.mintTok(st, in, "next")
			st.top().env[in] = Tuple(BoolVal(true), Sym("key("+rv.Key()+")"+tok, tt.At(1).Type()), Sym("val("+rv.Key()+")"+tok, tt.At(2).Type()))
		case *ssa.MapUpdate:
			m, k, v := x.get(st, in.Map), x.get(st, in.Key), x.get(st, in.Value)
			if x.Cfg.OnMap != nil {
				x.Cfg.OnMap(x, st, in, m, k, v)
			}
			x.mapUpdate(st, in, m, k, v)
		case *ssa.Store:
			x.store(st, in)
		case *ssa.DebugRef:
		case *ssa.Send:
			if x.Cfg.OnSend != nil {
				x.Cfg.OnSend(x, st, in, x.get(st, in.Chan), x.get(st, in.X))
			}
		case *ssa.Go:
			c := x.mkCall(st, in, in.Common())
			c.Go = true
			if x.Cfg.OnGo != nil {
				x.Cfg.OnGo(c)
			}
		case *ssa.Defer:
			x.pushDefer(st, in)
		case *ssa.RunDefers:
			if len(f.defers) > 0 {
				f.runDef = true
				x.runNextDefer(st)
				return
			}
			f.runDef = false
		case *ssa.Call:
			f.idx++ // return address
			x.call(st, in)
			return
		case *ssa.If:
			cond := x.get(st, in.Cond)
			for _, br := range x.decide(st, cond, true, true) {
				s := br.st
				fr := s.top()
				if x.Cfg.OnBranch != nil {
					x.Cfg.OnBranch(x, s, in, cond, br.val)
				}
				if cond.K != VConst {
					s.Note("%s: %s = %v", x.P.RelPos(condPos(in)), short(cond.Key()), br.val)
				}
				succ := in.Block().Succs[1]
				if br.val {
					succ = in.Block().Succs[0]
				}
				if s.stop {
					x.exit(s, ExitStop, nil, token.NoPos)
					continue
				}
				_ = fr
				x.enterBlock(s, succ, in.Block())
			}
			return
		case *ssa.Jump:
			x.enterBlock(st, in.Block().Succs[0], in.Block())
			return
		case *ssa.Return:
			var ret *Val
			if len(in.Results) == 1 {
				ret = x.get(st, in.Results[0])
			} else if len(in.Results) > 1 {
				var vs []*Val
				for _, r := range in.Results {
					vs = append(vs, x.get(st, r))
				}
				ret = Tuple(vs...)
			}
			x.ret(st, ret, in.Pos())
			return
		case *ssa.Panic:
			v := x.get(st, in.X)
			x.unwind(st, ExitPanic, v, in.Pos())
			return
		case *ssa.Select:
			x.selectStmt(st, in)
			return
		default:
			x.undecided("unhandled instruction %T in %s", in, f.fn)
			return
		}
		st.top().idx++
	}
}

func condPos(in *ssa.If) token.Pos {
	if p := in.Cond.Pos(); p.IsValid() {
		return p
	}
	if in.Pos().IsValid() {
		return in.Pos()
	}
	return in.Block().Parent().Pos()
}

func short(s string) string {
	if len(s) > 160 {
		return s[:160] + "…"
	}
	return s
}

func zeroVal2(t types.Type) *Val {
	if t == types.Typ[types.Invalid] || t == nil {
		return Nil(types.Typ[types.UntypedNil])
	}
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Nil(types.Typ[types.UntypedNil])
	}
	return zeroVal(t)
}

func (x *Interp) push(st *State) {
	if x.Cfg.Linear {
		x.work = append(x.work, st)
		return
	}
	x.gc(st)
	key := x.stateKey(st)
	if x.visited[key] {
		return
	}
	x.visited[key] = true
	x.work = append(x.work, st)
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct).Field(i).Name()
}

func (x *Interp) indexAddr(xv, iv *Val, t types.Type) *Val {
	ik := iv.Key()
	switch xv.K {
	case VSlice, VPtr:
		return mkPtr(xv.S+"["+ik+"]", xv.B, t)
	case VSym:
		return mkPtr("*"+xv.S+"["+ik+"]", "", t)
	}
	return mkPtr("*("+xv.Key()+")["+ik+"]", "", t)
}

func (x *Interp) unop(st *State, in *ssa.UnOp) bool {
	f := st.top()
	v := x.get(st, in.X)
	switch in.Op {
	case token.MUL:
		if g, ok := in.X.(*ssa.Global); ok {
			if k := x.P.GlobalConst(g); k != nil {
				f.env[in] = k
				return true
			}
			if es, id := x.P.GlobalSlice(g); es != nil {
				loc := fmt.Sprintf("alloc#const%d", id)
				for i, e := range es {
					st.mem[fmt.Sprintf("%s[%d]", loc, i)] = e
				}
				f.env[in] = &Val{K: VSlice, S: loc, B: loc, N: len(es), T: in.Type(), depth: 1}
				return true
			}
		}
		loc, _ := x.Deref(v)
		if !x.tracked(loc) {
			f.env[in] = nil
			delete(f.env, in)
			m := x.Mint(st, in, loc, in.Type())
			if t, ok := in.Type().Underlying().(*types.Struct); ok {
				m = x.overlay(st, loc, m, t, in.Type())
			}
			st.top().env[in] = m
			return true
		}
		f.env[in] = x.Load(st, loc, in.Type())
	case token.NOT:
		if b, ok := v.Bool(); ok {
			f.env[in] = BoolVal(!b)
		} else {
			f.env[in] = mkExpr("!", in.Type(), v)
		}
	case token.SUB, token.XOR:
		op := "neg"
		if in.Op == token.XOR {
			op = "^"
		}
		if v.IsConst() {
			if r := constUn(op, v.C, in.Type()); r != nil {
				f.env[in] = mkConst(r, in.Type())
				return true
			}
		}
		f.env[in] = mkExpr(op, in.Type(), v)
	case token.ARROW:
		if v.IsNil() {
			x.exit(st, ExitStop, nil, in.Pos()) // blocks for ever
			return false
		}
		if x.Cfg.OnRecv != nil {
			x.Cfg.OnRecv(x, st, in, v)
			if st.stop {
				return true
			}
		}
		if x.Cfg.RecvVal != nil {
			if rv := x.Cfg.RecvVal(x, st, in, v); rv != nil {
				if in.CommaOk {
					rv = Tuple(rv, BoolVal(true))
				}
				st.top().env[in] = rv
				return true
			}
		}
		if in.CommaOk {
			tt := in.Type().(*types.Tuple)
			tok := x.mintTok(st, in, "recv")
			st.top().env[in] = Tuple(Sym("recv("+v.Key()+")"+tok, tt.At(0).Type()), Sym("recvok("+v.Key()+")"+tok, tt.At(1).Type()))
		} else {
			st.top().env[in] = x.Mint(st, in, "recv("+v.Key()+")", in.Type())
		}
	}
	return true
}

func (x *Interp) convert(st *State, in *ssa.Convert) {
	f := st.top()
	v := x.get(st, in.X)
	from, to := in.X.Type(), in.Type()
	if x.Cfg.Linear && x.convertText(st, in, v, from, to) {
		return
	}
	if v.K == VConst && v.C != nil {
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 && isInt(from) {
			f.env[in] = mkConst(constant.ToFloat(v.C), to)
			return
		}
		if isInt(from) && isInt(to) || isString(from) && isString(to) {
			f.env[in] = mkConst(v.C, to)
			return
		}
	}
	if isInt(from) && isInt(to) || isString(from) && isString(to) {
		// value-preserving renaming: keep the identity, change the type only when the domain is not lost
		if x.P.EnumDomain(from) != nil || x.P.EnumDomain(to) == nil {
			f.env[in] = mkExpr("conv", to, v)
			if x.P.EnumDomain(from) == nil {
				c := *v
				c.T = to
				f.env[in] = &c
			}
			return
		}
	}
	f.env[in] = mkExpr("conv:"+typeStr(to), to, v)
}

// convertText converts between known strings and their runes or bytes.
func (x *Interp) convertText(st *State, in *ssa.Convert, v *Val, from, to types.Type) bool {
	unit := func(t types.Type) types.Type {
		sl, ok := t.Underlying().(*types.Slice)
		if !ok {
			return nil
		}
		b, ok := sl.Elem().Underlying().(*types.Basic)
		if !ok || b.Kind() != types.Int32 && b.Kind() != types.Uint8 {
			return nil
		}
		return sl.Elem()
	}
	if u := unit(to); u != nil && isString(from) {
		s, ok := v.Str()
		if !ok || len(s) > 256 {
			return false
		}
		tok := x.mintTok(st, in, "text")
		loc := "alloc" + tok
		n := 0
		put := func(c int64) {
			st.mem[fmt.Sprintf("%s[%d]", loc, n)] = mkConst(constant.MakeInt64(c), u)
			n++
		}
		if u.Underlying().(*types.Basic).Kind() == types.Int32 {
			for _, r := range s {
				put(int64(r))
			}
		} else {
			for i := 0; i < len(s); i++ {
				put(int64(s[i]))
			}
		}
		st.top().env[in] = &Val{K: VSlice, S: loc, B: loc, N: n, T: to, mints: true, depth: 1}
		return true
	}
	if u := unit(from); u != nil && isString(to) {
		es, ok := x.Elems(st, v)
		if !ok {
			if v.K == VExpr && v.S == "empty" {
				es = nil
			} else {
				return false
			}
		}
		var b []byte
		for _, e := range es {
			n, ok := e.Int()
			if !ok {
				return false
			}
			if u.Underlying().(*types.Basic).Kind() == types.Int32 {
				b = append(b, string(rune(n))...)
			} else {
				b = append(b, byte(n))
			}
		}
		st.top().env[in] = mkConst(constant.MakeString(string(b)), to)
		return true
	}
	if b, ok := from.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && isString(to) {
		if n, ok := v.Int(); ok {
			st.top().env[in] = mkConst(constant.MakeString(string(rune(n))), to)
			return true
		}
	}
	return false
}

func (x *Interp) lookup(st *State, in *ssa.Lookup) {
	f := st.top()
	m, k := x.get(st, in.X), x.get(st, in.Index)
	vt := in.Type()
	if in.CommaOk {
		vt = in.Type().(*types.Tuple).At(0).Type()
	}
	var v, ok *Val
	if isString(in.X.Type()) {
		v = mkExpr("index", vt, m, k)
		if s, ok := m.Str(); ok && x.Cfg.Linear {
			if i, ok := k.Int(); ok && i >= 0 && int(i) < len(s) {
				v = mkConst(constant.MakeInt64(int64(s[i])), vt)
			}
		}
	} else if x.Cfg.Track != nil && !x.Cfg.Track("map:"+m.Key()) {
		if m.IsNil() {
			v, ok = zeroVal(vt), BoolVal(false)
		} else {
			v = x.Mint(st, in, "lookup:"+shortKey(m), vt)
			ok = x.Mint(st, in, "has:"+shortKey(m), types.Typ[types.Bool])
		}
	} else {
		loc := "map:" + m.Key() + "[" + mapKey(k) + "]"
		if sv, has := st.mem[loc]; has {
			v, ok = sv, BoolVal(true)
		} else {
			ep := st.mem["mapep:"+m.Key()]
			if ep == nil && strings.HasPrefix(m.S, "nonnil:map#") && (ground(k) || !st.hasPrefix("map:"+m.Key()+"[")) {
				v, ok = zeroVal(vt), BoolVal(false) // fresh empty map
			} else {
				args := []*Val{m, k}
				if ep != nil {
					args = append(args, ep)
				}
				v = mkExpr("lookup", vt, args...)
				ok = mkExpr("has", types.Typ[types.Bool], args...)
			}
			if m.IsNil() {
				v, ok = zeroVal(vt), BoolVal(false)
			}
		}
	}
	if in.CommaOk {
		if ok == nil {
			ok = mkExpr("has", types.Typ[types.Bool], m, k)
		}
		f.env[in] = Tuple(v, ok)
	} else {
		f.env[in] = v
	}
}

func shortKey(v *Val) string {
	if v.K == VSym && !v.mints {
		return v.S
	}
	return "m"
}

func (x *Interp) mapUpdate(st *State, in ssa.Instruction, m, k, v *Val) {
	if x.Cfg.Track != nil && !x.Cfg.Track("map:"+m.Key()) {
		return
	}
	pre := "map:" + m.Key() + "["
	if ground(k) && strings.HasPrefix(m.S, "nonnil:map#") && st.mem["mapep:"+m.Key()] == nil {
		st.mem[pre+mapKey(k)+"]"] = v // every entry so far has a constant key: the others are unaffected
		return
	}
	for l := range st.mem {
		if strings.HasPrefix(l, pre) {
			delete(st.mem, l)
		}
	}
	held := []*Val{m, k, v}
	tok := x.mintKeep(st, in, "mapep", &held)
	m, k, v = held[0], held[1], held[2]
	pre = "map:" + m.Key() + "["
	st.mem["mapep:"+m.Key()] = Sym("ep"+tok, types.Typ[types.Int])
	st.mem[pre+mapKey(k)+"]"] = v
}

// flat renders a ground value without its zero fields.
func flat(v *Val) string {
	if v.K != VAgg {
		if v.C == nil {
			v = zeroVal(v.T)
		}
		if v.IsNil() {
			return ""
		}
		return v.Key()
	}
	var out []string
	for f, w := range v.F {
		if s := flat(w); s != "" && s != "0" && s != "false" && s != `""` {
			out = append(out, f+"="+s)
		}
	}
	sort.Strings(out)
	return strings.Join(out, "|")
}

func (st *State) hasPrefix(p string) bool {
	for l := range st.mem {
		if strings.HasPrefix(l, p) {
			return true
		}
	}
	return false
}

// ground reports whether a key is a constant, or a struct of constants over the zero value.
func ground(v *Val) bool {
	switch v.K {
	case VConst:
		return true
	case VAgg:
		if !v.Args[0].IsNil() {
			return false
		}
		for _, f := range v.F {
			if !ground(f) {
				return false
			}
		}
		return true
	}
	return false
}

func (x *Interp) slice(st *State, in *ssa.Slice) {
	f := st.top()
	v := x.get(st, in.X)
	var lo, hi *Val
	if in.Low != nil {
		lo = x.get(st, in.Low)
	}
	if in.High != nil {
		hi = x.get(st, in.High)
	}
	if v.K == VPtr && lo == nil && hi == nil {
		if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok && at.Len() <= 64 {
				f.env[in] = &Val{K: VSlice, S: v.S, B: v.B, N: int(at.Len()), T: in.Type(), mints: v.mints, depth: 1}
				return
			}
		}
	}
	if lo == nil && hi == nil && in.Max == nil {
		c := *v
		c.T = in.Type()
		f.env[in] = &c
		return
	}
	if hi != nil && lo == nil {
		if n, ok := hi.Int(); ok && n == 0 {
			f.env[in] = mkExpr("empty", in.Type(), v)
			return
		}
	}
	if s, ok := v.Str(); ok && x.Cfg.Linear && isString(in.X.Type()) {
		l, h, known := int64(0), int64(len(s)), true
		if lo != nil {
			l, known = lo.Int()
		}
		if hi != nil && known {
			h, known = hi.Int()
		}
		if known && l >= 0 && l <= h && h <= int64(len(s)) {
			f.env[in] = mkConst(constant.MakeString(s[l:h]), in.Type())
			return
		}
	}
	if x.Cfg.Linear && v.K == VSlice && in.Max == nil {
		l, h := int64(0), int64(v.N)
		known := true
		if lo != nil {
			l, known = lo.Int()
		}
		if hi != nil && known {
			h, known = hi.Int()
		}
		if known && l >= 0 && l <= h && h <= int64(v.N) {
			c := *v
			c.N, c.T, c.key = int(h-l), in.Type(), ""
			if l > 0 { // a copy: writes through it are not seen by the original
				et := in.Type().Underlying().(*types.Slice).Elem()
				loc := "alloc" + x.mintTok(st, in, "slice")
				for i := l; i < h; i++ {
					st.mem[fmt.Sprintf("%s[%d]", loc, i-l)] = x.Load(st, fmt.Sprintf("%s[%d]", v.S, i), et)
				}
				c.S, c.B, c.mints = loc, loc, true
			}
			f.env[in] = &c
			return
		}
	}
	args := []*Val{v}
	for _, a := range []*Val{lo, hi} {
		if a == nil {
			a = Nil(types.Typ[types.Int])
		}
		args = append(args, a)
	}
	if v.depth > 4 {
		f.env[in] = x.Mint(st, in, "slice", in.Type())
		return
	}
	f.env[in] = mkExpr("slice", in.Type(), args...)
}

func (x *Interp) typeAssert(st *State, in *ssa.TypeAssert) bool {
	v := x.get(st, in.X)
	set := func(s *State, val *Val, ok bool) {
		if in.CommaOk {
			s.top().env[in] = Tuple(val, BoolVal(ok))
		} else {
			s.top().env[in] = val
		}
	}
	var t types.Type = in.AssertedType
	if v.K == VIface {
		dt := v.Args[0].T
		match := types.Identical(dt, t)
		val := v.Args[0]
		if it, ok := t.Underlying().(*types.Interface); ok {
			match = types.Implements(dt, it)
			val = v
		}
		if match {
			set(st, val, true)
		} else if in.CommaOk {
			set(st, zeroVal(t), false)
		} else {
			x.unwind(st, ExitPanic, Sym("nonnil:typeassert", in.X.Type()), in.Pos())
			return false
		}
		return true
	}
	if v.IsNil() {
		if in.CommaOk {
			set(st, zeroVal(t), false)
			return true
		}
		x.unwind(st, ExitPanic, Sym("nonnil:typeassert", in.X.Type()), in.Pos())
		return false
	}
	atom := mkExpr("is:"+typeStr(t), types.Typ[types.Bool], v)
	val := mkExpr("as:"+typeStr(t), t, v)
	if !in.CommaOk {
		st.top().env[in] = val
		return true
	}
	brs := x.decide(st, atom, true, true)
	for _, b := range brs {
		b.st.Note("%s: %s is %s = %v", x.P.RelPos(in.Pos()), short(v.Key()), typeStr(t), b.val)
		if b.val {
			set(b.st, val, true)
		} else {
			set(b.st, zeroVal(t), false)
		}
		b.st.top().idx++
		x.push(b.st)
	}
	return false
}

func (x *Interp) store(st *State, in *ssa.Store) {
	p := x.get(st, in.Addr)
	v := x.get(st, in.Val)
	loc, _ := x.Deref(p)
	if x.Cfg.OnStore != nil {
		var old *Val
		if x.tracked(loc) {
			old = x.Load(st, loc, in.Val.Type())
		}
		x.Cfg.OnStore(x, st, in, loc, old, v)
	}
	if !x.tracked(loc) {
		return
	}
	if x.Cfg.StoreAs != nil {
		loc, v = x.Cfg.StoreAs(x, st, loc, v)
	}
	if v.depth > 6 {
		v = x.Mint(st, in, "stored", in.Val.Type())
	}
	x.Store(st, loc, v)
}

func (x *Interp) selectStmt(st *State, in *ssa.Select) {
	tt := in.Type().(*types.Tuple)
	any := false
	n := len(in.States)
	if x.Cfg.OnWait != nil {
		var chs []*Val
		for _, cs := range in.States {
			chs = append(chs, x.get(st, cs.Chan))
		}
		x.Cfg.OnWait(x, st, in, chs)
		if st.stop {
			x.exit(st, ExitStop, nil, in.Pos())
			return
		}
	}
	try := func(i int) {
		s := st.clone()
		var ch *Val
		if i >= 0 {
			ch = x.get(s, in.States[i].Chan)
			if ch.IsNil() {
				return
			}
			if in.States[i].Dir == types.SendOnly {
				if x.Cfg.OnSend != nil {
					x.Cfg.OnSend(x, s, in, ch, x.get(s, in.States[i].Send))
				}
			}
		}
		any = true
		if x.Cfg.OnSelect != nil {
			x.Cfg.OnSelect(x, s, in, i, ch)
		}
		if s.stop {
			x.exit(s, ExitStop, nil, in.Pos())
			return
		}
		desc := "default"
		if i >= 0 {
			desc = short(ch.Key())
		}
		s.Note("%s: select case %d (%s)", x.P.RelPos(in.Pos()), i, desc)
		tok := x.mintTok(s, in, fmt.Sprintf("sel%d", i))
		vals := []*Val{IntVal(int64(i), tt.At(0).Type()), BoolVal(true)}
		if i >= 0 && in.States[i].Dir == types.RecvOnly {
			vals[1] = Sym("recvok("+ch.Key()+")"+tok, tt.At(1).Type())
		}
		r := 2
		for j, cs := range in.States {
			if cs.Dir == types.RecvOnly {
				if j == i {
					rv := (*Val)(nil)
					if x.Cfg.RecvVal != nil {
						rv = x.Cfg.RecvVal(x, s, in, ch)
					}
					if rv == nil {
						rv = Sym("recv("+ch.Key()+")"+tok, tt.At(r).Type())
					}
					vals = append(vals, rv)
				} else {
					vals = append(vals, zeroVal(tt.At(r).Type()))
				}
				r++
			}
		}
		s.top().env[in] = Tuple(vals...)
		s.top().idx++
		x.push(s)
	}
	for i := 0; i < n; i++ {
		try(i)
	}
	if !in.Blocking {
		try(-1)
	}
	if !any {
		x.exit(st, ExitStop, nil, in.Pos())
	}
}

// ---- calls

func (x *Interp) pushDefer(st *State, in *ssa.Defer) {
	f := st.top()
	d := deferRec{in: in}
	if in.Call.IsInvoke() {
		d.recv = x.get(st, in.Call.Value)
	} else {
		d.fn = x.get(st, in.Call.Value)
	}
	for _, a := range in.Call.Args {
		d.args = append(d.args, x.get(st, a))
	}
	if len(f.defers) > 12 {
		x.undecided("defer in a loop in %s", f.fn)
		return
	}
	f.defers = append(f.defers, d)
}

func (x *Interp) runNextDefer(st *State) {
	f := st.top()
	d := f.defers[len(f.defers)-1]
	f.defers = append([]deferRec{}, f.defers[:len(f.defers)-1]...)
	c := &Call{X: x, St: st, Instr: d.in, Com: &d.in.Call, Args: d.args, Recv: d.recv, FnVal: d.fn}
	x.resolve(c)
	x.dispatch(c, true)
}

func (x *Interp) ret(st *State, ret *Val, pos token.Pos) {
	f := st.top()
	if x.Cfg.OnReturn != nil {
		x.Cfg.OnReturn(x, st, f.fn, ret)
	}
	if len(st.frames) == 1 {
		st.Note("%s: return", x.P.RelPos(pos))
		x.exit(st, ExitReturn, ret, pos)
		return
	}
	st.frames = st.frames[:len(st.frames)-1]
	x.resume(st, f.call, f.deferred, ret)
}

// resume continues the caller after a call has returned normally.
func (x *Interp) resume(st *State, call ssa.Instruction, deferred bool, ret *Val) {
	f := st.top()
	if deferred {
		if f.unwind != "" {
			x.continueUnwind(st)
			return
		}
		if f.recovering && len(f.defers) > 0 {
			x.runNextDefer(st)
			return
		}
		// re-execute RunDefers (or the recover block)
		x.push(st)
		return
	}
	if v, ok := call.(ssa.Value); ok && ret != nil {
		f.env[v] = ret
	}
	x.push(st)
}

// unwind starts unwinding the top frame.
func (x *Interp) unwind(st *State, kind ExitKind, v *Val, pos token.Pos) {
	f := st.top()
	f.unwind = kind
	f.panicVal = v
	f.recov = false
	f.runDef = false
	st.Note("%s: %s in %s", x.P.RelPos(pos), kind, f.fn.RelString(nil))
	x.continueUnwind(st)
}

func (x *Interp) continueUnwind(st *State) {
	for {
		f := st.top()
		if f.recov && f.unwind == ExitPanic {
			// recovered: remaining defers run, then the function returns via its recover block
			f.unwind = ""
			f.recov = false
			f.panicVal = nil
			if f.fn.Recover != nil {
				b := f.fn.Recover
				f.block, f.idx = b, 0
				if len(f.defers) > 0 {
					f.recovering = true
					x.runNextDefer(st)
					return
				}
				x.enterBlock(st, b, nil)
				return
			}
			if len(f.defers) > 0 {
				x.undecided("recover with pending defers and no recover block in %s", f.fn)
			}
			// returns zero results
			var ret *Val
			rs := f.fn.Signature.Results()
			if rs.Len() == 1 {
				ret = zeroVal(rs.At(0).Type())
			} else if rs.Len() > 1 {
				var vs []*Val
				for i := 0; i < rs.Len(); i++ {
					vs = append(vs, zeroVal(rs.At(i).Type()))
				}
				ret = Tuple(vs...)
			}
			x.ret(st, ret, f.fn.Pos())
			return
		}
		if len(f.defers) > 0 {
			x.runNextDefer(st)
			return
		}
		kind, v := f.unwind, f.panicVal
		if len(st.frames) == 1 {
			x.exit(st, kind, v, f.fn.Pos())
			return
		}
		st.frames = st.frames[:len(st.frames)-1]
		p := st.top()
		if p.unwind != "" && f.deferred {
			// a panic in a deferred call replaces the one being unwound
		}
		p.unwind = kind
		p.panicVal = v
		p.recov = false
		p.runDef = false
	}
}

func (x *Interp) mkCall(st *State, in ssa.Instruction, com *ssa.CallCommon) *Call {
	c := &Call{X: x, St: st, Instr: in, Com: com}
	if com.IsInvoke() {
		c.Recv = x.get(st, com.Value)
	} else {
		c.FnVal = x.get(st, com.Value)
	}
	for _, a := range com.Args {
		c.Args = append(c.Args, x.get(st, a))
	}
	x.resolve(c)
	return c
}

// CalleeName is the canonical name of a function: package path relative to the module, receiver and name.
func (p *Prog) CalleeName(fn *ssa.Function) string {
	if fn == nil {
		return ""
	}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	s := o.RelString(nil)
	return strings.ReplaceAll(strings.ReplaceAll(s, p.Module+"/", ""), p.Module+".", "ginkgo.")
}

func (x *Interp) resolve(c *Call) {
	com := c.Com
	if com.Signature().Results().Len() == 1 {
		c.T = com.Signature().Results().At(0).Type()
	} else {
		c.T = com.Signature().Results()
	}
	if com.IsInvoke() {
		if c.Recv.K == VIface {
			dt := c.Recv.Args[0].T
			if m := x.P.SSA.LookupMethod(dt, com.Method.Pkg(), com.Method.Name()); m != nil {
				c.Fn = m
				c.Args = append([]*Val{c.Recv.Args[0]}, c.Args...)
				c.Name = x.P.CalleeName(m)
				return
			}
		}
		c.Name = "invoke " + strings.TrimPrefix(typeStr(com.Value.Type()), "*") + "." + com.Method.Name()
		return
	}
	fv := c.FnVal
	if fv.K == VFunc && fv.Fn != nil {
		c.Fn = fv.Fn
		c.Bind = fv.Args
		c.Name = x.P.CalleeName(fv.Fn)
		return
	}
	if fv.K == VFunc {
		c.Name = fv.S
		return
	}
	c.Name = "dyn " + fv.Key()
}

func (x *Interp) call(st *State, in *ssa.Call) {
	c := x.mkCall(st, in, &in.Call)
	x.dispatch(c, false)
}

func (x *Interp) note(c *Call) {
	k := fmt.Sprintf("%p|%s", c.Instr, c.Name)
	if !x.callSeen[k] {
		x.callSeen[k] = true
		x.Calls[c.Name]++
	}
}

// dispatch performs a resolved call; the caller frame's idx already points behind a *ssa.Call, or at the RunDefers for deferred ones.
func (x *Interp) dispatch(c *Call, deferred bool) {
	st := c.St
	x.note(c)
	if x.Cfg.OnCall != nil {
		if outs, ok := x.Cfg.OnCall(c); ok {
			x.finish(c, outs, deferred)
			return
		}
	}
	if strings.HasPrefix(c.Name, "builtin:") {
		x.builtin(c, deferred)
		return
	}
	if c.Fn != nil {
		if outs, ok := x.intrinsic(c); ok {
			x.finish(c, outs, deferred)
			return
		}
		fn := c.Fn
		opaque := len(fn.Blocks) == 0 || (x.Cfg.Opaque != nil && x.Cfg.Opaque(fn)) || !x.Cfg.Linear && st.InFn(fn) || len(st.frames) >= x.Cfg.MaxDepth
		if x.Cfg.IntraOnly && fn.Parent() == nil {
			opaque = true
		}
		if !opaque && !x.P.inModule(fn) && (fn.Synthetic == "" || x.P.inAux(fn)) && !x.followAux(c, fn) {
			opaque = true
		}
		if !opaque {
			x.Inlined[fn] = true
			caller := st.top()
			// prune the caller's environment to what is live after the call
			live := x.P.liveAt(caller.block, caller.idx)
			for k := range caller.env {
				if !live[k] {
					delete(caller.env, k)
				}
			}
			ctx := caller.ctx + "/" + fmt.Sprint(x.mintID("call|"+caller.ctx+"|"+instrKey(c.Instr)+fmt.Sprint(deferred)))
			nf := &frame{fn: fn, ctx: ctx, env: map[ssa.Value]*Val{}, bind: c.Bind, call: c.Instr, deferred: deferred}
			for i, p := range fn.Params {
				if i < len(c.Args) {
					nf.env[p] = c.Args[i]
				} else {
					nf.env[p] = Sym("undefarg", p.Type())
				}
			}
			st.frames = append(st.frames, nf)
			x.enterBlock(st, fn.Blocks[0], nil)
			return
		}
		if x.P.inModule(fn) && len(fn.Blocks) > 0 {
			x.havoc(st, c.Instr, fn)
		}
	}
	// unknown callee: contents of allocations passed by address may change
	x.havocArgs(st, c)
	x.finish(c, []Outcome{{St: st, Kind: ExitReturn}}, deferred)
}

// followAux reports whether a call into a standard package loaded from source is followed: on lists whose length is known.
func (x *Interp) followAux(c *Call, fn *ssa.Function) bool {
	if !x.P.inAux(fn) {
		return false
	}
	for _, a := range c.Args {
		if a == nil {
			return false
		}
		if _, ok := a.T.Underlying().(*types.Slice); ok && !a.IsNil() && (a.K != VSlice || a.N < 0 || a.N > 16) {
			return false
		}
	}
	return true
}

func (x *Interp) havocArgs(st *State, c *Call) {
	if c.Fn != nil && x.P.pureExternal(c.Fn) {
		return
	}
	for _, a := range c.Args {
		a = a.Unbox()
		if a != nil && a.K == VPtr {
			pt, ok := a.T.Underlying().(*types.Pointer)
			if !ok {
				continue
			}
			if c.Fn != nil && c.Fn.Signature.Recv() != nil && len(c.Args) > 0 && a == c.Args[0].Unbox() {
				// method on a non-module type held in a field: its own state only
			}
			for k := range st.mem {
				if strings.HasPrefix(k, a.S+".") || strings.HasPrefix(k, a.S+"[") {
					delete(st.mem, k)
				}
			}
			m := x.Mint(st, c.Instr, "out:"+a.S, pt.Elem())
			st.mem[a.S] = m
		}
	}
}

func (x *Interp) finish(c *Call, outs []Outcome, deferred bool) {
	for _, o := range outs {
		st := o.St
		if st.stop {
			x.exit(st, ExitStop, nil, c.Pos())
			continue
		}
		switch o.Kind {
		case ExitReturn, "":
			ret := o.Ret
			if ret == nil {
				ret = x.fresh(st, c)
			}
			x.resume(st, c.Instr, deferred, ret)
		case ExitPanic:
			v := o.Ret
			if v == nil {
				v = Sym("nonnil:panic", types.Universe.Lookup("any").Type())
			}
			x.unwind(st, ExitPanic, v, c.Pos())
		case ExitGoexit:
			x.unwind(st, ExitGoexit, nil, c.Pos())
		case ExitOS:
			x.exit(st, ExitOS, o.Ret, c.Pos())
		case ExitStop:
			x.exit(st, ExitStop, nil, c.Pos())
		}
	}
}

// fresh makes the result of an unmodelled call.
func (x *Interp) fresh(st *State, c *Call) *Val {
	if t, ok := c.T.(*types.Tuple); ok && t.Len() == 0 {
		return Nil(types.Typ[types.UntypedNil])
	}
	name := c.Name
	if c.Fn != nil && x.P.pureExternal(c.Fn) || strings.HasPrefix(c.Name, "invoke error.") {
		args := c.Args
		if c.Recv != nil {
			args = append([]*Val{c.Recv}, args...)
		}
		var ks []*Val
		depth := 0
		for _, a := range args {
			if a.K == VSlice && a.N <= 6 { // variadic arguments by value
				et := a.T.Underlying().(*types.Slice).Elem()
				for i := 0; i < a.N; i++ {
					ks = append(ks, x.Load(st, fmt.Sprintf("%s[%d]", a.S, i), et))
				}
			} else if a.K == VPtr && a.B != "" {
				ks = append(ks, x.Load(st, a.S, a.T.Underlying().(*types.Pointer).Elem()))
			} else {
				ks = append(ks, a)
			}
		}
		for _, a := range ks {
			if a.depth > depth {
				depth = a.depth
			}
		}
		if depth <= 4 {
			e := mkExpr("call:"+name, c.T, ks...)
			if t, ok := c.T.(*types.Tuple); ok {
				var vs []*Val
				for i := 0; i < t.Len(); i++ {
					vs = append(vs, mkExpr(fmt.Sprintf("ret%d", i), t.At(i).Type(), e))
				}
				return Tuple(vs...)
			}
			return e
		}
	}
	in := c.Instr
	if t, ok := c.T.(*types.Tuple); ok {
		tok := x.mintTok(st, in, name)
		var vs []*Val
		for i := 0; i < t.Len(); i++ {
			vs = append(vs, Sym(fmt.Sprintf("%s.%d%s", shortName(name), i, tok), t.At(i).Type()))
		}
		return Tuple(vs...)
	}
	return x.Mint(st, in, shortName(name), c.T)
}

func shortName(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}

// Fresh makes minted results for a hooked call.
func (c *Call) Fresh() *Val {
	for i, a := range c.Args {
		if a != nil {
			c.St.Vals[fmt.Sprintf("~a%d", i)] = a
		}
	}
	r := c.X.fresh(c.St, c)
	na := make([]*Val, len(c.Args))
	for i, a := range c.Args {
		if a != nil {
			k := fmt.Sprintf("~a%d", i)
			na[i] = c.St.Vals[k]
			delete(c.St.Vals, k)
		}
	}
	c.Args = na
	return r
}

func (x *Interp) havoc(st *State, in ssa.Instruction, fn *ssa.Function) {
	mods := x.P.Mods(fn)
	if len(mods) == 0 {
		return
	}
	var tok string
	for k := range st.mem {
		cur := k
		hit := false
		for {
			i := lastSep(cur)
			if i < 0 {
				break
			}
			if cur[i] == '.' && mods[cur[i:]] {
				hit = true
				break
			}
			cur = cur[:i]
		}
		if hit {
			delete(st.mem, k)
		}
	}
	for m := range mods {
		if tok == "" {
			tok = x.mintTok(st, in, "havoc")
		}
		st.epoch[m] = tok
	}
}

// Havoc forgets everything a repository function may write.
func (x *Interp) Havoc(st *State, in ssa.Instruction, fn *ssa.Function) { x.havoc(st, in, fn) }

func (x *Interp) builtin(c *Call, deferred bool) {
	st := c.St
	name := strings.TrimPrefix(c.Name, "builtin:")
	var ret *Val
	switch name {
	case "len", "cap":
		a := c.Args[0]
		switch {
		case a.K == VSlice:
			ret = IntVal(int64(a.N), c.T)
		case a.IsNil():
			ret = IntVal(0, c.T)
		case a.K == VExpr && a.S == "empty" && name == "len":
			ret = IntVal(0, c.T)
		default:
			if s, ok := a.Str(); ok {
				ret = IntVal(int64(len(s)), c.T)
			} else if a.K == VExpr && a.S == "conv:[]byte" {
				ret = mkExpr(name, c.T, a.Args[0])
			} else if n, ok := x.mapLen(st, a); ok && name == "len" {
				ret = IntVal(int64(n), c.T)
			} else {
				ret = mkExpr(name, c.T, a)
			}
		}
	case "append":
		ret = x.appendVal(st, c)
	case "copy":
		// destination contents unknown, unless both sides are known element by element
		if d := c.Args[0]; d.K == VSlice && len(c.Args) > 1 && c.Args[1].K == VSlice {
			n := d.N
			if c.Args[1].N < n {
				n = c.Args[1].N
			}
			es, _ := x.Elems(st, c.Args[1])
			for i := 0; i < n; i++ {
				x.Store(st, fmt.Sprintf("%s[%d]", d.S, i), es[i])
			}
			ret = IntVal(int64(n), types.Typ[types.Int])
			break
		} else if d.B != "" {
			for k := range st.mem {
				if strings.HasPrefix(k, d.S+"[") {
					delete(st.mem, k)
				}
			}
			if len(c.Args) > 1 {
				st.mem[d.S] = mkExpr("copyof", d.T, c.Args[1])
			}
		}
		ret = x.Mint(st, c.Instr, "copy", types.Typ[types.Int])
	case "delete":
		m := c.Args[0]
		if len(c.Args) > 1 && ground(c.Args[1]) && strings.HasPrefix(m.S, "nonnil:map#") && st.mem["mapep:"+m.Key()] == nil {
			delete(st.mem, "map:"+m.Key()+"["+mapKey(c.Args[1])+"]")
			break
		}
		for k := range st.mem {
			if strings.HasPrefix(k, "map:"+m.Key()+"[") {
				delete(st.mem, k)
			}
		}
		held := []*Val{m}
		tok := x.mintKeep(st, c.Instr, "mapep", &held)
		m = held[0]
		st.mem["mapep:"+m.Key()] = Sym("ep"+tok, types.Typ[types.Int])
	case "recover":
		f := st.top()
		ret = Nil(types.Universe.Lookup("any").Type())
		if len(st.frames) == 1 && x.Cfg.Recovered != nil {
			ret = x.Cfg.Recovered
		}
		if f.deferred && len(st.frames) >= 2 {
			p := st.frames[len(st.frames)-2]
			if p.unwind == ExitPanic {
				p.recov = true
				ret = p.panicVal
				if ret != nil && ret.S == "panic:nil" {
					ret = Nil(types.Universe.Lookup("any").Type())
				} else if ret == nil || ret.IsNil() {
					ret = Sym("nonnil:panic", types.Universe.Lookup("any").Type())
				}
			}
		}
	case "close":
		if x.Cfg.OnClose != nil {
			x.Cfg.OnClose(x, st, c.Instr, c.Args[0])
		}
	case "panic":
		x.unwind(st, ExitPanic, c.Args[0], c.Pos())
		return
	case "min", "max":
		ret = mkExpr(name, c.T, c.Args...)
		all := true
		for _, a := range c.Args {
			if _, ok := a.Int(); !ok {
				all = false
			}
		}
		if all && len(c.Args) == 2 {
			a, _ := c.Args[0].Int()
			b, _ := c.Args[1].Int()
			if (name == "min") == (a < b) {
				ret = c.Args[0]
			} else {
				ret = c.Args[1]
			}
		}
	case "ssa:wrapnilchk":
		ret = c.Args[0]
	case "print", "println", "clear":
	default:
		ret = x.Mint(st, c.Instr, name, c.T)
	}
	x.finish(c, []Outcome{{St: st, Ret: ret, Kind: ExitReturn}}, deferred)
}

func (x *Interp) appendVal(st *State, c *Call) *Val {
	a := c.Args[0]
	if len(c.Args) == 1 {
		return a
	}
	b := c.Args[1]
	var elems []*Val
	known := false
	if b.K == VSlice {
		known = true
		et := b.T.Underlying().(*types.Slice).Elem()
		for i := 0; i < b.N; i++ {
			elems = append(elems, x.Load(st, fmt.Sprintf("%s[%d]", b.S, i), et))
		}
	} else if b.IsNil() || b.K == VExpr && b.S == "empty" {
		return a
	}
	if a.depth > 4 || b.depth > 5 {
		return x.Mint(st, c.Instr, "nonnil:append", c.T)
	}
	if a.IsNil() || (a.K == VSlice && a.N == 0) || (a.K == VExpr && a.S == "empty") {
		if !known {
			if a.IsNil() || a.K == VSlice {
				c := *b
				c.T = a.T
				return &c
			}
		}
	}
	if known {
		if a.IsNil() || (a.K == VSlice && a.N+len(elems) <= x.maxList()) || x.Cfg.Linear && a.K == VExpr && a.S == "empty" {
			et := c.T.Underlying().(*types.Slice).Elem()
			var all []*Val
			if a.K == VSlice {
				for i := 0; i < a.N; i++ {
					all = append(all, x.Load(st, fmt.Sprintf("%s[%d]", a.S, i), et))
				}
			}
			all = append(all, elems...)
			tok := x.mintKeep(st, c.Instr, "append", &all)
			loc := "alloc" + tok
			n := 0
			for _, e := range all {
				st.mem[fmt.Sprintf("%s[%d]", loc, n)] = e
				n++
			}
			return &Val{K: VSlice, S: loc, B: loc, N: n, T: c.T, mints: true, depth: 1}
		}
		if a.K == VSlice {
			a = x.sliceExpr(st, a)
		}
		return mkExpr("append", c.T, append([]*Val{a}, elems...)...)
	}
	if a.K == VSlice {
		a = x.sliceExpr(st, a)
	}
	return mkExpr("concat", c.T, a, b)
}

func (x *Interp) sliceExpr(st *State, a *Val) *Val {
	et := a.T.Underlying().(*types.Slice).Elem()
	var es []*Val
	for i := 0; i < a.N; i++ {
		es = append(es, x.Load(st, fmt.Sprintf("%s[%d]", a.S, i), et))
	}
	return mkExpr("list", a.T, es...)
}

// Elems lists the elements of a known-length slice.
func (x *Interp) Elems(st *State, a *Val) ([]*Val, bool) {
	if a == nil {
		return nil, false
	}
	if a.IsNil() {
		return nil, true
	}
	if a.K == VSlice {
		et := a.T.Underlying().(*types.Slice).Elem()
		var es []*Val
		for i := 0; i < a.N; i++ {
			es = append(es, x.Load(st, fmt.Sprintf("%s[%d]", a.S, i), et))
		}
		return es, true
	}
	if a.K == VExpr && a.S == "list" {
		return a.Args, true
	}
	return nil, false
}

func (x *Interp) maxList() int {
	if x.Cfg.Linear {
		return max(40, x.Cfg.Lists)
	}
	return 4
}

// NewSlice allocates a slice with the given elements.
func (c *Call) NewSlice(es []*Val, t types.Type) *Val {
	tok := c.X.mintKeep(c.St, c.Instr, "list", &es, &c.Args)
	loc := "alloc" + tok
	for i, e := range es {
		c.St.mem[fmt.Sprintf("%s[%d]", loc, i)] = e
	}
	return &Val{K: VSlice, S: loc, B: loc, N: len(es), T: t, mints: true, depth: 1}
}

// mapLen is the number of entries of a fresh map with constant keys.
func (x *Interp) mapLen(st *State, m *Val) (int, bool) {
	if !x.Cfg.Linear || !x.Cfg.RangeMaps || m.T == nil {
		return 0, false
	}
	if _, ok := m.T.Underlying().(*types.Map); !ok {
		return 0, false
	}
	ks, ok := x.mapKeys(st, m)
	return len(ks), ok
}

// MapKeys lists the keys of a map made during the run, when all of them are known.
func (x *Interp) MapKeys(st *State, m *Val) ([]*Val, bool) {
	if m == nil || m.T == nil {
		return nil, false
	}
	if _, ok := m.T.Underlying().(*types.Map); !ok {
		return nil, false
	}
	return x.mapKeys(st, m)
}

// mapKeys lists the keys of a fresh map all of whose keys are integer or string constants.
func (x *Interp) mapKeys(st *State, m *Val) ([]*Val, bool) {
	mt, ok := m.T.Underlying().(*types.Map)
	if !ok || !strings.HasPrefix(m.S, "nonnil:map#") || st.mem["mapep:"+m.Key()] != nil {
		return nil, false
	}
	b, ok := mt.Key().Underlying().(*types.Basic)
	if !ok || b.Info()&(types.IsInteger|types.IsString) == 0 {
		return nil, false
	}
	pre := "map:" + m.Key() + "["
	var out []*Val
	for l := range st.mem {
		if !strings.HasPrefix(l, pre) || !strings.HasSuffix(l, "]") {
			continue
		}
		tk := token.INT
		if b.Info()&types.IsString != 0 {
			tk = token.STRING
		}
		c := constant.MakeFromLiteral(l[len(pre):len(l)-1], tk, 0)
		if c.Kind() == constant.Unknown {
			return nil, false
		}
		out = append(out, mkConst(c, mt.Key()))
	}
	sort.Slice(out, func(i, j int) bool { return constant.Compare(out[i].C, token.LSS, out[j].C) })
	return out, true
}

func mapKey(k *Val) string {
	if k.K == VAgg && ground(k) {
		return "{" + flat(k) + "}"
	}
	return k.Key()
}
