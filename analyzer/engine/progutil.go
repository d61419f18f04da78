package engine

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (p *Prog) inModule(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg != nil {
		return p.Pkgs[f.Pkg.Pkg.Path()] != nil
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return p.Pkgs[o.Pkg().Path()] != nil
	}
	return false
}

// inAux reports whether fn belongs to a standard package that was loaded from source.
func (p *Prog) inAux(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg != nil {
		return p.aux[f.Pkg.Pkg.Path()]
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return p.aux[o.Pkg().Path()]
	}
	return false
}

// InModule reports whether fn belongs to the repository.
func (p *Prog) InModule(fn *ssa.Function) bool { return p.inModule(fn) }

var purePkgs = map[string]bool{"strings": true, "strconv": true, "path": true, "unicode": true, "unicode/utf8": true, "errors": true, "math": true, "html": true, "bytes": true, "slices": true, "maps": true, "cmp": true, "regexp": true, "reflect": true, "go/token": true}

func (p *Prog) pureExternal(fn *ssa.Function) bool {
	if fn == nil || p.inModule(fn) {
		return false
	}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	var path string
	if o.Pkg != nil {
		path = o.Pkg.Pkg.Path()
	} else if ob := o.Object(); ob != nil && ob.Pkg() != nil {
		path = ob.Pkg().Path()
	}
	name := o.Name()
	recv := ""
	if r := o.Signature.Recv(); r != nil {
		recv = typeStr(r.Type())
	}
	switch path {
	case "fmt":
		return strings.HasPrefix(name, "Sprint") || name == "Errorf"
	case "path/filepath":
		return name == "Join" || name == "Base" || name == "Dir" || name == "Ext" || name == "Clean" || name == "Split" || name == "Match" || name == "IsAbs" || name == "Rel"
	case "time":
		return name != "Now" && name != "Since" && name != "Until" && name != "After" && name != "Sleep" && name != "NewTimer" && name != "NewTicker" && name != "Tick" && name != "AfterFunc" && !strings.HasPrefix(recv, "*")
	case "strings", "bytes":
		return recv == "" && !strings.HasPrefix(name, "New")
	case "reflect":
		return name != "Call" && !strings.HasPrefix(name, "Set")
	}
	return purePkgs[path]
}

// liveness ------------------------------------------------------------

type liveInfo struct {
	in  map[*ssa.BasicBlock]map[ssa.Value]bool
	out map[*ssa.BasicBlock]map[ssa.Value]bool
	at  map[*ssa.BasicBlock]map[int]map[ssa.Value]bool
}

func isLocal(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, *ssa.FreeVar, nil:
		return false
	}
	return true
}

func (p *Prog) liveness(fn *ssa.Function) *liveInfo {
	if p.liveCache == nil {
		p.liveCache = map[*ssa.Function]*liveInfo{}
	}
	if l, ok := p.liveCache[fn]; ok {
		return l
	}
	l := &liveInfo{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}, out: map[*ssa.BasicBlock]map[ssa.Value]bool{}, at: map[*ssa.BasicBlock]map[int]map[ssa.Value]bool{}}
	for _, b := range fn.Blocks {
		l.in[b] = map[ssa.Value]bool{}
		l.out[b] = map[ssa.Value]bool{}
	}
	var ops []*ssa.Value
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := l.out[b]
			for _, s := range b.Succs {
				for v := range l.in[s] {
					out[v] = true
				}
				ei := -1
				for j, pr := range s.Preds {
					if pr == b {
						ei = j
					}
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					// all edges from b
					for j, pr := range s.Preds {
						if pr == b && isLocal(phi.Edges[j]) {
							out[phi.Edges[j]] = true
						}
					}
				}
				_ = ei
			}
			cur := map[ssa.Value]bool{}
			for v := range out {
				cur[v] = true
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				ops = in.Operands(ops[:0])
				for _, o := range ops {
					if *o != nil && isLocal(*o) {
						cur[*o] = true
					}
				}
			}
			// phis of b are defined at entry: not live-in from preds, but kept separately
			if len(cur) != len(l.in[b]) {
				l.in[b] = cur
				changed = true
			}
		}
	}
	p.liveCache[fn] = l
	return l
}

// liveIn lists the values live at the start of b's non-phi code (phis of b included when used).
func (p *Prog) liveIn(b *ssa.BasicBlock) map[ssa.Value]bool {
	n := 0
	for n < len(b.Instrs) {
		if _, ok := b.Instrs[n].(*ssa.Phi); !ok {
			break
		}
		n++
	}
	return p.liveAt(b, n)
}

func (p *Prog) liveAt(b *ssa.BasicBlock, idx int) map[ssa.Value]bool {
	l := p.liveness(b.Parent())
	if m, ok := l.at[b][idx]; ok {
		return m
	}
	cur := map[ssa.Value]bool{}
	for v := range l.out[b] {
		cur[v] = true
	}
	var ops []*ssa.Value
	for j := len(b.Instrs) - 1; j >= idx && j >= 0; j-- {
		in := b.Instrs[j]
		if v, ok := in.(ssa.Value); ok {
			delete(cur, v)
		}
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		ops = in.Operands(ops[:0])
		for _, o := range ops {
			if *o != nil && isLocal(*o) {
				cur[*o] = true
			}
		}
	}
	if b.Parent().Recover != nil {
		// the recover block may read result cells: they are allocs defined in the entry block
		for _, in := range b.Parent().Recover.Instrs {
			ops = in.Operands(ops[:0])
			for _, o := range ops {
				if *o != nil && isLocal(*o) {
					if _, self := (*o).(ssa.Instruction); self && (*o).(ssa.Instruction).Block() == b.Parent().Recover {
						continue
					}
					cur[*o] = true
				}
			}
		}
	}
	if l.at[b] == nil {
		l.at[b] = map[int]map[ssa.Value]bool{}
	}
	l.at[b][idx] = cur
	return cur
}

// mod sets -------------------------------------------------------------

// Mods is the set of ".field" suffixes a repository function may store to, transitively over resolved callees and closures.
func (p *Prog) Mods(fn *ssa.Function) map[string]bool {
	if p.modsCache == nil {
		p.modsCache = map[*ssa.Function]map[string]bool{}
	}
	if m, ok := p.modsCache[fn]; ok {
		return m
	}
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
						out["."+fieldName(fa.X.Type(), fa.Field)] = true
					}
				case *ssa.MakeClosure:
					visit(in.Fn.(*ssa.Function))
				case ssa.CallInstruction:
					for _, t := range p.Callees(in) {
						if p.inModule(t) {
							visit(t)
						}
					}
				}
			}
		}
	}
	visit(fn)
	p.modsCache[fn] = out
	return out
}

// Callees resolves a call: static callee, or every implementation in the module for an interface method.
func (p *Prog) Callees(in ssa.CallInstruction) []*ssa.Function {
	com := in.Common()
	if f := com.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if com.IsInvoke() {
		return p.Implementations(com.Method)
	}
	return nil
}

// Implementations of an interface method among the module's concrete types.
func (p *Prog) Implementations(m *types.Func) []*ssa.Function {
	if p.impls == nil {
		p.impls = map[*types.Func][]*ssa.Function{}
	}
	if r, ok := p.impls[m]; ok {
		return r
	}
	var out []*ssa.Function
	recv := m.Type().(*types.Signature).Recv()
	var iface *types.Interface
	if recv != nil {
		iface, _ = recv.Type().Underlying().(*types.Interface)
	}
	if iface != nil {
		for _, pk := range p.Order {
			sc := pk.Types.Scope()
			for _, n := range sc.Names() {
				tn, ok := sc.Lookup(n).(*types.TypeName)
				if !ok || types.IsInterface(tn.Type()) {
					continue
				}
				if nt, ok := tn.Type().(*types.Named); !ok || nt.TypeParams().Len() > 0 {
					continue
				}
				for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
					if types.Implements(t, iface) {
						if f := p.SSA.LookupMethod(t, m.Pkg(), m.Name()); f != nil {
							out = append(out, f)
						}
						break
					}
				}
			}
		}
	}
	p.impls[m] = out
	return out
}

// Func finds a function by canonical name, e.g. "(*internal.Suite).runNode" or "internal.OrderSpecs".
func (p *Prog) Func(name string) *ssa.Function {
	if p.byName == nil {
		p.byName = map[string]*ssa.Function{}
		for _, f := range p.Funcs {
			p.byName[p.CalleeName(f)] = f
		}
	}
	return p.byName[name]
}

// loopCounter reports whether an integer phi sits at a loop header and is changed by the loop.
func (p *Prog) loopCounter(phi *ssa.Phi) bool {
	b := phi.Block()
	for i, pr := range b.Preds {
		if b.Dominates(pr) {
			if e := phi.Edges[i]; e != phi {
				if _, isC := e.(*ssa.Const); !isC {
					return true
				}
			}
		}
	}
	return false
}

// loopDown reports whether the counter is decreased by the loop.
func (p *Prog) loopDown(phi *ssa.Phi) bool {
	b := phi.Block()
	for i, pr := range b.Preds {
		if b.Dominates(pr) {
			if e, ok := phi.Edges[i].(*ssa.BinOp); ok {
				if k, isC := e.Y.(*ssa.Const); isC && k.Value != nil && k.Value.Kind() == constant.Int {
					n, _ := constant.Int64Val(k.Value)
					if (e.Op == token.SUB && n > 0) || (e.Op == token.ADD && n < 0) {
						return true
					}
				}
			}
		}
	}
	return false
}

// GlobalConst is the value of a package variable that is only ever written by its initializer, a constant or a new error.
func (p *Prog) GlobalConst(g *ssa.Global) *Val {
	if p.globals == nil {
		p.globals = map[*ssa.Global]*Val{}
		bad := map[*ssa.Global]bool{}
		scan := func(f *ssa.Function) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						gl, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						switch i := in.(type) {
						case *ssa.UnOp:
							continue
						case *ssa.Store:
							if k, isC := i.Val.(*ssa.Const); isC && i.Addr == gl && k.Value != nil && f.Synthetic != "" && f.Name() == "init" && p.globals[gl] == nil {
								p.globals[gl] = mkConst(k.Value, k.Type())
								continue
							}
							if call, isC := i.Val.(*ssa.Call); isC && i.Addr == gl && f.Synthetic != "" && f.Name() == "init" && p.globals[gl] == nil {
								if cal := call.Call.StaticCallee(); cal != nil && (cal.String() == "errors.New" || cal.String() == "fmt.Errorf") {
									p.globals[gl] = Sym("nonnil:errvar:"+gl.Pkg.Pkg.Name()+"::"+gl.Name(), i.Val.Type())
									continue
								}
							}
						case *ssa.DebugRef:
							continue
						}
						bad[gl] = true
					}
				}
			}
		}
		seen := map[*ssa.Function]bool{}
		for _, f := range p.Funcs {
			seen[f] = true
			scan(f)
		}
		for _, pk := range p.SSA.AllPackages() {
			if f := pk.Func("init"); f != nil && !seen[f] && p.inModule(f) {
				scan(f)
			}
		}
		for gl := range bad {
			delete(p.globals, gl)
		}
	}
	return p.globals[g]
}

// GlobalSlice lists the elements of a package variable that is only ever set to a literal slice of constants.
func (p *Prog) GlobalSlice(g *ssa.Global) (es []*Val, id int) {
	if p.slices == nil {
		p.slices = map[*ssa.Global][]*Val{}
		p.sliceID = map[*ssa.Global]int{}
		bad := map[*ssa.Global]bool{}
		scan := func(f *ssa.Function) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						gl, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						switch i := in.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
							continue
						case *ssa.Store:
							if es := literalSlice(i.Val); es != nil && i.Addr == gl && f.Synthetic != "" && f.Name() == "init" && p.slices[gl] == nil {
								p.slices[gl] = es
								p.sliceID[gl] = len(p.sliceID)
								continue
							}
						}
						bad[gl] = true
					}
				}
			}
		}
		seen := map[*ssa.Function]bool{}
		for _, f := range p.Funcs {
			seen[f] = true
			scan(f)
		}
		for _, pk := range p.SSA.AllPackages() {
			if f := pk.Func("init"); f != nil && !seen[f] && p.inModule(f) {
				scan(f)
			}
		}
		for gl := range bad {
			delete(p.slices, gl)
		}
	}
	return p.slices[g], p.sliceID[g]
}

// literalSlice is the elements of v when it is a slice literal of constants.
func literalSlice(v ssa.Value) []*Val {
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil || sl.Max != nil {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok || at.Len() > 64 {
		return nil
	}
	es := make([]*Val, at.Len())
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.Slice, *ssa.DebugRef:
		case *ssa.IndexAddr:
			k, ok := r.Index.(*ssa.Const)
			if !ok {
				return nil
			}
			if st, isS := at.Elem().Underlying().(*types.Struct); isS {
				e := literalStruct(r, st, at.Elem())
				i, _ := constant.Int64Val(k.Value)
				if e == nil || i < 0 || i >= at.Len() || es[i] != nil {
					return nil
				}
				es[i] = e
				continue
			}
			if len(*r.Referrers()) != 1 {
				return nil
			}
			stv, ok := (*r.Referrers())[0].(*ssa.Store)
			if !ok || stv.Addr != r {
				return nil
			}
			e, ok := stv.Val.(*ssa.Const)
			if !ok || e.Value == nil {
				return nil
			}
			i, _ := constant.Int64Val(k.Value)
			if i < 0 || i >= at.Len() {
				return nil
			}
			es[i] = mkConst(e.Value, e.Type())
		default:
			return nil
		}
	}
	for i := range es {
		if es[i] == nil {
			es[i] = zeroVal(at.Elem())
		}
	}
	return es
}

// literalStruct is the struct of constants stored field by field at an address.
func literalStruct(at ssa.Value, st *types.Struct, t types.Type) *Val {
	f := map[string]*Val{}
	for _, r := range *at.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			if len(*r.Referrers()) != 1 {
				return nil
			}
			s, ok := (*r.Referrers())[0].(*ssa.Store)
			if !ok || s.Addr != r {
				return nil
			}
			e, ok := s.Val.(*ssa.Const)
			if !ok || f[st.Field(r.Field).Name()] != nil {
				return nil
			}
			f[st.Field(r.Field).Name()] = Nil(e.Type())
			if e.Value != nil {
				f[st.Field(r.Field).Name()] = mkConst(e.Value, e.Type())
			}
		default:
			return nil
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if f[st.Field(i).Name()] == nil {
			f[st.Field(i).Name()] = Nil(st.Field(i).Type())
		}
	}
	return mkAgg(Nil(t), f, t)
}

// LoopDown reports whether phi is a loop counter that decreases.
func (p *Prog) LoopDown(phi *ssa.Phi) bool { return p.loopDown(phi) }

// ErrorType is the predeclared error type.
func (p *Prog) ErrorType() types.Type { return types.Universe.Lookup("error").Type() }

// FieldOf projects a struct value.
func (x *Interp) FieldOf(st *State, v *Val, name string) *Val {
	ft := fieldType(v.T, name)
	if ft == nil {
		return nil
	}
	return Field(v, name, ft)
}

// Reach lists the module functions reachable from fn over resolved calls (static, and all implementations of an
// interface method), closures made and functions referred to, in a deterministic order. stop cuts the walk.
func (p *Prog) Reach(fn *ssa.Function, stop func(*ssa.Function) bool) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || (stop != nil && stop(f)) {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					visit(mc.Fn.(*ssa.Function))
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, t := range p.Callees(ci) {
						if p.inModule(t) {
							visit(t)
						}
					}
				}
				for _, o := range in.Operands(nil) {
					if g, ok := (*o).(*ssa.Function); ok && p.inModule(g) {
						visit(g)
					}
				}
			}
		}
	}
	visit(fn)
	return out
}

// FieldStores lists the direct stores to a field (FieldID) in the given functions.
func (p *Prog) FieldStores(fns []*ssa.Function, id string) []*ssa.Store {
	var out []*ssa.Store
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && p.FieldID(fa.X.Type(), fa.Field) == id {
						out = append(out, s)
					}
				}
			}
		}
	}
	return out
}
