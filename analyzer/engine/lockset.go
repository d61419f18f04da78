package engine

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// LockOp classifies an instruction as a lock operation.
type LockOp struct {
	ID   string
	Kind string // Lock, Unlock, RLock, RUnlock, TryLock
}

// lockRecv identifies a mutex by the struct field (or global) it is stored in.
func (p *Prog) lockID(v ssa.Value, depth int) string {
	if depth > 8 {
		return "?"
	}
	switch v := v.(type) {
	case *ssa.FieldAddr:
		// embedded mutex: the field itself
		return p.FieldID(v.X.Type(), v.Field)
	case *ssa.Field:
		return p.FieldID(v.X.Type(), v.Field)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return p.lockID(v.X, depth+1)
		}
	case *ssa.Global:
		return p.ShortPkg(v.Pkg.Pkg.Path()) + "." + v.Name()
	case *ssa.ChangeType:
		return p.lockID(v.X, depth+1)
	case *ssa.MakeInterface:
		return p.lockID(v.X, depth+1)
	case *ssa.Alloc:
		return "local:" + v.Parent().Name() + ":" + v.Comment
	case *ssa.FreeVar:
		// resolve through the closure binding
		fn := v.Parent()
		for i, fv := range fn.FreeVars {
			if fv == v {
				if mc := p.ClosureOf(fn); mc != nil {
					return p.lockID(mc.Bindings[i], depth+1)
				}
			}
		}
	case *ssa.Parameter:
		// all callers must agree
		fn := v.Parent()
		idx := -1
		for i, pa := range fn.Params {
			if pa == v {
				idx = i
			}
		}
		id := ""
		for _, c := range p.Callers(fn) {
			args := c.Instr.Common().Args
			if idx < len(args) {
				k := p.lockID(args[idx], depth+1)
				if id == "" {
					id = k
				} else if id != k {
					return "?"
				}
			}
		}
		if id != "" {
			return id
		}
	case *ssa.Phi:
		id := ""
		for _, e := range v.Edges {
			k := p.lockID(e, depth+1)
			if id == "" {
				id = k
			} else if id != k {
				return "?"
			}
		}
		return id
	}
	return "?"
}

// FieldID names a struct field: "pkg.Type.field".
func (p *Prog) FieldID(t types.Type, i int) string {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	name := "struct"
	if n, ok := types.Unalias(t).(*types.Named); ok {
		name = n.Obj().Name()
		if n.Obj().Pkg() != nil {
			name = p.ShortPkg(n.Obj().Pkg().Path()) + "." + name
		}
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return name + ".?"
	}
	return name + "." + st.Field(i).Name()
}

// ClosureOf returns the single MakeClosure creating fn, or nil.
func (p *Prog) ClosureOf(fn *ssa.Function) *ssa.MakeClosure {
	par := fn.Parent()
	if par == nil {
		return nil
	}
	var r *ssa.MakeClosure
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				if r != nil {
					return nil
				}
				r = mc
			}
		}
	}
	return r
}

// Callers lists the resolved static call sites of fn.
func (p *Prog) Callers(fn *ssa.Function) []CallRef {
	if p.callers == nil {
		p.callers = map[*ssa.Function][]CallRef{}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						for _, t := range p.Callees(c) {
							p.callers[t] = append(p.callers[t], CallRef{f, c})
						}
					}
				}
			}
		}
	}
	return p.callers[fn]
}

// LockOpOf recognises sync.Mutex / sync.RWMutex operations (also through sync.Locker).
func (p *Prog) LockOpOf(in ssa.CallInstruction) (LockOp, bool) {
	com := in.Common()
	if com.IsInvoke() {
		if typeStr(com.Value.Type()) == "sync.Locker" {
			return LockOp{p.lockID(com.Value, 0), com.Method.Name()}, true
		}
		return LockOp{}, false
	}
	f := com.StaticCallee()
	if f == nil || f.Signature.Recv() == nil || len(com.Args) == 0 {
		return LockOp{}, false
	}
	r := typeStr(f.Signature.Recv().Type())
	if r != "*sync.Mutex" && r != "*sync.RWMutex" {
		return LockOp{}, false
	}
	switch f.Name() {
	case "Lock", "Unlock", "RLock", "RUnlock", "TryLock", "TryRLock":
		return LockOp{p.lockID(com.Args[0], 0), f.Name()}, true
	}
	return LockOp{}, false
}

type lockset map[string]bool

func (l lockset) clone() lockset {
	c := lockset{}
	for k := range l {
		c[k] = true
	}
	return c
}

func (l lockset) String() string {
	var ks []string
	for k := range l {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return "{" + strings.Join(ks, ",") + "}"
}

// LockInfo is the result of the whole-program lockset analysis.
type LockInfo struct {
	P     *Prog
	Must  map[ssa.Instruction]lockset // locks certainly held before the instruction
	May   map[ssa.Instruction]lockset
	Entry map[*ssa.Function]lockset // must-held at entry
	// per function: problems found
	Leaks   []LockIssue // lock may still be held at a return
	Doubles []LockIssue // lock may already be held when it is locked
	Extra   []LockIssue // unlock of a lock that is certainly not held
	Panics  []LockIssue // non-deferred unlock with a call in between that can panic in user code
	Ops     int
	sum     map[*ssa.Function]*lockSum
	deferU  map[*ssa.Function]lockset
}

// LockIssue is one lock discipline violation.
type LockIssue struct {
	Fn   *ssa.Function
	Pos  token.Pos
	Lock string
	Msg  string
}

type lockSum struct {
	gen, kill lockset // must-acquired at normal exit; may-released
	mayGen    lockset
	acquires  lockset // may acquire at any point, transitively
}

// callOnly reports whether every use of a function value keeps it local to synchronous calls: static callee or immediate call/defer of its closure.
func (p *Prog) callOnly(fn *ssa.Function) bool {
	if fn.Parent() != nil {
		mc := p.ClosureOf(fn)
		var refs *[]ssa.Instruction
		if mc != nil {
			refs = mc.Referrers()
		} else {
			return p.onlyStaticCalls(fn)
		}
		for _, r := range *refs {
			switch r := r.(type) {
			case *ssa.Call:
				if r.Call.Value != mc {
					return false
				}
			case *ssa.Defer:
				if r.Call.Value != mc {
					return false
				}
			case *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	return p.onlyStaticCalls(fn)
}

func (p *Prog) onlyStaticCalls(fn *ssa.Function) bool {
	p.buildTaken()
	return !p.taken[fn]
}

func (p *Prog) buildTaken() {
	if p.taken != nil {
		return
	}
	p.taken = map[*ssa.Function]bool{}
	var ops []*ssa.Value
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ops = in.Operands(ops[:0])
				for i, o := range ops {
					fv, ok := (*o).(*ssa.Function)
					if !ok {
						continue
					}
					if c, ok := in.(ssa.CallInstruction); ok && i == 0 && !c.Common().IsInvoke() && c.Common().Value == fv {
						if _, isGo := in.(*ssa.Go); !isGo {
							continue
						}
					}
					p.taken[fv] = true
				}
				if g, ok := in.(*ssa.Go); ok {
					for _, t := range p.Callees(g) {
						p.taken[t] = true
					}
				}
			}
		}
	}
}

// external reports whether fn can be entered with no lock known to be held.
func (p *Prog) externalEntry(fn *ssa.Function) bool {
	if fn.Parent() != nil {
		return !p.callOnly(fn)
	}
	if !p.onlyStaticCalls(fn) {
		return true
	}
	o := fn.Object()
	if o == nil {
		return true
	}
	if o.Exported() {
		return true
	}
	if len(p.Callers(fn)) == 0 {
		return true
	}
	return false
}

// Locks runs the analysis once.
func (p *Prog) Locks() *LockInfo {
	if p.lockInfo != nil {
		return p.lockInfo
	}
	li := &LockInfo{P: p, Must: map[ssa.Instruction]lockset{}, May: map[ssa.Instruction]lockset{}, Entry: map[*ssa.Function]lockset{}, sum: map[*ssa.Function]*lockSum{}}
	p.lockInfo = li
	for _, f := range p.Funcs {
		li.sum[f] = &lockSum{gen: lockset{}, kill: lockset{}, mayGen: lockset{}, acquires: lockset{}}
	}
	// summaries to fixpoint (entry empty)
	for changed, n := true, 0; changed && n < 20; n++ {
		changed = false
		for _, f := range p.Funcs {
			s := li.summarize(f)
			o := li.sum[f]
			if s.gen.String() != o.gen.String() || s.kill.String() != o.kill.String() || s.mayGen.String() != o.mayGen.String() || s.acquires.String() != o.acquires.String() {
				li.sum[f] = s
				changed = true
			}
		}
	}
	// entry locksets to fixpoint: start from top (nil = unknown), external functions start empty
	ext := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if p.externalEntry(f) {
			ext[f] = true
			li.Entry[f] = lockset{}
		}
	}
	for changed, n := true, 0; changed && n < 50; n++ {
		changed = false
		li.Must = map[ssa.Instruction]lockset{}
		li.May = map[ssa.Instruction]lockset{}
		next := map[*ssa.Function]lockset{}
		for _, f := range p.Funcs {
			e, ok := li.Entry[f]
			if !ok {
				continue
			}
			li.flow(f, e, func(in ssa.Instruction, must, may lockset) {
				li.Must[in] = must
				li.May[in] = may
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					return
				}
				if _, isGo := in.(*ssa.Go); isGo {
					return
				}
				if _, isDefer := in.(*ssa.Defer); isDefer {
					return // handled at RunDefers below
				}
				for _, t := range li.targets(c) {
					meet(next, t, must)
				}
			})
			// deferred calls run with the lockset at the RunDefers, after the effects of what was deferred later
			ran := map[*ssa.Function]bool{}
			dacts := li.deferred(f)
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if _, ok := in.(*ssa.RunDefers); !ok || li.Must[in] == nil {
						continue
					}
					must, may := li.Must[in].clone(), lockset{}
					for _, d := range dacts {
						if d.calls == nil {
							apply(d.op, must, may)
							continue
						}
						for _, t := range d.calls {
							ran[t] = true
							meet(next, t, must)
							li.applySum(t, must, may)
						}
					}
				}
			}
			for _, d := range dacts {
				for _, t := range d.calls {
					if !ran[t] {
						meet(next, t, lockset{})
					}
				}
			}
		}
		for f, l := range next {
			if ext[f] {
				continue
			}
			if old, ok := li.Entry[f]; !ok || old.String() != l.String() {
				li.Entry[f] = l
				changed = true
			}
		}
	}
	for _, f := range p.Funcs {
		e, ok := li.Entry[f]
		if !ok {
			e = lockset{}
		}
		li.check(f, e)
	}
	return li
}

func meet(m map[*ssa.Function]lockset, f *ssa.Function, l lockset) {
	old, ok := m[f]
	if !ok {
		m[f] = l.clone()
		return
	}
	for k := range old {
		if !l[k] {
			delete(old, k)
		}
	}
}

// targets of a call including directly called closures
func (li *LockInfo) targets(c ssa.CallInstruction) []*ssa.Function {
	var out []*ssa.Function
	for _, t := range li.P.Callees(c) {
		if li.P.inModule(t) && len(t.Blocks) > 0 {
			out = append(out, t)
		}
	}
	return out
}

// deferredAction is one deferred lock operation or call.
type deferredAction struct {
	op    LockOp
	calls []*ssa.Function
}

// deferred lists what f defers, in the order it runs.
func (li *LockInfo) deferred(f *ssa.Function) (acts []deferredAction) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok {
				continue
			}
			if op, ok := li.P.LockOpOf(d); ok {
				acts = append(acts, deferredAction{op: op})
			} else if ts := li.targets(d); len(ts) > 0 {
				acts = append(acts, deferredAction{calls: ts})
			}
		}
	}
	for i, j := 0, len(acts)-1; i < j; i, j = i+1, j-1 {
		acts[i], acts[j] = acts[j], acts[i]
	}
	return
}

func apply(op LockOp, must, may lockset) {
	switch op.Kind {
	case "Lock", "RLock":
		must[op.ID] = true
		may[op.ID] = true
	case "Unlock", "RUnlock":
		delete(must, op.ID)
		delete(may, op.ID)
	case "TryLock", "TryRLock":
		may[op.ID] = true
	}
}

// flow runs the intraprocedural analysis and calls visit before every instruction.
func (li *LockInfo) flow(f *ssa.Function, entry lockset, visit func(ssa.Instruction, lockset, lockset)) (mustExit, mayExit lockset) {
	type ls struct{ must, may lockset }
	in := map[*ssa.BasicBlock]*ls{}
	in[f.Blocks[0]] = &ls{entry.clone(), entry.clone()}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	dacts := li.deferred(f)
	transfer := func(b *ssa.BasicBlock, s *ls, visit func(ssa.Instruction, lockset, lockset)) {
		for _, i := range b.Instrs {
			if visit != nil {
				visit(i, s.must.clone(), s.may.clone())
			}
			switch c := i.(type) {
			case *ssa.Defer, *ssa.Go:
			case *ssa.RunDefers:
				for _, d := range dacts {
					if d.calls == nil {
						apply(d.op, s.must, s.may)
						continue
					}
					for _, t := range d.calls {
						li.applySum(t, s.must, s.may)
					}
				}
			case ssa.CallInstruction:
				if op, ok := li.P.LockOpOf(c); ok {
					apply(op, s.must, s.may)
				} else {
					ts := li.targets(c)
					if len(ts) == 1 {
						li.applySum(ts[0], s.must, s.may)
					} else {
						for _, t := range ts {
							sm := li.sum[t]
							if sm == nil {
								continue
							}
							for k := range sm.kill {
								delete(s.must, k)
							}
							for k := range sm.mayGen {
								s.may[k] = true
							}
						}
					}
				}
			}
		}
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		s := &ls{in[b].must.clone(), in[b].may.clone()}
		transfer(b, s, nil)
		for _, nb := range b.Succs {
			o := in[nb]
			if o == nil {
				in[nb] = &ls{s.must.clone(), s.may.clone()}
				work = append(work, nb)
				continue
			}
			ch := false
			for k := range o.must {
				if !s.must[k] {
					delete(o.must, k)
					ch = true
				}
			}
			for k := range s.may {
				if !o.may[k] {
					o.may[k] = true
					ch = true
				}
			}
			if ch {
				work = append(work, nb)
			}
		}
	}
	first := true
	mustExit, mayExit = lockset{}, lockset{}
	for _, b := range f.Blocks {
		s := in[b]
		if s == nil {
			continue
		}
		t := &ls{s.must.clone(), s.may.clone()}
		transfer(b, t, visit)
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				for k := range t.may {
					mayExit[k] = true
				}
				if first {
					for k := range t.must {
						mustExit[k] = true
					}
					first = false
				} else {
					for k := range mustExit {
						if !t.must[k] {
							delete(mustExit, k)
						}
					}
				}
			}
		}
	}
	return
}

func (li *LockInfo) applySum(t *ssa.Function, must, may lockset) {
	sm := li.sum[t]
	if sm == nil {
		return
	}
	for k := range sm.kill {
		delete(must, k)
		if !sm.mayGen[k] {
			delete(may, k)
		}
	}
	for k := range sm.gen {
		must[k] = true
	}
	for k := range sm.mayGen {
		may[k] = true
	}
}

func (li *LockInfo) summarize(f *ssa.Function) *lockSum {
	s := &lockSum{kill: lockset{}, acquires: lockset{}}
	must, may := li.flow(f, lockset{}, func(in ssa.Instruction, m, y lockset) {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		if _, isGo := in.(*ssa.Go); isGo {
			return
		}
		if op, ok := li.P.LockOpOf(c); ok {
			if strings.HasSuffix(op.Kind, "Unlock") {
				if !y[op.ID] {
					if _, isDef := in.(*ssa.Defer); !isDef {
						s.kill[op.ID] = true
					}
				}
			} else {
				s.acquires[op.ID] = true
			}
			return
		}
		foreign := foreignInvoke(c)
		for _, t := range li.targets(c) {
			if sm := li.sum[t]; sm != nil {
				for k := range sm.acquires {
					if !foreign {
						s.acquires[k] = true
					}
				}
				for k := range sm.kill {
					if !y[k] {
						if _, isDef := in.(*ssa.Defer); !isDef {
							s.kill[k] = true
						}
					}
				}
			}
		}
	})
	s.gen, s.mayGen = must, may
	return s
}

// Acquires lists the locks fn may take, transitively.
func (li *LockInfo) Acquires(fn *ssa.Function) map[string]bool {
	if s := li.sum[fn]; s != nil {
		return s.acquires
	}
	return nil
}

func (li *LockInfo) check(f *ssa.Function, entry lockset) {
	_, mayExit := li.flow(f, entry, func(in ssa.Instruction, must, may lockset) {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		if _, isGo := in.(*ssa.Go); isGo {
			return
		}
		if op, ok := li.P.LockOpOf(c); ok {
			li.Ops++
			if _, isDef := in.(*ssa.Defer); isDef {
				return
			}
			if (op.Kind == "Lock" || op.Kind == "RLock") && may[op.ID] {
				li.Doubles = append(li.Doubles, LockIssue{f, in.Pos(), op.ID, "locked while it may already be held by the same goroutine"})
			}
			if strings.HasSuffix(op.Kind, "Unlock") && !may[op.ID] && !li.isUnlockHelper(f, op.ID) {
				li.Extra = append(li.Extra, LockIssue{f, in.Pos(), op.ID, "unlocked while not held"})
			}
			return
		}
		if _, isDef := in.(*ssa.Defer); isDef {
			return
		}
		if foreignInvoke(c) {
			return
		}
		for _, t := range li.targets(c) {
			if sm := li.sum[t]; sm != nil {
				for k := range sm.acquires {
					if may[k] && !sm.kill[k] {
						li.Doubles = append(li.Doubles, LockIssue{f, in.Pos(), k, "call to " + li.P.CalleeName(t) + ", which takes the lock, while it may already be held"})
					}
				}
			}
		}
	})
	for k := range mayExit {
		if !entry[k] && !li.isLockHelper(f, k) {
			li.Leaks = append(li.Leaks, LockIssue{f, f.Pos(), k, "may still be held when the function returns"})
		}
	}
}

// a lock helper acquires on every path and is only called statically; its callers are checked instead
func (li *LockInfo) isLockHelper(f *ssa.Function, k string) bool {
	return li.sum[f].gen[k] && !li.P.externalEntry(f)
}

func (li *LockInfo) isUnlockHelper(f *ssa.Function, k string) bool {
	return li.sum[f].kill[k] && !li.P.externalEntry(f)
}

// Access is one read or write of a struct field.
type Access struct {
	Fn    *ssa.Function
	In    ssa.Instruction
	Field string
	Write bool
	Fresh bool // the object is a local allocation of the same function
}

// Accesses lists all reads and writes of the given field (by FieldID), including through derived addresses.
func (p *Prog) Accesses(field string) []Access {
	if p.accCache == nil {
		p.accCache = map[string][]Access{}
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch fa := in.(type) {
					case *ssa.FieldAddr:
						id := p.FieldID(fa.X.Type(), fa.Field)
						fresh := isFresh(fa.X, map[ssa.Value]bool{})
						p.addrUses(f, fa, id, fresh, map[ssa.Value]bool{})
					case *ssa.Field:
						id := p.FieldID(fa.X.Type(), fa.Field)
						p.accCache[id] = append(p.accCache[id], Access{f, in, id, false, true})
					}
				}
			}
		}
	}
	return p.accCache[field]
}

func isFresh(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return isFresh(v.X, seen)
	case *ssa.IndexAddr:
		return isFresh(v.X, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !isFresh(e, seen) {
				return false
			}
		}
		return true
	}
	return false
}

func (p *Prog) addrUses(f *ssa.Function, a ssa.Value, id string, fresh bool, seen map[ssa.Value]bool) {
	if seen[a] {
		return
	}
	seen[a] = true
	refs := a.Referrers()
	if refs == nil {
		return
	}
	add := func(in ssa.Instruction, w bool) {
		p.accCache[id] = append(p.accCache[id], Access{in.Parent(), in, id, w, fresh})
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.UnOp:
			add(r, false)
		case *ssa.Store:
			if r.Addr == a {
				add(r, true)
			} else {
				add(r, true) // the address escapes
			}
		case *ssa.FieldAddr:
			p.addrUses(f, r, id, fresh, seen)
		case *ssa.IndexAddr:
			p.addrUses(f, r, id, fresh, seen)
		case *ssa.DebugRef:
		case ssa.CallInstruction:
			add(r, true)
		case *ssa.MakeClosure, *ssa.MakeInterface, *ssa.Phi, *ssa.Slice:
			add(r.(ssa.Instruction), true)
		}
	}
}

// foreignInvoke: a call through an interface of another module; which object is behind it is up to the user.
func foreignInvoke(c ssa.CallInstruction) bool {
	com := c.Common()
	if !com.IsInvoke() {
		return false
	}
	n, ok := com.Value.Type().(*types.Named)
	return !ok || n.Obj().Pkg() == nil || !strings.Contains(n.Obj().Pkg().Path(), "ginkgo")
}
