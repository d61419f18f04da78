package engine

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// ExitKind says how an analysed function is left.
type ExitKind string

const (
	ExitReturn ExitKind = "return"
	ExitPanic  ExitKind = "panic"
	ExitGoexit ExitKind = "goexit"
	ExitOS     ExitKind = "process-exit"
	ExitStop   ExitKind = "stopped"
)

// Outcome of a hooked call.
type Outcome struct {
	St   *State
	Ret  *Val // nil: minted by the engine
	Kind ExitKind
}

// Call describes a call, go or defer target at analysis time.
type Call struct {
	X     *Interp
	St    *State
	Instr ssa.Instruction
	Com   *ssa.CallCommon
	Fn    *ssa.Function // resolved callee or nil
	Bind  []*Val        // closure bindings
	FnVal *Val          // function value for dynamic calls
	Name  string        // canonical callee name: package-qualified function, "invoke <iface>.<method>" or "dyn <value>"
	Args  []*Val
	Recv  *Val // interface receiver for invoke
	T     types.Type
	Go    bool
}

// Pos is the position of the call.
func (c *Call) Pos() token.Pos { return c.Instr.Pos() }

// Return makes a single normal outcome.
func (c *Call) Return(v *Val) []Outcome { return []Outcome{{St: c.St, Ret: v, Kind: ExitReturn}} }

// Cfg configures one property simulation.
type Cfg struct {
	Root        *ssa.Function
	Args        []*Val
	Bind        []*Val
	Init        func(*State)
	OnCall      func(*Call) ([]Outcome, bool)
	OnGo        func(*Call)
	OnStore     func(x *Interp, st *State, in ssa.Instruction, loc string, old, v *Val)
	StoreAs     func(x *Interp, st *State, loc string, v *Val) (string, *Val) // coarsens what is stored
	OnSend      func(x *Interp, st *State, in ssa.Instruction, ch, v *Val)
	OnSelect    func(x *Interp, st *State, in *ssa.Select, idx int, ch *Val)
	OnWait      func(x *Interp, st *State, in *ssa.Select, chs []*Val) // all channels of a select, before any case is taken
	OnRecv      func(x *Interp, st *State, in ssa.Instruction, ch *Val)
	OnClose     func(x *Interp, st *State, in ssa.Instruction, ch *Val)
	RecvVal     func(x *Interp, st *State, in ssa.Instruction, ch *Val) *Val // the value received, nil: unknown
	OnMap       func(x *Interp, st *State, in *ssa.MapUpdate, m, k, v *Val)
	OnBranch    func(x *Interp, st *State, in *ssa.If, cond *Val, taken bool)
	OnReturn    func(x *Interp, st *State, fn *ssa.Function, ret *Val)
	Opaque      func(*ssa.Function) bool
	Track       func(loc string) bool // nil: every location is tracked
	TrackFact   func(*Val) bool
	KeepFact    func(key string) bool
	MaxDepth    int
	Budget      int
	Concrete    func(*ssa.Phi) bool // loop counters to keep concrete (while below 12)
	Linear      bool                // paths never meet again: do not look for states seen before
	Recovered   *Val                // what recover() returns in the root itself (a deferred function analysed on its own)
	Lists       int                 // (with Linear) longest list built by append that is tracked element by element (at least 40)
	OneMapOrder bool                // (with RangeMaps) only one iteration order
	RangeMaps   bool                // (with Linear) iterate over fresh maps with constant keys, both forwards and backwards
	IntraOnly   bool                // do not inline anything except closures of the root
}

// Trace is a path prefix, for reports.
type Trace struct {
	Prev *Trace
	Msg  string
	N    int
}

// Exit is one way the root function is left.
type Exit struct {
	Kind ExitKind
	St   *State
	Ret  *Val
	Pos  token.Pos
}

// Interp runs one property simulation.
type Interp struct {
	P        *Prog
	Cfg      Cfg
	Exits    []*Exit
	Steps    int
	NStates  int
	Undec    []string // reasons why the analysis is incomplete
	visited  map[string]bool
	work     []*State
	mintIDs  map[string]int
	serial   int
	exitSeen map[string]bool
	Inlined  map[*ssa.Function]bool
	Calls    map[string]int // distinct call sites seen, by canonical callee
	callSeen map[string]bool
}

type deferRec struct {
	in   *ssa.Defer
	fn   *Val // callee value (VFunc) or nil
	recv *Val
	args []*Val
}

type frame struct {
	fn         *ssa.Function
	ctx        string
	block      *ssa.BasicBlock
	idx        int
	env        map[ssa.Value]*Val
	bind       []*Val
	defers     []deferRec
	call       ssa.Instruction // instruction in the caller
	deferred   bool            // this frame runs a deferred call
	runDef     bool            // this frame is running its defers normally
	unwind     ExitKind        // "" or panic/goexit: unwinding
	panicVal   *Val
	recov      bool
	recovering bool
}

func (f *frame) clone() *frame {
	c := *f
	c.env = make(map[ssa.Value]*Val, len(f.env))
	for k, v := range f.env {
		c.env[k] = v
	}
	c.defers = append([]deferRec{}, f.defers...)
	return &c
}

// State is one abstract state.
type State struct {
	frames []*frame
	mem    map[string]*Val
	facts  map[string]Dom
	epoch  map[string]string
	Auto   map[string]string
	Vals   map[string]*Val // values the rule holds on to
	trace  *Trace
	stop   bool
	gcAt   int
}

func (st *State) clone() *State {
	c := &State{mem: make(map[string]*Val, len(st.mem)), facts: make(map[string]Dom, len(st.facts)), epoch: make(map[string]string, len(st.epoch)),
		Auto: make(map[string]string, len(st.Auto)), Vals: make(map[string]*Val, len(st.Vals)), trace: st.trace, stop: st.stop, gcAt: st.gcAt}
	for k, v := range st.mem {
		c.mem[k] = v
	}
	for k, v := range st.facts {
		c.facts[k] = v
	}
	for k, v := range st.epoch {
		c.epoch[k] = v
	}
	for k, v := range st.Auto {
		c.Auto[k] = v
	}
	for k, v := range st.Vals {
		c.Vals[k] = v
	}
	c.frames = make([]*frame, len(st.frames))
	for i, f := range st.frames {
		c.frames[i] = f.clone()
	}
	return c
}

// Clone copies the state (for hooks that fork).
func (st *State) Clone() *State { return st.clone() }

// Stop ends the path after the current hook.
func (st *State) Stop() { st.stop = true }

// Note adds a message to the path trace.
func (st *State) Note(format string, a ...any) {
	n := 0
	if st.trace != nil {
		n = st.trace.N
	}
	st.trace = &Trace{st.trace, fmt.Sprintf(format, a...), n + 1}
}

// Path renders the trace, oldest first, at most n entries.
func (st *State) Path(n int) []string {
	var out []string
	for t := st.trace; t != nil; t = t.Prev {
		out = append(out, t.Msg)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	if len(out) > n {
		out = append([]string{fmt.Sprintf("... (%d earlier)", len(out)-n)}, out[len(out)-n:]...)
	}
	return out
}

// Depth is the number of frames.
func (st *State) Depth() int { return len(st.frames) }

// InFn reports whether fn is on the call stack.
func (st *State) InFn(fn *ssa.Function) bool {
	for _, f := range st.frames {
		if f.fn == fn {
			return true
		}
	}
	return false
}

// Stack renders the call stack's function names.
func (st *State) Stack() []string {
	var out []string
	for _, f := range st.frames {
		out = append(out, f.fn.RelString(nil))
	}
	return out
}

func (st *State) top() *frame { return st.frames[len(st.frames)-1] }

// New prepares a simulation.
func New(p *Prog, cfg Cfg) *Interp {
	if cfg.MaxDepth == 0 {
		cfg.MaxDepth = 24
	}
	if cfg.Budget == 0 {
		cfg.Budget = 400000
	}
	return &Interp{P: p, Cfg: cfg, visited: map[string]bool{}, mintIDs: map[string]int{}, exitSeen: map[string]bool{}, Inlined: map[*ssa.Function]bool{}, Calls: map[string]int{}, callSeen: map[string]bool{}}
}

// ParamSym is the symbol standing for a parameter of the root.
func ParamSym(p *ssa.Parameter) *Val { return Sym(p.Name(), p.Type()) }

// Run explores all paths.
func (x *Interp) Run() {
	fn := x.Cfg.Root
	st := &State{mem: map[string]*Val{}, facts: map[string]Dom{}, epoch: map[string]string{}, Auto: map[string]string{}, Vals: map[string]*Val{}}
	f := &frame{fn: fn, ctx: "", env: map[ssa.Value]*Val{}}
	for i, p := range fn.Params {
		if i < len(x.Cfg.Args) && x.Cfg.Args[i] != nil {
			f.env[p] = x.Cfg.Args[i]
		} else {
			f.env[p] = ParamSym(p)
		}
	}
	f.bind = x.Cfg.Bind
	for i := len(f.bind); i < len(fn.FreeVars); i++ {
		fv := fn.FreeVars[i]
		if _, ok := fv.Type().Underlying().(*types.Pointer); ok {
			f.bind = append(f.bind, mkPtr("free:"+fv.Name(), "", fv.Type()))
		} else {
			f.bind = append(f.bind, Sym("free:"+fv.Name(), fv.Type()))
		}
	}
	if len(fn.Blocks) == 0 {
		x.undecided("function %s has no body", fn)
		return
	}
	st.frames = []*frame{f}
	if x.Cfg.Init != nil {
		x.Cfg.Init(st)
	}
	x.Inlined[fn] = true
	x.enterBlock(st, fn.Blocks[0], nil)
	for len(x.work) > 0 {
		s := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.NStates++
		if why, _ := Halt.Load().(string); why != "" {
			x.undecided("%s", why)
			return
		}
		if x.NStates > x.Cfg.Budget {
			x.undecided("state budget %d exhausted", x.Cfg.Budget)
			return
		}
		x.step(s)
	}
}

// Halt is set to a reason when every analysis has to end where it is.
var Halt atomic.Value

func (x *Interp) undecided(format string, a ...any) {
	m := fmt.Sprintf(format, a...)
	for _, u := range x.Undec {
		if u == m {
			return
		}
	}
	x.Undec = append(x.Undec, m)
}

func (x *Interp) mintID(key string) int {
	id, ok := x.mintIDs[key]
	if !ok {
		id = len(x.mintIDs) + 1
		x.mintIDs[key] = id
	}
	return id
}

func instrKey(in ssa.Instruction) string {
	b := in.Block()
	if b == nil {
		return "?"
	}
	for i, o := range b.Instrs {
		if o == in {
			return fmt.Sprintf("%p:%d:%d", b.Parent(), b.Index, i)
		}
	}
	return fmt.Sprintf("%p:%d:?", b.Parent(), b.Index)
}

// ContinueTokens makes the tokens of a linear run different from those of another one.
func (x *Interp) ContinueTokens(o *Interp) {
	if o.serial > x.serial {
		x.serial = o.serial
	}
}

// Mint makes a fresh symbol for an instruction in the current context; an older live instance is renamed.
func (x *Interp) Mint(st *State, in ssa.Instruction, desc string, t types.Type) *Val {
	tok := x.mintTok(st, in, desc)
	return Sym(desc+tok, t)
}

func (x *Interp) mintTok(st *State, in ssa.Instruction, desc string) string {
	if x.Cfg.Linear {
		x.serial++
		return fmt.Sprintf("#%d;", x.serial)
	}
	id := x.mintID(st.top().ctx + "|" + instrKey(in) + "|" + desc)
	tok := fmt.Sprintf("#%d;", id)
	x.rename(st, tok)
	return tok
}

// mintKeep mints a token; the given values, held by the caller, are renamed along with the state.
func (x *Interp) mintKeep(st *State, in ssa.Instruction, desc string, vs ...*[]*Val) string {
	for i, l := range vs {
		for j, v := range *l {
			if v != nil {
				st.Vals[fmt.Sprintf("~%d.%d", i, j)] = v
			}
		}
	}
	tok := x.mintTok(st, in, desc)
	for i, l := range vs {
		nl := make([]*Val, len(*l))
		for j, v := range *l {
			if v != nil {
				k := fmt.Sprintf("~%d.%d", i, j)
				nl[j] = st.Vals[k]
				delete(st.Vals, k)
			}
		}
		*l = nl
	}
	return tok
}

func (x *Interp) rename(st *State, tok string) {
	one := strings.TrimSuffix(tok, ";") + "~;"
	two := strings.TrimSuffix(tok, ";") + "~~;"
	if !st.mentions(tok) {
		return
	}
	f := func(s string) string {
		if strings.Contains(s, one) {
			s = strings.ReplaceAll(s, one, two)
		}
		if strings.Contains(s, tok) {
			s = strings.ReplaceAll(s, tok, one)
		}
		return s
	}
	memo := map[*Val]*Val{}
	for _, fr := range st.frames {
		for k, v := range fr.env {
			fr.env[k] = v.subst(f, memo)
		}
		for i, b := range fr.bind {
			nb := b.subst(f, memo)
			if nb != b {
				fr.bind = append([]*Val{}, fr.bind...)
				fr.bind[i] = nb
			}
		}
		for i := range fr.defers {
			d := &fr.defers[i]
			d.fn = d.fn.subst(f, memo)
			d.recv = d.recv.subst(f, memo)
			na := make([]*Val, len(d.args))
			for j, a := range d.args {
				na[j] = a.subst(f, memo)
			}
			d.args = na
		}
		fr.panicVal = fr.panicVal.subst(f, memo)
	}
	for k, v := range st.Vals {
		st.Vals[k] = v.subst(f, memo)
	}
	nm := make(map[string]*Val, len(st.mem))
	var ks []string
	for k := range st.mem {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		nk, nv := f(k), st.mem[k].subst(f, memo)
		if old, ok := nm[nk]; ok && old.Key() != nv.Key() {
			nv = Sym("weak("+nk+")~~;", nv.T)
		}
		nm[nk] = nv
	}
	st.mem = nm
	nf := make(map[string]Dom, len(st.facts))
	ks = ks[:0]
	for k := range st.facts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	conflict := map[string]bool{}
	for _, k := range ks {
		d := st.facts[k]
		nk := f(k)
		d.V = d.V.subst(f, memo)
		if nk != k {
			nk = d.V.Key()
		}
		if old, ok := nf[nk]; ok && nk != k {
			if old.Enum && d.Enum {
				d.Mask |= old.Mask
			} else {
				conflict[nk] = true
			}
		}
		nf[nk] = d
	}
	for k := range nf {
		if conflict[k] || (strings.Contains(k, two) && x.partialWeak(st, k, nf)) {
			delete(nf, k)
		}
	}
	st.facts = nf
	for k, v := range st.epoch {
		st.epoch[k] = f(v)
	}
}

// a fact about a merged symbol is only kept when it was present for both instances; we cannot know, so drop it unless recorded as joined
func (x *Interp) partialWeak(st *State, k string, nf map[string]Dom) bool { return true }

func (st *State) mentions(tok string) bool {
	id := tok
	has := false
	chk := func(v *Val) {
		if !has && v != nil && v.mints && strings.Contains(v.Key(), id) {
			has = true
		}
	}
	for _, fr := range st.frames {
		for _, v := range fr.env {
			chk(v)
		}
		for _, v := range fr.bind {
			chk(v)
		}
		for _, d := range fr.defers {
			chk(d.fn)
			chk(d.recv)
			for _, a := range d.args {
				chk(a)
			}
		}
	}
	for k, v := range st.mem {
		if strings.Contains(k, id) {
			return true
		}
		chk(v)
	}
	for _, v := range st.Vals {
		chk(v)
	}
	for k := range st.facts {
		if strings.Contains(k, id) {
			return true
		}
	}
	for _, v := range st.epoch {
		if strings.Contains(v, id) {
			return true
		}
	}
	return has
}

// ---- memory

func zeroVal(t types.Type) *Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkConst(constant.MakeBool(false), t)
		case u.Info()&types.IsInteger != 0:
			return mkConst(constant.MakeInt64(0), t)
		case u.Info()&types.IsString != 0:
			return mkConst(constant.MakeString(""), t)
		case u.Info()&types.IsFloat != 0:
			return mkConst(constant.MakeFloat64(0), t)
		}
	}
	return Nil(t)
}

func fieldType(t types.Type, name string) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

// Field projects a struct value.
func Field(v *Val, name string, t types.Type) *Val {
	switch v.K {
	case VConst:
		return zeroVal(t)
	case VSym:
		return Sym(v.S+"."+name, t)
	case VAgg:
		if f, ok := v.F[name]; ok {
			return f
		}
		return Field(v.Args[0], name, t)
	}
	return mkExpr("."+name, t, v)
}

func lastSep(loc string) int {
	depth := 0
	for i := len(loc) - 1; i > 0; i-- {
		switch loc[i] {
		case ')', ']':
			depth++
		case '(':
			depth--
		case '[':
			depth--
			if depth == 0 {
				return i
			}
		case '.':
			if depth == 0 {
				return i
			}
		}
	}
	return -1
}

func (x *Interp) tracked(loc string) bool {
	if x.Cfg.Track == nil {
		return true
	}
	return strings.HasPrefix(loc, "alloc#") || x.Cfg.Track(loc)
}

// Load reads a location.
func (x *Interp) Load(st *State, loc string, t types.Type) *Val {
	if v, ok := st.mem[loc]; ok {
		if _, isStruct := t.Underlying().(*types.Struct); isStruct {
			return x.snapshot(st, loc, v, t)
		}
		return v
	}
	// longest prefix with a value
	var fields []string
	cur := loc
	for {
		i := lastSep(cur)
		if i < 0 {
			break
		}
		fields = append(fields, cur[i:])
		cur = cur[:i]
		if v, ok := st.mem[cur]; ok {
			ft := v.T
			for j := len(fields) - 1; j >= 0; j-- {
				f := fields[j]
				if f[0] == '.' {
					nt := fieldType(ft, f[1:])
					if nt == nil {
						nt = t
					}
					v = Field(v, f[1:], nt)
					ft = nt
				} else {
					if v.IsNil() {
						v = zeroVal(t)
					} else {
						v = mkExpr("index", t, v, Sym(f, types.Typ[types.Int]))
					}
					ft = t
				}
			}
			if _, isStruct := t.Underlying().(*types.Struct); isStruct {
				return x.snapshot(st, loc, v, t)
			}
			return v
		}
	}
	base := Sym(x.defaultName(st, loc), t)
	if _, isStruct := t.Underlying().(*types.Struct); isStruct {
		return x.snapshot(st, loc, base, t)
	}
	return base
}

func (x *Interp) defaultName(st *State, loc string) string {
	if len(st.epoch) == 0 {
		return loc
	}
	parts := ""
	cur := loc
	for {
		i := lastSep(cur)
		if i < 0 {
			break
		}
		if cur[i] == '.' {
			if e, ok := st.epoch[cur[i:]]; ok {
				parts = "@" + cur[i:] + e + parts
			}
		}
		cur = cur[:i]
	}
	return loc + parts
}

// overlay completes the value of an untracked struct with those of its fields that are tracked or known.
func (x *Interp) overlay(st *State, loc string, base *Val, t *types.Struct, typ types.Type) *Val {
	v := x.snapshot(st, loc, base, typ)
	if x.Cfg.Track == nil {
		return v
	}
	over := map[string]*Val{}
	for i := 0; i < t.NumFields(); i++ {
		fl := t.Field(i)
		l := loc + "." + fl.Name()
		if _, ok := st.mem[l]; !ok && x.tracked(l) {
			over[fl.Name()] = x.Load(st, l, fl.Type())
		}
	}
	if len(over) == 0 {
		return v
	}
	if v.K == VAgg {
		for k, f := range v.F {
			if _, ok := over[k]; !ok {
				over[k] = f
			}
		}
		v = v.Args[0]
	}
	return mkAgg(v, over, typ)
}

func (x *Interp) snapshot(st *State, loc string, base *Val, t types.Type) *Val {
	over := map[string]*Val{}
	pre := loc + "."
	for k := range st.mem {
		if strings.HasPrefix(k, pre) {
			f := k[len(pre):]
			if i := strings.IndexAny(f, ".["); i >= 0 {
				f = f[:i]
			}
			if _, ok := over[f]; !ok {
				ft := fieldType(t, f)
				if ft == nil {
					continue
				}
				over[f] = x.Load(st, loc+"."+f, ft)
			}
		}
	}
	if len(over) == 0 {
		return base
	}
	if base.K == VAgg {
		for k, v := range base.F {
			if _, ok := over[k]; !ok {
				over[k] = v
			}
		}
		base = base.Args[0]
	}
	return mkAgg(base, over, t)
}

// Store writes a location.
func (x *Interp) Store(st *State, loc string, v *Val) {
	for k := range st.mem {
		if len(k) > len(loc) && strings.HasPrefix(k, loc) && (k[len(loc)] == '.' || k[len(loc)] == '[') {
			delete(st.mem, k)
		}
	}
	// a store through a symbolic index invalidates its siblings
	if i := lastSep(loc); i >= 0 && loc[i] == '[' {
		sym := strings.ContainsAny(loc[i+1:], "#abcdefghijklmnopqrstuvwxyz")
		if sym {
			for k := range st.mem {
				if strings.HasPrefix(k, loc[:i+1]) && k != loc {
					delete(st.mem, k)
				}
			}
		}
	}
	st.mem[loc] = v
}

// Deref returns the location a pointer value designates.
func (x *Interp) Deref(p *Val) (loc, base string) {
	switch p.K {
	case VPtr:
		return p.S, p.B
	case VSym:
		return "*" + p.S, ""
	}
	return "*(" + p.Key() + ")", ""
}

// ---- block entry, liveness, keys

func (x *Interp) enterBlock(st *State, b *ssa.BasicBlock, from *ssa.BasicBlock) {
	f := st.top()
	type pv struct {
		p *ssa.Phi
		v *Val
	}
	var pvs []pv
	if from != nil {
		ei := -1
		for i, p := range b.Preds {
			if p == from {
				ei = i
				break
			}
		}
		back := b.Dominates(from)
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			v := x.get(st, phi.Edges[ei])
			if x.Cfg.Linear && (v.K != VExpr || x.Cfg.Lists > 0 && v.depth <= 4) {
				pvs = append(pvs, pv{phi, v})
				continue
			}
			if isInt(phi.Type()) && (x.Cfg.Concrete != nil && x.Cfg.Concrete(phi) || shortRange(phi)) {
				if n, ok := v.Int(); ok && n < 12 {
					pvs = append(pvs, pv{phi, v})
					continue
				}
			}
			if isInt(phi.Type()) && x.P.EnumDomain(phi.Type()) == nil && x.P.loopCounter(phi) {
				v = nil // a loop counter is an unknown from the first iteration on
			} else if back {
				_, isC := phi.Edges[ei].(*ssa.Const)
				if !isC && (v.K == VExpr || (v.K == VConst && v.C != nil && (isInt(phi.Type()) || isString(phi.Type())) && x.P.EnumDomain(phi.Type()) == nil)) {
					v = nil // widened below
				}
			}
			pvs = append(pvs, pv{phi, v})
		}
	}
	for _, p := range pvs {
		if p.v != nil {
			f.env[p.p] = p.v
		}
	}
	for _, p := range pvs {
		if p.v == nil {
			desc := "loop:"
			if x.P.loopDown(p.p) {
				desc = "loopdown:"
			}
			v := x.Mint(st, p.p, desc+p.p.Comment, p.p.Type())
			f.env[p.p] = v
		}
	}
	f.block = b
	f.idx = 0
	for f.idx < len(b.Instrs) {
		if _, ok := b.Instrs[f.idx].(*ssa.Phi); !ok {
			break
		}
		f.idx++
	}
	// liveness prune
	live := x.P.liveIn(b)
	for k := range f.env {
		if !live[k] {
			if phi, ok := k.(*ssa.Phi); ok && phi.Block() == b && len(*phi.Referrers()) > 0 {
				continue
			}
			delete(f.env, k)
		}
	}
	if x.Cfg.Linear {
		if len(st.mem) > st.gcAt {
			x.gc(st)
			st.gcAt = 2*len(st.mem) + 64
		}
		x.work = append(x.work, st)
		return
	}
	x.gc(st)
	key := x.stateKey(st)
	if x.visited[key] {
		return
	}
	x.visited[key] = true
	if debugKeys != "" && strings.Contains(x.P.RelPos(blockPos(b)), debugKeys) {
		fmt.Fprintln(os.Stderr, "KEY", x.P.RelPos(blockPos(b)), strings.ReplaceAll(key, "\n", " "))
	}
	x.work = append(x.work, st)
}

func (x *Interp) gc(st *State) {
	if len(st.mem) == 0 && len(st.facts) == 0 {
		return
	}
	// reachable allocations
	reach := map[string]bool{}
	var mark func(v *Val)
	var queue []string
	mark = func(v *Val) {
		if v == nil || !v.mints {
			return
		}
		if v.B != "" && !reach[v.B] {
			reach[v.B] = true
			queue = append(queue, v.B)
		}
		for _, a := range v.Args {
			mark(a)
		}
		for _, a := range v.F {
			mark(a)
		}
	}
	for _, fr := range st.frames {
		for _, v := range fr.env {
			mark(v)
		}
		for _, v := range fr.bind {
			mark(v)
		}
		mark(fr.panicVal)
		for _, d := range fr.defers {
			mark(d.fn)
			mark(d.recv)
			for _, a := range d.args {
				mark(a)
			}
		}
	}
	for _, v := range st.Vals {
		mark(v)
	}
	baseOf := func(k string) string {
		if !strings.HasPrefix(k, "alloc#") {
			return ""
		}
		i := strings.IndexByte(k, ';')
		return k[:i+1]
	}
	for k, v := range st.mem {
		if baseOf(k) == "" {
			mark(v)
		}
	}
	byBase := map[string][]string{}
	for k := range st.mem {
		if b := baseOf(k); b != "" {
			byBase[b] = append(byBase[b], k)
		}
	}
	for len(queue) > 0 {
		b := queue[0]
		queue = queue[1:]
		for _, k := range byBase[b] {
			mark(st.mem[k])
		}
	}
	for b, ks := range byBase {
		if !reach[b] {
			for _, k := range ks {
				delete(st.mem, k)
			}
		}
	}
	// facts about dead minted symbols
	for k, d := range st.facts {
		if !strings.Contains(k, "#") {
			continue
		}
		if x.Cfg.KeepFact != nil && x.Cfg.KeepFact(k) {
			continue
		}
		alive := true
		for _, tok := range tokens(k) {
			if !st.mentionsLive(tok) {
				alive = false
				break
			}
		}
		_ = d
		if !alive {
			delete(st.facts, k)
		}
	}
}

func tokens(s string) []string {
	var out []string
	for {
		i := strings.IndexByte(s, '#')
		if i < 0 {
			return out
		}
		j := strings.IndexByte(s[i:], ';')
		if j < 0 {
			return out
		}
		out = append(out, s[i:i+j+1])
		s = s[i+j+1:]
	}
}

func (st *State) mentionsLive(tok string) bool {
	for _, fr := range st.frames {
		for _, v := range fr.env {
			if v != nil && v.mints && strings.Contains(v.Key(), tok) {
				return true
			}
		}
		for _, v := range fr.bind {
			if v != nil && v.mints && strings.Contains(v.Key(), tok) {
				return true
			}
		}
		for _, d := range fr.defers {
			for _, a := range append([]*Val{d.fn, d.recv}, d.args...) {
				if a != nil && a.mints && strings.Contains(a.Key(), tok) {
					return true
				}
			}
		}
	}
	for k, v := range st.mem {
		if strings.Contains(k, tok) || (v != nil && v.mints && strings.Contains(v.Key(), tok)) {
			return true
		}
	}
	for _, v := range st.Vals {
		if v != nil && v.mints && strings.Contains(v.Key(), tok) {
			return true
		}
	}
	for _, v := range st.epoch {
		if strings.Contains(v, tok) {
			return true
		}
	}
	return false
}

func (x *Interp) stateKey(st *State) string {
	var b strings.Builder
	for _, f := range st.frames {
		fmt.Fprintf(&b, "F%p/%s/%d/%d/%v%v%s%v|", f.fn, f.ctx, f.block.Index, f.idx, f.deferred, f.runDef, f.unwind, f.recov)
		var vs []string
		for k, v := range f.env {
			vs = append(vs, k.Name()+"="+v.Key())
		}
		sort.Strings(vs)
		for _, s := range vs {
			b.WriteString(s)
			b.WriteByte(';')
		}
		for _, v := range f.bind {
			b.WriteString(v.Key())
			b.WriteByte(',')
		}
		for _, d := range f.defers {
			fmt.Fprintf(&b, "D%p%s(", d.in, d.fn.Key())
			for _, a := range d.args {
				b.WriteString(a.Key())
				b.WriteByte(',')
			}
		}
		if f.panicVal != nil {
			b.WriteString("P" + f.panicVal.Key())
		}
	}
	dump := func(tag string, m map[string]string) {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		b.WriteString(tag)
		for _, k := range ks {
			b.WriteString(k)
			b.WriteByte('=')
			b.WriteString(m[k])
			b.WriteByte(';')
		}
	}
	m := make(map[string]string, len(st.mem))
	for k, v := range st.mem {
		m[k] = v.Key()
	}
	dump("\nM", m)
	m = make(map[string]string, len(st.facts))
	for k, d := range st.facts {
		m[k] = d.key()
	}
	dump("\nF", m)
	dump("\nA", st.Auto)
	dump("\nE", st.epoch)
	m = make(map[string]string, len(st.Vals))
	for k, v := range st.Vals {
		m[k] = v.Key()
	}
	dump("\nV", m)
	return b.String()
}

// ---- values

func (x *Interp) get(st *State, v ssa.Value) *Val {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			return zeroVal(c.Type())
		}
		return mkConst(c.Value, c.Type())
	case *ssa.Global:
		return mkPtr(c.Pkg.Pkg.Name()+"::"+c.Name(), "", c.Type())
	case *ssa.Function:
		return mkFunc(c, nil, c.Type())
	case *ssa.Builtin:
		return &Val{K: VFunc, S: "builtin:" + c.Name(), T: c.Type()}
	case *ssa.FreeVar:
		f := st.top()
		for i, fv := range f.fn.FreeVars {
			if fv == c && i < len(f.bind) {
				return f.bind[i]
			}
		}
		return Sym("free:"+c.Name(), c.Type())
	}
	if r, ok := st.top().env[v]; ok {
		return r
	}
	return Sym("undef:"+v.Name(), v.Type())
}

// Get evaluates an SSA value in the top frame.
func (x *Interp) Get(st *State, v ssa.Value) *Val { return x.get(st, v) }

func (x *Interp) binop(st *State, in *ssa.BinOp, a, b *Val) *Val {
	op := in.Op.String()
	t := in.Type()
	switch op {
	case "==", "!=":
		if r, ok := x.eq(a, b); ok {
			return BoolVal(r == (op == "=="))
		}
		if (a.K == VAgg || b.K == VAgg) && ground(a) && ground(b) {
			return BoolVal((flat(a) == flat(b)) == (op == "=="))
		}
	}
	ac, bc := a, b
	if ac.K == VConst && bc.K == VConst {
		av, bv := ac.C, bc.C
		if av == nil {
			av = zeroVal(ac.T).C
		}
		if bv == nil {
			bv = zeroVal(bc.T).C
		}
		if av != nil && bv != nil {
			if r := constBin(op, av, bv, t); r != nil {
				if isInt(t) && x.P.EnumDomain(t) == nil {
					if i, ok := constant.Int64Val(r); ok && (i > int64(max(64, x.Cfg.Lists)) || i < -64) && (op == "+" || op == "-") {
						return x.Mint(st, in, "int", t)
					}
				}
				return mkConst(r, t)
			}
		}
	}
	if a.depth > 4 || b.depth > 4 {
		if op == "==" || op == "!=" || op == "<" || op == ">" || op == "<=" || op == ">=" {
			return mkExpr(op, t, a, b)
		}
		return x.Mint(st, in, "expr", t)
	}
	switch op {
	case "+", "*", "|", "&":
		if op != "+" || !isString(t) {
			if a.Key() > b.Key() {
				a, b = b, a
			}
		}
	}
	return mkExpr(op, t, a, b)
}

func isNilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}

func isErrVar(v *Val) bool { return v.K == VSym && strings.HasPrefix(v.S, "nonnil:errvar:") }

func (x *Interp) eq(a, b *Val) (bool, bool) {
	if a.IsNil() && !b.IsNil() {
		a, b = b, a
	}
	if b.IsNil() && isNilable(b.T) {
		switch a.K {
		case VConst:
			if a.C == nil {
				return true, true
			}
		case VPtr, VFunc, VIface, VSlice:
			return false, true
		case VSym:
			if strings.HasPrefix(a.S, "nonnil:") {
				return false, true
			}
		case VExpr:
			if a.S == "append" || a.S == "makechan" || a.S == "makemap" {
				return false, true
			}
		}
		return false, false
	}
	if a.K == VIface && b.K == VIface {
		ta, tb := a.Args[0].T, b.Args[0].T
		if ta != nil && tb != nil && !types.Identical(ta, tb) {
			return false, true
		}
		return x.eq(a.Args[0], b.Args[0])
	}
	if a.K == VConst && b.K == VConst && a.C != nil && b.C != nil {
		if r := constBin("==", a.C, b.C, nil); r != nil {
			return constant.BoolVal(r), true
		}
	}
	if a.Key() == b.Key() && !isWeakKey(a.Key()) && a.K != VExpr {
		return true, true
	}
	if isErrVar(b) {
		a, b = b, a
	}
	if isErrVar(a) && b.K == VSym && a.S != b.S && strings.HasPrefix(b.S, "nonnil:") && b.S != "nonnil:panic" {
		return false, true // an error made once at start-up equals no other error made elsewhere
	}
	if a.K == VPtr && b.K == VPtr && a.B != b.B && (a.B != "" && b.B != "") {
		return false, true
	}
	return false, false
}

var debugKeys = os.Getenv("GV_DEBUG_KEYS")

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return token.NoPos
}

// CopyMem makes st's memory a copy of o's.
func (st *State) CopyMem(o *State) {
	for k, v := range o.mem {
		st.mem[k] = v
	}
}

// MapPut adds an entry with a constant key to a fresh map.
func (x *Interp) MapPut(st *State, m, k, v *Val) {
	st.mem["map:"+m.Key()+"["+mapKey(k)+"]"] = v
}

// GlobalLoc is the location of a package variable.
func (x *Interp) GlobalLoc(g *ssa.Global) string { return g.Pkg.Pkg.Name() + "::" + g.Name() }

// RootOf is the object a location is part of and what is known of it as a whole.
func (x *Interp) RootOf(st *State, loc string) (string, *Val) {
	if i := strings.IndexByte(loc, ';'); i >= 0 && strings.HasPrefix(loc, "alloc#") {
		return loc[:i+1], st.mem[loc[:i+1]]
	}
	return "", nil
}

// shortRange: phi counts a range over an array or literal slice of at most eight elements.
func shortRange(phi *ssa.Phi) bool {
	for _, r := range *phi.Referrers() {
		add, ok := r.(*ssa.BinOp)
		if !ok || add.Op != token.ADD || add.X != phi {
			continue
		}
		for _, r2 := range *add.Referrers() {
			cmp, ok := r2.(*ssa.BinOp)
			if !ok || cmp.Op != token.LSS || cmp.X != add {
				continue
			}
			switch l := cmp.Y.(type) {
			case *ssa.Const:
				if n, ok := constant.Int64Val(l.Value); ok && n <= 8 {
					return true
				}
			case *ssa.Call:
				if b, ok := l.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					if sl, ok := l.Call.Args[0].(*ssa.Slice); ok && sl.Low == nil && sl.High == nil {
						if pt, ok := sl.X.Type().Underlying().(*types.Pointer); ok {
							if at, ok := pt.Elem().Underlying().(*types.Array); ok && at.Len() <= 8 {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}
