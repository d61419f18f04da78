package rules

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{ID: "C03", Technique: "interprocedural lockset analysis (must/may-held mutexes) over every access to the shared fields, plus lock balance and self-deadlock on every mutex of the module",
		Note: "A mutex is identified by the struct field it is stored in, not per object. Scalar verdict fields of the current spec record are written only by the runner between nodes and are outside the claim, as the source documents.",
		Run:  c03})
}

// sharedFields lists, per type, the state that several goroutines touch; the guarding mutex is the type's own.
var sharedFields = []struct {
	pkg, typ string
	fields   []string
}{
	{"internal", "Failer", []string{"state", "failure"}},
	{"internal", "Writer", []string{"buffer", "teeWriters", "mode", "indentNext"}},
	{"internal", "ProgressReporterManager", []string{"progressReporters", "prCounter"}},
	{"internal", "Suite", []string{"currentNode", "currentNodeStartTime", "currentByStep", "timelineOrder", "cleanupNodes", "currentSpecContext"}},
	{"internal/interrupt_handler", "InterruptHandler", []string{"c", "level", "cause"}},
	{"reporters", "DefaultReporter", []string{"lastCharWasNewline", "lastEmissionWasDelimiter"}},
	{"types", "codeLocationLocator", []string{"pcs", "helpers"}},
	{"types", "DeprecationTracker", []string{"deprecations"}},
	{"ginkgo/internal", "OrderedParallelCompiler", []string{"stopped"}},
	{"ginkgo/watch", "PackageHashes", []string{"PackageHashes", "usedPaths"}},
}

// ownLocks lists the mutexes stored in a struct type.
func ownLocks(c *Ctx, t types.Type) []string {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []string
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if p, ok := ft.(*types.Pointer); ok {
			ft = p.Elem()
		}
		if s := ft.String(); s == "sync.Mutex" || s == "sync.RWMutex" {
			out = append(out, c.P.FieldID(t, i))
		}
	}
	return out
}

func c03(c *Ctx) {
	c.Rule("guarded", "every access to shared state holds its mutex, on every path")
	for _, s := range sharedFields {
		t := c.Type(s.pkg, s.typ)
		if t == nil {
			continue
		}
		locks := ownLocks(c, t)
		if len(locks) == 0 {
			c.Undecided("%s.%s stores no mutex", s.pkg, s.typ)
			continue
		}
		for _, f := range s.fields {
			guarded(c, locks, s.pkg+"."+s.typ+"."+f)
		}
	}
	c.Floor(120)

	c.Rule("record", "the shared parts of the current spec record change only under the suite's mutex and are read under it by everything outside the runner's own goroutine")
	c03record(c)

	c.Rule("snapshot", "what the writer hands out is a copy: no method returns the guarded buffer's own bytes")
	c03snapshot(c)

	c.Rule("atomic", "a shared field is not given a value computed from what it held in an earlier critical section: nothing stored in between is lost")
	c03atomic(c)

	c.Rule("counter", "the identity counter of nodes is only touched under its mutex")
	c03globals(c)

	c.Rule("balance", "no mutex is left locked on a return path or taken again by its holder")
	lockDiscipline(c, "*")

	c.Rule("panic-safe", "no mutex is held across a call into user code without a deferred unlock")
	c03panic(c)
}

// guarded checks that every access to the field holds one of the locks, the same everywhere.
func guarded(c *Ctx, locks []string, field string) {
	li := c.P.Locks()
	type acc struct {
		fn    *ssa.Function
		in    ssa.Instruction
		write bool
	}
	var accs []acc
	for _, a := range c.P.Accesses(field) {
		if a.Fresh || beforeGo(c, a) || underConstruction(c, a, 0) {
			continue
		}
		accs = append(accs, acc{a.Fn, a.In, a.Write})
		// what is done with a loaded map or buffer is an access of its own
		if u, ok := a.In.(*ssa.UnOp); ok && u.Op == token.MUL {
			for _, r := range contentUses(c, u) {
				accs = append(accs, acc{r.Parent(), r, false})
			}
		}
	}
	if len(accs) == 0 {
		c.Undecided("no access to %s found", field)
		return
	}
	best, hits := "", -1
	for _, l := range locks {
		n := 0
		for _, a := range accs {
			if li.Must[a.in][l] {
				n++
			}
		}
		if n > hits {
			best, hits = l, n
		}
	}
	for _, a := range accs {
		fn := c.P.CalleeName(a.fn)
		c.Funcs[fn] = true
		if _, reached := li.Entry[a.fn]; !reached {
			c.Ok("%s in %s: function never called", field, fn)
			continue
		}
		kind := "read"
		if a.write {
			kind = "write"
		}
		c.Check(li.Must[a.in][best], kind+" of "+field+" in "+fn, a.in.Pos(), nil, "%s of %s in %s without holding %s", kind, field, fn, best)
	}
}

// contentUses lists the instructions that touch the contents of a loaded map or bytes.Buffer.
func contentUses(c *Ctx, v ssa.Value) []ssa.Instruction {
	_, isMap := v.Type().Underlying().(*types.Map)
	isBuf := strings.HasSuffix(v.Type().String(), "bytes.Buffer") || strings.HasSuffix(v.Type().String(), "strings.Builder")
	if !isMap && !isBuf || v.Referrers() == nil {
		return nil
	}
	var out []ssa.Instruction
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Range:
			for _, n := range *r.Referrers() {
				out = append(out, n)
			}
		case *ssa.BinOp:
		case *ssa.Defer, *ssa.Go:
			out = append(out, r)
		default:
			out = append(out, r)
		}
	}
	return out
}

// beforeGo: the access happens before its function starts the first goroutine, in a function that starts the goroutines sharing the object.
func beforeGo(c *Ctx, a engine.Access) bool {
	if !a.Write {
		return false
	}
	var gos []ssa.Instruction
	for _, b := range a.Fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Go); ok {
				gos = append(gos, in)
			}
		}
	}
	if len(gos) == 0 {
		return false
	}
	for _, g := range gos {
		if !strictlyBefore(a.In, g) {
			return false
		}
	}
	return true
}

// strictlyBefore: i can not be executed after j within one activation.
func strictlyBefore(i, j ssa.Instruction) bool {
	if i.Block() == j.Block() {
		for _, in := range i.Block().Instrs {
			if in == i {
				return !reachesBlock(i.Block(), i.Block())
			}
			if in == j {
				return false
			}
		}
	}
	return !reachesBlock(j.Block(), i.Block())
}

func reachesBlock(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if s == to {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(from)
}

// underConstruction: the object is a parameter that every caller passes freshly allocated.
func underConstruction(c *Ctx, a engine.Access, depth int) bool {
	return freshParam(c, a.Fn, baseOfAccess(a.In, a.Field, c), depth)
}

func freshParam(c *Ctx, fn *ssa.Function, base ssa.Value, depth int) bool {
	p, ok := base.(*ssa.Parameter)
	if !ok || depth > 3 {
		return false
	}
	idx := -1
	for i, q := range fn.Params {
		if q == p {
			idx = i
		}
	}
	refs := c.P.Callers(fn)
	if idx < 0 || len(refs) == 0 {
		return false
	}
	for _, r := range refs {
		call, ok := r.Instr.(ssa.CallInstruction)
		if !ok || call.Common().StaticCallee() != fn || idx >= len(call.Common().Args) {
			return false
		}
		switch x := call.Common().Args[idx].(type) {
		case *ssa.Alloc:
			// published before the call?
			for _, u := range *x.Referrers() {
				if _, isGo := u.(*ssa.Go); isGo {
					return false
				}
				if st, isSt := u.(*ssa.Store); isSt && st.Val == x && !strictlyBefore(call, st) {
					return false
				}
			}
		default:
			if !freshParam(c, r.Caller, x, depth+1) {
				return false
			}
		}
	}
	return true
}

// baseOfAccess is the object whose field is accessed.
func baseOfAccess(in ssa.Instruction, field string, c *Ctx) ssa.Value {
	var v ssa.Value
	switch in := in.(type) {
	case *ssa.UnOp:
		v = in.X
	case *ssa.Store:
		v = in.Addr
	}
	for i := 0; v != nil && i < 8; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
			if c.P.FieldID(x.X.Type(), x.Field) == field {
				return v
			}
		case *ssa.IndexAddr:
			v = x.X
		default:
			return v
		}
	}
	return v
}

// recordAccess is one access to the current spec record or one of its fields.
type recordAccess struct {
	fn    *ssa.Function
	in    ssa.Instruction
	sub   string // field of the record, "" for the whole
	write bool
}

func recordAccesses(c *Ctx, field string) []recordAccess {
	var out []recordAccess
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || c.P.FieldID(fa.X.Type(), fa.Field) != field {
					continue
				}
				var uses func(v ssa.Value, sub string, d int)
				uses = func(v ssa.Value, sub string, d int) {
					if v.Referrers() == nil || d > 6 {
						return
					}
					for _, r := range *v.Referrers() {
						switch r := r.(type) {
						case *ssa.DebugRef:
						case *ssa.FieldAddr:
							s := sub
							if s == "" {
								s = fieldNameOf(r.X.Type(), r.Field)
							}
							uses(r, s, d+1)
						case *ssa.IndexAddr:
							uses(r, sub, d+1)
						case *ssa.UnOp:
							out = append(out, recordAccess{f, r, sub, false})
						case *ssa.Store:
							out = append(out, recordAccess{f, r, sub, true})
						case ssa.CallInstruction:
							out = append(out, recordAccess{f, r, sub, false})
						}
					}
				}
				uses(fa, "", 0)
			}
		}
	}
	return out
}

func fieldNameOf(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok && i < st.NumFields() {
		return st.Field(i).Name()
	}
	return "?"
}

// foreignFuncs lists the functions that may run outside the runner's own goroutine while specs run.
func foreignFuncs(c *Ctx) map[*ssa.Function]bool {
	run := c.Fn("(*internal.Suite).Run")
	out := map[*ssa.Function]bool{}
	stop := func(f *ssa.Function) bool { return f == run }
	add := func(f *ssa.Function) {
		for _, g := range c.P.Reach(f, stop) {
			out[g] = true
		}
	}
	for _, f := range c.P.Funcs {
		if f.Object() != nil && f.Object().Exported() && f.Pkg != nil && f.Parent() == nil {
			switch c.P.ShortPkg(f.Pkg.Pkg.Path()) {
			case ".", "internal/testingtproxy":
				add(f)
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Go:
					if t := in.Call.StaticCallee(); t != nil {
						add(t)
					}
					if mc, ok := in.Call.Value.(*ssa.MakeClosure); ok {
						add(mc.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	if f := c.P.Func("(*internal.Suite).handleProgressSignal"); f != nil {
		add(f)
	}
	return out
}

func c03record(c *Ctx) {
	t := c.Type("internal", "Suite")
	if t == nil {
		return
	}
	locks := ownLocks(c, t)
	if len(locks) != 1 {
		c.Undecided("the suite stores %d mutexes", len(locks))
		return
	}
	li := c.P.Locks()
	foreign := foreignFuncs(c)
	shared := map[string]bool{"ReportEntries": true, "SpecEvents": true, "ProgressReports": true}
	for _, a := range recordAccesses(c, "internal.Suite.currentSpecReport") {
		if !shared[a.sub] && a.sub != "" {
			if foreign[a.fn] {
				fn := c.P.CalleeName(a.fn)
				c.Check(li.Must[a.in][locks[0]], "access to the record's "+a.sub+" in "+fn, a.in.Pos(), nil, "%s, which may run outside the runner's goroutine, accesses %s of the current spec record without holding %s", fn, a.sub, locks[0])
			}
			continue
		}
		what := a.sub
		if what == "" {
			what = "the whole record"
		}
		fn := c.P.CalleeName(a.fn)
		c.Funcs[fn] = true
		held := li.Must[a.in][locks[0]]
		switch {
		case a.write:
			c.Check(held, "write of "+what+" in "+fn, a.in.Pos(), nil, "%s writes %s without holding %s", fn, what, locks[0])
		case foreign[a.fn]:
			c.Check(held, "read of "+what+" in "+fn, a.in.Pos(), nil, "%s, which may run outside the runner's goroutine, reads %s without holding %s", fn, what, locks[0])
		}
	}
	c.Floor(12)
}

// c03snapshot: bytes of a guarded buffer do not leave the methods that read them.
func c03snapshot(c *Ctx) {
	n := 0
	for _, a := range c.P.Accesses("internal.Writer.buffer") {
		u, ok := a.In.(*ssa.UnOp)
		if !ok || u.Referrers() == nil {
			continue
		}
		for _, r := range *u.Referrers() {
			call, ok := r.(*ssa.Call)
			if !ok || call.Call.StaticCallee() == nil || call.Call.StaticCallee().Name() != "Bytes" {
				continue
			}
			n++
			var bad ssa.Instruction
			seen := map[ssa.Value]bool{}
			var walk func(v ssa.Value)
			walk = func(v ssa.Value) {
				if seen[v] || v.Referrers() == nil {
					return
				}
				seen[v] = true
				for _, r := range *v.Referrers() {
					switch r := r.(type) {
					case *ssa.Return:
						bad = r
					case *ssa.Slice, *ssa.Phi, *ssa.ChangeType:
						walk(r.(ssa.Value))
					case *ssa.Store:
						if local, ok := r.Addr.(*ssa.Alloc); r.Val == v && ok {
							for _, l := range *local.Referrers() {
								if u, ok := l.(*ssa.UnOp); ok {
									walk(u)
								}
							}
						} else if r.Val == v {
							bad = r
						}
					}
				}
			}
			walk(call)
			pos := call.Pos()
			c.Check(bad == nil, "bytes of the buffer in "+c.P.CalleeName(a.Fn), pos, nil, "%s hands out the buffer's own bytes, which later writes overwrite", c.P.CalleeName(a.Fn))
		}
	}
	c.Floor(1)
}

func c03globals(c *Ctx) {
	li := c.P.Locks()
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var g *ssa.Global
				switch in := in.(type) {
				case *ssa.Store:
					g, _ = in.Addr.(*ssa.Global)
				case *ssa.UnOp:
					g, _ = in.X.(*ssa.Global)
				}
				if g == nil || f.Synthetic != "" || c.P.ShortPkg(g.Pkg.Pkg.Path())+"."+g.Name() != "internal._global_node_id_counter" {
					continue
				}
				c.Check(li.Must[in]["internal._global_id_mutex"], "access in "+c.P.CalleeName(f), in.Pos(), nil, "%s accesses the node identity counter without its mutex", c.P.CalleeName(f))
			}
		}
	}
	c.Floor(2)
}

// c03panic: user code called with a mutex held must not leave it locked by panicking.
func c03panic(c *Ctx) {
	li := c.P.Locks()
	n := 0
	for _, f := range c.P.Funcs {
		if strings.Contains(c.P.CalleeName(f), "test_helpers") {
			continue
		}
		deferred := map[string]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if d, ok := in.(*ssa.Defer); ok {
					if op, ok := c.P.LockOpOf(d); ok {
						deferred[op.ID] = true
					}
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || !mayBeUserCode(c, call) {
					continue
				}
				n++
				var held []string
				for l := range li.Must[in] {
					if !deferred[l] && !deferredAbove(c, f, l, 0) {
						held = append(held, l)
					}
				}
				sort.Strings(held)
				fn := c.P.CalleeName(f)
				c.Check(len(held) == 0, "user code called by "+fn, in.Pos(), nil, "%s calls user code while holding %v, which a panic would leave locked", fn, held)
			}
		}
	}
	c.Floor(10)
}

// deferredAbove: f is only called where a caller that holds the lock unlocks it by defer.
func deferredAbove(c *Ctx, f *ssa.Function, l string, depth int) bool {
	refs := c.P.Callers(f)
	if len(refs) == 0 || depth > 4 {
		return false
	}
	li := c.P.Locks()
	for _, r := range refs {
		if !li.Must[r.Instr][l] {
			continue
		}
		ok := false
		for _, b := range r.Caller.Blocks {
			for _, in := range b.Instrs {
				if d, isD := in.(*ssa.Defer); isD {
					if op, isOp := c.P.LockOpOf(d); isOp && op.ID == l {
						ok = true
					}
				}
			}
		}
		if !ok && !deferredAbove(c, r.Caller, l, depth+1) {
			return false
		}
	}
	return true
}

// mayBeUserCode: a call of a function value or of an interface that users implement.
func mayBeUserCode(c *Ctx, call *ssa.Call) bool {
	com := &call.Call
	if com.IsInvoke() {
		switch com.Value.Type().String() {
		case "io.Writer", "fmt.Stringer", "error", "any", "interface{}":
			return true
		}
		return strings.HasSuffix(com.Value.Type().String(), "GinkgoTInterface")
	}
	if com.StaticCallee() != nil {
		return false
	}
	switch com.Value.(type) {
	case *ssa.Builtin, *ssa.MakeClosure:
		return false
	}
	return true
}

// c03atomic: where the new value of a shared field is computed from its old one, the mutex is held from the reading to the writing.
func c03atomic(c *Ctx) {
	li := c.P.Locks()
	check := func(locks []string, what string, reads map[ssa.Instruction]bool, fn *ssa.Function, st *ssa.Store) {
		if _, reached := li.Entry[fn]; !reached {
			return
		}
		held := ""
		for _, l := range locks {
			if li.Must[st][l] {
				held = l
			}
		}
		if held == "" {
			return // the other rules tell
		}
		name := c.P.CalleeName(fn)
		var bad ssa.Instruction
		for _, ld := range dependsOn(c, st.Val, reads, 0) {
			switch {
			case ld.Parent() != fn: // read by a function that was called
				if releases(c, ld.Parent(), held) {
					if e := li.Entry[ld.Parent()]; e == nil || !e[held] {
						bad = ld
					}
				}
			case !li.Must[ld][held], releasedBetween(c, ld, st, held):
				bad = ld
			}
		}
		pos := st.Pos()
		if bad != nil {
			pos = bad.Pos()
		}
		c.Check(bad == nil, "update of "+what+" in "+name, pos, nil, "%s stores in %s what it computed from a value read before %s was released: what others stored in between is lost", name, what, held)
	}
	for _, s := range sharedFields {
		t := c.Type(s.pkg, s.typ)
		if t == nil {
			continue
		}
		locks := ownLocks(c, t)
		for _, f := range s.fields {
			id := s.pkg + "." + s.typ + "." + f
			reads := map[ssa.Instruction]bool{}
			for _, a := range c.P.Accesses(id) {
				if u, ok := a.In.(*ssa.UnOp); ok && !a.Fresh {
					reads[u] = true
				}
			}
			for _, a := range c.P.Accesses(id) {
				st, ok := a.In.(*ssa.Store)
				if !ok || !a.Write || a.Fresh || beforeGo(c, a) || underConstruction(c, a, 0) {
					continue
				}
				check(locks, id, reads, a.Fn, st)
			}
		}
	}
	if t := c.Type("internal", "Suite"); t != nil {
		locks := ownLocks(c, t)
		accs := recordAccesses(c, "internal.Suite.currentSpecReport")
		for _, sub := range []string{"ReportEntries", "SpecEvents", "ProgressReports"} {
			reads := map[ssa.Instruction]bool{}
			for _, a := range accs {
				if _, ok := a.in.(*ssa.UnOp); ok && a.sub == sub {
					reads[a.in] = true
				}
			}
			for _, a := range accs {
				if st, ok := a.in.(*ssa.Store); ok && a.write && a.sub == sub {
					check(locks, "the record's "+sub, reads, a.fn, st)
				}
			}
		}
	}
	c.Floor(20)
}

// dependsOn lists those of the given reads that v is computed from.
func dependsOn(c *Ctx, v ssa.Value, reads map[ssa.Instruction]bool, depth int) []ssa.Instruction {
	var out []ssa.Instruction
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		in, ok := v.(ssa.Instruction)
		if !ok {
			return
		}
		if reads[in] {
			out = append(out, in)
			return
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				for _, r := range *a.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == a {
						walk(st.Val)
					}
				}
				return
			}
			if x.Op != token.MUL {
				walk(x.X)
			}
		case *ssa.Call:
			for _, a := range x.Call.Args {
				walk(a)
			}
			if f := x.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 && depth < 2 {
				for _, b := range f.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, res := range r.Results {
							out = append(out, dependsOn(c, res, reads, depth+1)...)
						}
					}
				}
			}
		case *ssa.Slice:
			walk(x.X)
			if a, ok := x.X.(*ssa.Alloc); ok { // the operands of a variadic call
				for _, r := range *a.Referrers() {
					if ia, ok := r.(*ssa.IndexAddr); ok {
						for _, q := range *ia.Referrers() {
							if st, ok := q.(*ssa.Store); ok {
								walk(st.Val)
							}
						}
					}
				}
			}
		case *ssa.Phi, *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.Extract, *ssa.MakeInterface, *ssa.Field, *ssa.TypeAssert:
			for _, o := range in.Operands(nil) {
				walk(*o)
			}
		}
	}
	walk(v)
	return out
}

// releases tells whether f gives the lock back.
func releases(c *Ctx, f *ssa.Function, lock string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if unlocks(c, in, lock) {
				return true
			}
		}
	}
	return false
}

// releasedBetween tells whether there is a path from ld to st on which the lock is given back.
func releasedBetween(c *Ctx, ld, st ssa.Instruction, lock string) bool {
	type at struct {
		b   *ssa.BasicBlock
		rel bool
	}
	seen := map[at]bool{}
	var walk func(b *ssa.BasicBlock, i int, rel bool) bool
	walk = func(b *ssa.BasicBlock, i int, rel bool) bool {
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if in == st {
				return rel
			}
			if in == ld {
				return false
			}
			if _, isDefer := in.(*ssa.Defer); isDefer {
				continue
			}
			if unlocks(c, in, lock) {
				rel = true
			}
		}
		for _, s := range b.Succs {
			if k := (at{s, rel}); !seen[k] {
				seen[k] = true
				if walk(s, 0, rel) {
					return true
				}
			}
		}
		return false
	}
	for i, in := range ld.Block().Instrs {
		if in == ld {
			return walk(ld.Block(), i+1, false)
		}
	}
	return false
}

func unlocks(c *Ctx, in ssa.Instruction, lock string) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	op, ok := c.P.LockOpOf(ci)
	return ok && op.ID == lock && strings.HasSuffix(op.Kind, "Unlock")
}
