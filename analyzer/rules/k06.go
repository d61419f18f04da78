package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{
		ID:        "K06",
		Technique: "abstract interpretation of every method of the object GinkgoT and GinkgoTB return, from the object they build to the DSL calls and process-wide effects, over every outcome of the system calls",
		Note:      "Locations are decided by counting the frames between the method the user calls and the DSL function that takes the skip; inlining of frames by helpers marked with Helper is not modelled.",
		Run:       k06,
	})
}

// k06event is something a method did that matters outside it.
type k06event struct {
	kind  string // fail, skip, cleanup, write, report, env...
	text  *engine.Val
	skip  *engine.Val
	depth int
	args  []*engine.Val
}

type k06walk struct {
	c      *Ctx
	events map[string][]k06event // by trace id
}

const k06trace = "trace"

func (w *k06walk) add(st *engine.State, ev k06event) {
	old := st.Auto[k06trace]
	id := fmt.Sprintf("%s/%d", old, len(w.events))
	w.events[id] = append(append([]k06event{}, w.events[old]...), ev)
	st.Auto[k06trace] = id
}

// hook follows the calls a method of the stand-in makes.
func (w *k06walk) hook(k *engine.Call) ([]engine.Outcome, bool) {
	err := w.c.P.ErrorType()
	variadic := func(i int) []*engine.Val {
		if i >= len(k.Args) {
			return nil
		}
		es, _ := k.X.Elems(k.St, k.Args[i])
		return es
	}
	fork := func(kind string, ok func() *engine.Val, bad func() *engine.Val) ([]engine.Outcome, bool) {
		s2 := k.St.Clone()
		w.add(k.St, k06event{kind: kind, args: k.Args})
		w.add(s2, k06event{kind: kind + " failed", args: k.Args})
		return append(k.Return(ok()), engine.Outcome{St: s2, Ret: bad()}), true
	}
	spread := func(vs []*engine.Val) []*engine.Val {
		var out []*engine.Val
		for _, v := range vs {
			out = append(out, v)
			if es, ok := k.X.Elems(k.St, v); ok {
				out = append(out, es...)
			}
		}
		return out
	}
	errv := func() *engine.Val { return engine.Sym("nonnil:oserr~", err) }
	str := types.Typ[types.String]
	switch k.Name {
	case "ginkgo.Fail", "ginkgo.Skip", "ginkgo.AbortSuite":
		ev := k06event{kind: strings.ToLower(strings.TrimPrefix(k.Name, "ginkgo.")), text: k.Args[0], depth: k.St.Depth()}
		if es := variadic(1); len(es) == 1 {
			ev.skip = es[0]
		} else if len(k.Args) > 1 && k.Args[1].IsNil() {
			ev.skip = engine.IntVal(0, types.Typ[types.Int])
		}
		w.add(k.St, ev)
		return []engine.Outcome{{St: k.St, Kind: engine.ExitPanic, Ret: engine.Sym("nonnil:ginkgopanic~", types.NewInterfaceType(nil, nil))}}, true
	case "ginkgo.DeferCleanup":
		ev := k06event{kind: "cleanup", depth: k.St.Depth()}
		es, ok := k.X.Elems(k.St, k.Args[0])
		if !ok {
			ev.kind = "cleanup?"
			ev.args = []*engine.Val{k.Args[0]}
		}
		for _, e := range es {
			u := e.Unbox()
			if e.K == engine.VIface && u.T != nil && strings.HasSuffix(engine.TypeStr(u.T), "internal.Offset") {
				ev.skip = u
				continue
			}
			ev.args = append(ev.args, u)
		}
		w.add(k.St, ev)
		return k.Return(engine.Tuple()), true
	case "ginkgo.AddReportEntry":
		w.add(k.St, k06event{kind: "report", args: append([]*engine.Val{k.Args[0]}, variadic(1)...), depth: k.St.Depth()})
		return k.Return(engine.Tuple()), true
	case "ginkgo.CurrentSpecReport":
		return k.Return(engine.Sym("report~", k.T)), true
	case "(types.SpecReport).Failed":
		return k.Return(engine.Sym("failed~", k.T)), true
	case "(types.SpecReport).FullText":
		return k.Return(engine.Sym("fulltext~", k.T)), true
	case "ginkgo.GinkgoRecover", "ginkgo.AttachProgressReporter":
		w.add(k.St, k06event{kind: strings.TrimPrefix(k.Name, "ginkgo."), args: k.Args})
		return k.Return(k.Fresh()), true
	case "types.MarkAsHelper":
		ev := k06event{kind: "helper", depth: k.St.Depth()}
		if es := variadic(0); len(es) == 1 {
			ev.skip = es[0]
		} else {
			ev.skip = engine.IntVal(0, types.Typ[types.Int])
		}
		w.add(k.St, ev)
		return k.Return(engine.Tuple()), true
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "fmt.Errorf":
		if k.Name != "fmt.Errorf" {
			return k.Return(engine.Expr("text", str, spread(k.Args)...)), true
		}
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		w.add(k.St, k06event{kind: "write", text: k.Args[0], args: spread(k.Args[1:])})
		return k.Return(k.Fresh()), true
	case "os.LookupEnv":
		b := types.Typ[types.Bool]
		s2 := k.St.Clone()
		w.add(k.St, k06event{kind: "env set", args: k.Args})
		w.add(s2, k06event{kind: "env unset", args: k.Args})
		return []engine.Outcome{{St: k.St, Ret: engine.Tuple(engine.Sym("prior~env", str), engine.BoolVal(true))}, {St: s2, Ret: engine.Tuple(engine.Const(constant.MakeString(""), str), engine.BoolVal(false))}}, b != nil
	case "os.Getenv":
		w.add(k.St, k06event{kind: "env read", args: k.Args})
		return k.Return(engine.Sym("prior~env", str)), true
	case "os.Setenv", "os.Unsetenv", "os.Chdir":
		return fork(k.Name, func() *engine.Val { return engine.Nil(err) }, errv)
	case "os.Getwd":
		s2 := k.St.Clone()
		w.add(k.St, k06event{kind: "wd"})
		w.add(s2, k06event{kind: "os.Getwd failed"})
		return []engine.Outcome{{St: k.St, Ret: engine.Tuple(engine.Sym("prior~wd", str), engine.Nil(err))}, {St: s2, Ret: engine.Tuple(engine.Const(constant.MakeString(""), str), errv())}}, true
	case "os.MkdirTemp":
		s2 := k.St.Clone()
		w.add(k.St, k06event{kind: "os.MkdirTemp", args: []*engine.Val{engine.Sym("tmpdir~", str)}})
		w.add(s2, k06event{kind: "os.MkdirTemp failed"})
		return []engine.Outcome{{St: k.St, Ret: engine.Tuple(engine.Sym("tmpdir~", str), engine.Nil(err))}, {St: s2, Ret: engine.Tuple(engine.Const(constant.MakeString(""), str), errv())}}, true
	case "context.WithCancel", "context.WithCancelCause", "context.WithTimeout", "context.WithDeadline":
		tt, ok := k.T.(*types.Tuple)
		if !ok {
			return nil, false
		}
		w.add(k.St, k06event{kind: "context", args: []*engine.Val{engine.Sym("nonnil:cancel~", tt.At(1).Type())}})
		return k.Return(engine.Tuple(engine.Sym("nonnil:ctx~", tt.At(0).Type()), engine.Sym("nonnil:cancel~", tt.At(1).Type()))), true
	}
	if k.Com != nil && k.Com.IsInvoke() && k.Fn == nil && k.Recv != nil {
		switch k.Com.Method.Name() {
		case "Print", "Printf", "Println", "Write", "WriteString":
			w.add(k.St, k06event{kind: "write", text: k.Recv, args: spread(k.Args)})
			return k.Return(k.Fresh()), true
		}
	}
	if k.Fn != nil && k.Fn.Pkg != nil {
		p := c_shortPkg(w.c, k.Fn.Pkg.Pkg.Path())
		if p == "internal/testingtproxy" || k.Fn.Signature.Recv() != nil && p == "." {
			return nil, false
		}
	}
	if strings.HasPrefix(k.Name, "os.") || strings.HasPrefix(k.Name, "syscall.") {
		w.add(k.St, k06event{kind: k.Name + "?", args: k.Args})
		return k.Return(k.Fresh()), true
	}
	if strings.HasPrefix(k.Name, "builtin") {
		return nil, false
	}
	if strings.HasPrefix(k.Name, "(types.SpecState)") {
		return nil, false
	}
	w.add(k.St, k06event{kind: "other", args: k.Args})
	return k.Return(k.Fresh()), true
}

func c_shortPkg(c *Ctx, path string) string { return c.P.ShortPkg(path) }

// k06harmless are the functions of package os that change nothing.
var k06harmless = []string{"os.TempDir?", "os.Hostname?", "os.Getpid?", "os.Stat?", "os.IsNotExist?"}

func k06(c *Ctx) {
	c.Rule("stand-in", "each method of the object returned for testing.T calls the DSL function its name stands for, once, with what it was given, and the location it asks for is its caller's; what changes the process registers, before or right after, the cleanup that restores the state read before; failed system calls fail the spec")
	proxyOffset(c, "ginkgo.GinkgoT", 0)
	proxyOffset(c, "ginkgo.GinkgoTB", 0)
	proxyOffset(c, "ginkgo.GinkgoT", 5)
	proxyOffset(c, "ginkgo.GinkgoTB", 5)
	c.Floor(150)
	k06complete(c)
}

// k06complete: the wrapper answers every exported method of testing.TB itself.
func k06complete(c *Ctx) {
	c.Rule("complete", "the testing.TB wrapper provides every exported method of testing.TB itself: none falls through to the embedded, nil, interface")
	var w *types.Named
	{
		for _, pk := range c.P.SSA.AllPackages() {
			if pk.Pkg.Path() == c.P.Module {
				if t := pk.Type("GinkgoTBWrapper"); t != nil {
					w, _ = t.Type().(*types.Named)
				}
			}
		}
	}
	if w == nil {
		c.Undecided("no GinkgoTBWrapper")
		return
	}
	s, _ := w.Underlying().(*types.Struct)
	if s == nil {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		it, isI := f.Type().Underlying().(*types.Interface)
		if !f.Embedded() || !isI || engine.TypeStr(f.Type()) != "testing.TB" {
			continue
		}
		for j := 0; j < it.NumMethods(); j++ {
			m := it.Method(j)
			if !m.Exported() {
				continue
			}
			obj, index, _ := types.LookupFieldOrMethod(types.NewPointer(w), true, w.Obj().Pkg(), m.Name())
			c.Check(obj != nil && len(index) == 1, "testing.TB."+m.Name(), w.Obj().Pos(), nil, "the wrapper does not provide %s: a call reaches the embedded testing.TB, which is nil", m.Name())
		}
	}
}

func proxyOffset(c *Ctx, ctor string, explicit int64) {
	fn := c.Fn(ctor)
	if fn == nil || len(fn.Params) != 1 {
		c.Undecided("no %s", ctor)
		return
	}
	w := &k06walk{c: c, events: map[string][]k06event{}}
	arg := engine.SliceAt("*off", 0, fn.Params[0].Type())
	if explicit > 0 {
		arg = engine.SliceAt("*off", 1, fn.Params[0].Type())
	}
	var x *engine.Interp
	x = engine.New(c.P, engine.Cfg{Root: fn, Args: []*engine.Val{arg}, Linear: true, Budget: 4000, Lists: 4, OnBranch: onKnownBranch,
		Init: func(st *engine.State) {
			if explicit > 0 {
				x.Store(st, "*off[0]", engine.IntVal(explicit, types.Typ[types.Int]))
			}
		}})
	c.Run(x)
	if len(x.Exits) != 1 || x.Exits[0].Kind != engine.ExitReturn || len(x.Undec) > 0 {
		c.Undecided("%s is not understood: %v", ctor, x.Undec)
		return
	}
	built := x.Exits[0]
	obj := built.Ret
	u := obj.Unbox()
	if u == nil || u.T == nil {
		c.Undecided("what %s returns is not understood: %v", ctor, obj)
		return
	}
	ms := c.P.SSA.MethodSets.MethodSet(u.T)
	var names []string
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		if sel.Obj().Exported() && len(sel.Index()) == 1 {
			names = append(names, sel.Obj().Name())
		}
	}
	sort.Strings(names)
	// what an explicit offset asks for is counted from the place the default asks for
	extra := int64(0)
	if explicit > 0 {
		extra = explicit - 1
		if ctor == "ginkgo.GinkgoTB" {
			extra = explicit - 2
		}
	}
	for _, name := range names {
		m, recv := c.boxedMethod(obj, name)
		if m == nil {
			c.Undecided("%s.%s is not found", ctor, name)
			continue
		}
		args := []*engine.Val{recv}
		listed := name == "DeferCleanup" || strings.HasPrefix(name, "AddReportEntry")
		if n := len(m.Params); listed && m.Signature.Variadic() {
			for _, p := range m.Params[1 : n-1] {
				args = append(args, engine.ParamSym(p))
			}
			args = append(args, engine.SliceAt("*uargs", 2, m.Params[n-1].Type()))
		}
		var y *engine.Interp
		y = engine.New(c.P, engine.Cfg{Root: m, Args: args, Linear: true, Budget: 8000, Lists: 8, MaxDepth: 12, OnBranch: onKnownBranch,
			Init: func(st *engine.State) {
				st.CopyMem(built.St)
				for i := 0; listed && i < 2; i++ {
					y.Store(st, fmt.Sprintf("*uargs[%d]", i), engine.Sym(fmt.Sprintf("uarg~%d", i), types.NewInterfaceType(nil, nil)))
				}
			}, OnCall: w.hook})
		y.ContinueTokens(x)
		c.Run(y)
		if len(y.Undec) > 0 {
			c.Undecided("%s of %s is not understood: %v", name, ctor, y.Undec)
			continue
		}
		for _, e := range y.Exits {
			w.judge(c, ctor, name, m, extra, y, e)
		}
	}
}

func (w *k06walk) judge(c *Ctx, ctor, name string, m *ssa.Function, extra int64, x *engine.Interp, e *engine.Exit) {
	evs := w.events[e.St.Auto[k06trace]]
	label := strings.TrimPrefix(ctor, "ginkgo.") + "()." + name
	path := e.St.Path(10)
	count := func(kind string) (n int, last k06event) {
		for _, ev := range evs {
			if ev.kind == kind {
				n++
				last = ev
			}
		}
		return
	}
	param := func(i int) string {
		if i+1 < len(m.Params) {
			return engine.ParamSym(m.Params[i+1]).Key()
		}
		return ""
	}
	fails, fail := count("fail")
	skips, skip := count("skip")
	writes, write := count("write")
	at := func(what string, ev k06event) {
		if ev.skip == nil {
			c.Check(false, label+" location of "+what, m.Pos(), path, "%s asks for the location of no caller", what)
			return
		}
		n, ok := ev.skip.Int()
		if ev.skip.IsNil() {
			n, ok = 0, true
		}
		if !ok {
			c.Undecided("%s: the location of %s is not understood: %s", label, what, ev.skip.Key())
			return
		}
		c.Check(n == int64(ev.depth)+extra, label+" location of "+what, m.Pos(), path, "%s skips %d frames; the caller of %s is %d frames up (offset %d on top)", what, n, name, ev.depth, extra)
	}
	mentions := func(ev k06event, ps ...int) bool {
		for _, p := range ps {
			if param(p) == "" {
				continue
			}
			found := ev.text != nil && ev.text.Mentions(param(p))
			for _, a := range ev.args {
				found = found || a.Mentions(param(p))
			}
			if !found {
				return false
			}
		}
		return true
	}
	broke := ""
	for _, ev := range evs {
		if strings.HasSuffix(ev.kind, " failed") {
			broke = ev.kind
		}
		if strings.HasSuffix(ev.kind, "?") && !in(ev.kind, k06harmless) {
			c.Undecided("%s does something the rule does not know: %s", label, ev.kind)
		}
	}
	if aborts, _ := count("abortsuite"); aborts > 0 {
		c.Fail(label+" aborts", m.Pos(), path, "%s aborts the suite", name)
	}
	switch name {
	case "Error", "Errorf", "Fail", "FailNow", "Fatal", "Fatalf":
		c.Check(fails == 1 && skips == 0, label, m.Pos(), path, "%s fails the spec %d times and skips it %d times", name, fails, skips)
		if fails == 1 {
			at("the failure", fail)
			c.Check(mentions(fail, 0, 1), label+" message", m.Pos(), path, "the message %s does not hold what %s was given", fail.text.Key(), name)
		}
		return
	case "Skip", "SkipNow", "Skipf":
		c.Check(fails == 0 && skips == 1, label, m.Pos(), path, "%s fails the spec %d times and skips it %d times", name, fails, skips)
		if skips == 1 {
			at("the skip", skip)
			c.Check(mentions(skip, 0, 1), label+" message", m.Pos(), path, "the message %s does not hold what %s was given", skip.text.Key(), name)
		}
		return
	case "Log", "Logf", "Print", "Printf", "Println":
		c.Check(fails == 0 && skips == 0 && writes >= 1 && e.Kind == engine.ExitReturn, label, m.Pos(), path, "%s writes %d times, fails the spec %d times and skips it %d times", name, writes, fails, skips)
		if writes >= 1 {
			c.Check(mentions(write, 0, 1), label+" text", m.Pos(), path, "what %s writes does not hold what it was given", name)
			c.Check(write.text.Mentions("GinkgoWriter"), label+" target", m.Pos(), path, "%s writes to %s, not to the captured writer", name, write.text.Key())
		}
		return
	case "Failed", "Skipped", "Name":
		want := map[string]string{"Failed": "failed~", "Name": "fulltext~", "Skipped": "report~"}[name]
		c.Check(e.Ret != nil && (e.Ret.Mentions(want) || e.Ret.IsConst()), label, m.Pos(), path, "%s answers %v, not what the current spec's report says", name, e.Ret)
		if name == "Skipped" {
			sk, _ := c.ConstVal("types", "SpecStateSkipped").Int()
			known := e.Ret != nil && (e.Ret.IsConst() || e.Ret.Mentions(fmt.Sprint(sk)))
			c.Check(known, label+" state", m.Pos(), path, "Skipped answers %v", e.Ret)
		}
	case "Helper":
		n, h := count("helper")
		c.Check(n == 1, label, m.Pos(), path, "Helper marks %d functions", n)
		if n == 1 {
			sv, ok := h.skip.Int()
			if h.skip.IsNil() {
				sv, ok = 0, true
			}
			if ok {
				c.Check(sv == int64(h.depth), label+" location", m.Pos(), path, "Helper marks the function %d frames up, its caller is %d frames up", sv, h.depth)
			}
		}
	case "Cleanup", "DeferCleanup":
		n, cl := count("cleanup")
		if name == "DeferCleanup" && n == 1 {
			if extra == 0 {
				at("the cleanup", cl)
			}
			c.Check(len(cl.args) == 2 && cl.args[0].Key() == "uarg~0" && cl.args[1].Key() == "uarg~1", label+" arguments", m.Pos(), path, "DeferCleanup(uarg~0, uarg~1) registers %v", k06keys(cl.args))
		}
		c.Check(n == 1 && (name == "DeferCleanup" || mentions(cl, 0)), label, m.Pos(), path, "%s registers %d cleanups", name, n)
		if n == 1 && name == "Cleanup" {
			at("the cleanup", cl)
		}
	case "AddReportEntryVisibilityAlways", "AddReportEntryVisibilityFailureOrVerbose", "AddReportEntryVisibilityNever":
		n, ev := count("report")
		c.Check(n == 1 && mentions(ev, 0), label, m.Pos(), path, "%s adds %d entries", name, n)
		if n != 1 {
			break
		}
		want := "ReportEntryVisibility" + strings.TrimPrefix(name, "AddReportEntryVisibility")
		vis := c.ConstVal("types", want)
		var users []string
		for _, a := range ev.args {
			u := a.Unbox()
			switch {
			case strings.HasPrefix(u.Key(), "uarg~"):
				users = append(users, u.Key())
			case u.T != nil && strings.HasSuffix(engine.TypeStr(u.T), "ReportEntryVisibility"):
				got, ok1 := u.Int()
				exp, ok2 := vis.Int()
				c.Check(!ok1 || !ok2 || got == exp, label+" visibility", m.Pos(), path, "%s adds an entry with visibility %d, not %s", name, got, want)
			case u.T != nil && strings.HasSuffix(engine.TypeStr(u.T), "internal.Offset"):
				if ctor == "ginkgo.GinkgoT" {
					ev.skip = u
					if extra == 0 {
						at("the entry", ev)
					}
				}
			}
		}
		c.Check(strings.Join(users, " ") == "uarg~0 uarg~1", label+" arguments", m.Pos(), path, "%s passes on %v of the arguments uarg~0 uarg~1", name, users)
	}
	if name != "Setenv" && name != "Chdir" && name != "TempDir" && name != "Context" {
		c.Check(fails == 0 && skips == 0 || broke != "", label+" outcome", m.Pos(), path, "%s fails the spec %d times and skips it %d times", name, fails, skips)
	}
	// what changes the process
	if broke != "" {
		c.Check(fails == 1, label+" "+broke, m.Pos(), path, "%s and the spec is failed %d times", broke, fails)
		if fails == 1 {
			at("the failure of "+broke, fail)
		}
	}
	for i, ev := range evs {
		want := ""
		switch ev.kind {
		case "os.Setenv", "os.Unsetenv":
			isSet := ""
			for _, b := range evs[:i] {
				if (b.kind == "env set" || b.kind == "env unset") && b.args[0].Key() == ev.args[0].Key() {
					isSet = b.kind
				}
			}
			switch isSet {
			case "env set":
				want = "func os.Setenv|" + ev.args[0].Key() + "|prior~env"
			case "env unset":
				want = "func os.Unsetenv|" + ev.args[0].Key()
			default:
				c.Fail(label+" prior state", m.Pos(), path, "%s changes the environment without having looked at what was set", name)
				continue
			}
		case "os.Chdir":
			seen := false
			for _, b := range evs[:i] {
				seen = seen || b.kind == "wd"
			}
			c.Check(seen, label+" prior state", m.Pos(), path, "%s changes the directory without having looked where it was", name)
			want = "func os.Chdir|prior~wd"
		case "os.MkdirTemp":
			want = "func os.RemoveAll|tmpdir~"
		case "context":
			want = "nonnil:cancel~"
		default:
			continue
		}
		found := false
		var cl k06event
		for _, b := range evs {
			if b.kind == "cleanup" {
				found = found || k06cleanupIs(b.args, want)
				cl = b
			}
			if b.kind == "cleanup?" {
				c.Undecided("%s: the cleanup is not understood", label)
				found = true
			}
		}
		c.Check(found, label+" restores", m.Pos(), path, "after %s no cleanup restores the previous state (expected %s, registered %v)", ev.kind, want, k06keys(cl.args))
		if found && cl.kind != "" {
			at("the cleanup", cl)
		}
	}
	switch name {
	case "Setenv", "Chdir":
		kind := map[string]string{"Setenv": "os.Setenv", "Chdir": "os.Chdir"}[name]
		n, ev := count(kind)
		nf, _ := count(kind + " failed")
		c.Check(n+nf == 1 || broke != "", label, m.Pos(), path, "%s changes the process %d times", name, n+nf)
		if n == 1 {
			ok := true
			for i := range ev.args {
				ok = ok && ev.args[i].Key() == param(i)
			}
			c.Check(ok, label+" value", m.Pos(), path, "%s sets %v", name, k06keys(ev.args))
		}
	case "TempDir":
		if broke == "" {
			c.Check(e.Ret != nil && e.Ret.Key() == "tmpdir~", label, m.Pos(), path, "TempDir returns %v", e.Ret)
		}
	case "Context":
		c.Check(e.Ret != nil && e.Ret.Mentions("ctx~"), label, m.Pos(), path, "Context returns %v", e.Ret)
	}
}

func k06keys(vs []*engine.Val) []string {
	var out []string
	for _, v := range vs {
		out = append(out, v.Key())
	}
	return out
}

// k06cleanupIs: the registered callback and its arguments are the wanted ones, directly or through a closure over them.
func k06cleanupIs(args []*engine.Val, want string) bool {
	parts := strings.Split(want, "|")
	if len(args) == 0 {
		return false
	}
	if len(args) == len(parts) {
		ok := true
		for i, a := range args {
			p := parts[i]
			if strings.HasPrefix(p, "func ") {
				ok = ok && a.K == engine.VFunc && a.Fn != nil && strings.HasSuffix(a.Fn.RelString(nil), strings.TrimPrefix(p, "func "))
			} else {
				ok = ok && strings.Contains(a.Key(), p)
			}
		}
		if ok {
			return true
		}
	}
	// a closure: it has to call the wanted function; what it passes is taken from its bindings
	if f := args[0]; f.K == engine.VFunc && f.Fn != nil && len(f.Fn.Blocks) > 0 {
		for _, b := range f.Fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if cal := ci.Common().StaticCallee(); cal != nil && "func "+cal.RelString(nil) == parts[0] {
						return true
					}
					if parts[0] == "nonnil:cancel~" && ci.Common().StaticCallee() == nil {
						return true
					}
				}
			}
		}
	}
	return false
}
