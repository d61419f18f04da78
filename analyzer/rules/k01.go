package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{ID: "K01", Technique: "table evaluation: the option tables and the code that binds and re-emits them are interpreted over symbolic settings, and the resulting bindings and arguments compared per command",
		Note: "Options, settings and commands are discovered; documented names are compared with the setting they are documented to set.",
		Run:  k01})
}

// option is one name a command accepts.
type option struct {
	name string // as given on the command line
	loc  string // the setting: Config.Field
	t    types.Type
	def  string // the default handed to the flag set
	cur  string // the setting's value at that moment
	list bool
}

// documentedOptions maps documented names to the setting they are documented to control, where that is not obvious from
// the name itself.
var documentedOptions = map[string]string{
	"seed": "RandomSeed", "randomize-all": "RandomizeAllSpecs", "focus": "FocusStrings", "skip": "SkipStrings", "focus-file": "FocusFiles", "skip-file": "SkipFiles",
	"source-root": "SourceRoots", "v": "Verbose", "vv": "VeryVerbose", "trace": "FullTrace", "r": "Recurse", "compilers": "NumCompilers", "nodes": "Procs", "p": "Parallel",
	"execution-trace": "Trace", "json-report": "JSONReport", "junit-report": "JUnitReport", "watch-regexp": "WatchRegExp", "cpuprofile": "CPUProfile", "asmflags": "ASMFlags",
	"parallel.process": "ParallelProcess", "parallel.total": "ParallelTotal", "parallel.host": "ParallelHost", "reportFile": "JUnitReport", "afterSuiteHook": "AfterRunHook",
	"debug": "DebugParallel", "progress": "EmitSpecProgress", "slowSpecThreshold": "SlowSpecThresholdWithFLoatUnits",
}

// goTestOptions are the options of the go command's test binaries the tables may name.
var goTestOptions = strings.Fields("bench benchmem benchtime blockprofile blockprofilerate count coverprofile cpu cpuprofile failfast fullpath gocoverdir list memprofile memprofilerate mutexprofile mutexprofilefraction outputdir paniconexit0 parallel run short shuffle skip timeout trace v")

func normName(s string) string {
	return strings.ToLower(strings.NewReplacer("-", "", ".", "", "_", "").Replace(s))
}

func k01(c *Ctx) {
	c.Rule("bindings", "for every command, each declared option is bound to an existing setting of a supported type, with the setting's own value as default, and no name is used twice")
	sets := map[string][]option{}
	var builders []string
	for _, fn := range c.P.Funcs {
		if fn.Pkg == nil || !strings.HasSuffix(fn.Pkg.Pkg.Path(), "/types") || fn.Parent() != nil || fn.Signature.Recv() != nil || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		res := fn.Signature.Results()
		if res.Len() != 2 || !strings.HasSuffix(engine.TypeStr(res.At(0).Type()), ".GinkgoFlagSet") || fn.Signature.Params().Len() == 0 {
			continue
		}
		cfg := true
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			p, ok := fn.Signature.Params().At(i).Type().(*types.Pointer)
			if !ok {
				cfg = false
				break
			}
			if _, isS := p.Elem().Underlying().(*types.Struct); !isS {
				cfg = false
			}
		}
		if !cfg {
			continue
		}
		builders = append(builders, fn.Name())
		if opts, ok := k01bindings(c, fn); ok {
			sets[fn.Name()] = opts
		}
	}
	sort.Strings(builders)
	c.Floor(200)
	c.Rule("documented", "each option is bound to the setting its name stands for")
	for _, b := range builders {
		for _, o := range sets[b] {
			name := strings.TrimPrefix(o.name, "ginkgo.")
			field := o.loc[strings.LastIndex(o.loc, ".")+1:]
			want, ok := documentedOptions[name]
			if !ok {
				want = name
			}
			c.Check(normName(want) == normName(field), b+": --"+o.name+" sets "+want, token.NoPos, nil, "%s binds --%s to %s", b, o.name, o.loc)
		}
	}
	c.Floor(200)
	run, test := sets["BuildRunCommandFlagSet"], sets["BuildTestSuiteFlagSet"]
	if run == nil || test == nil {
		c.Undecided("the run command's and the test process's options")
		return
	}
	c.Rule("passed-on", "every option of the run command for the test process is passed on under the name the test process binds to the same setting, losing nothing; go options reach the compiler or the test binary")
	c.Rule("defaults", "a setting at its zero value is passed on exactly when the test process would otherwise use another value")
	k01passed(c, run, test)
	c.Rule("passed-on", "")
	c.Floor(60)
	c.Rule("defaults", "")
	c.Floor(30)
	c.Rule("slices", "an option given several times adds each value to its setting, in order")
	k01slices(c)
	c.Floor(1)
	c.Rule("on-the-way", "the settings handed to the test process are the parsed ones, changed only where the runner itself decides them")
	k01runner(c)
	c.Floor(10)
}

func k01bindings(c *Ctx, fn *ssa.Function) (opts []option, ok bool) {
	args := make([]*engine.Val, len(fn.Params))
	for i, p := range fn.Params {
		n := engine.TypeStr(p.Type().(*types.Pointer).Elem())
		args[i] = engine.PtrTo(n[strings.LastIndex(n, ".")+1:], p.Type())
	}
	typeOf := map[string]string{}
	var x *engine.Interp
	x = engine.New(c.P, engine.Cfg{Root: fn, Args: args, Linear: true, Lists: 400, Budget: 400000, OnBranch: onKnownBranch,
		OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			if outs, ok := reflectModel(k); ok {
				return outs, true
			}
			if outs, ok := textModel(k); ok {
				return outs, true
			}
			switch {
			case strings.HasPrefix(k.Name, "(*flag.FlagSet).") && strings.HasSuffix(k.Name, "Var") && len(k.Args) >= 4:
				o := option{name: "?"}
				if s, ok := k.Args[2].Str(); ok {
					o.name = s
				}
				if k.Name == "(*flag.FlagSet).Var" {
					if s, ok := k.Args[2].Str(); ok {
						o.name = s
					}
					v := k.Args[1].Unbox()
					var rv *engine.Val
					v.Walk(func(w *engine.Val) {
						if w.K == engine.VExpr && w.S == "raddr" {
							rv = w
						}
						if w.K == engine.VPtr && rv == nil {
							rv = engine.Expr("raddr", nil, w)
						}
					})
					if rv != nil {
						o.loc, _ = k.X.Deref(rv.Args[0])
						o.t, o.list = rvType(rv), true
					}
				} else {
					o.loc, _ = k.X.Deref(k.Args[1])
					if p, ok := k.Args[1].T.Underlying().(*types.Pointer); ok {
						o.t = p.Elem()
					}
					if len(k.Args) > 3 && o.t != nil {
						o.def = k.Args[3].Key()
						o.cur = k.X.Load(k.St, o.loc, o.t).Key()
					}
				}
				if i := strings.Index(o.loc, "."); i >= 0 && strings.HasPrefix(o.loc, "alloc") {
					t := typeOf[o.loc[:i]]
					if t == "" {
						t = "deprecatedConfig"
					}
					o.loc = t + o.loc[i:]
				}
				opts = append(opts, o)
				return k.Return(nil), true
			}
			return nil, false
		}})
	c.Run(x)
	n, bad := 0, ""
	var pos token.Pos
	for _, e := range x.Exits {
		if e.Kind == engine.ExitPanic {
			n++
			bad, pos = "panics", e.Pos
		}
		if e.Kind == engine.ExitReturn {
			n++
			if e.Ret == nil || e.Ret.K != engine.VTuple || len(e.Ret.Args) != 2 {
				n += 2
			} else if k := e.Ret.Args[1]; !k.IsNil() {
				bad, pos = "fails with an error", e.Pos
				if strings.Contains(k.Key(), "nonnil:") && len(opts) > 0 {
					bad += " after --" + opts[len(opts)-1].name
				}
			}
		}
	}
	if n != 1 || len(x.Undec) > 0 {
		c.Undecided("what %s binds (%d outcomes, %v)", fn.Name(), n, x.Undec)
		return nil, false
	}
	c.Check(bad == "", fn.Name()+" binds all its options", pos, nil, "%s %s: an option is bound to no setting, or to one of an unsupported type", fn.Name(), bad)
	if bad != "" {
		return nil, false
	}
	seen := map[string]bool{}
	for _, o := range opts {
		if o.name == "?" || o.loc == "" || o.t == nil {
			c.Undecided("an option of %s (%+v)", fn.Name(), o)
			return nil, false
		}
		c.Check(!seen[o.name], fn.Name()+": --"+o.name+" declared once", fn.Pos(), nil, "%s declares --%s more than once", fn.Name(), o.name)
		seen[o.name] = true
		if !o.list {
			c.Check(o.def == o.cur, fn.Name()+": --"+o.name+" default", fn.Pos(), nil, "%s gives --%s the default %s, replacing the setting's value %s", fn.Name(), o.name, o.def, o.cur)
		}
	}
	return opts, len(opts) > 0
}

// k01args lists what an argument generator emits for given settings.
func k01args(c *Ctx, fn *ssa.Function, zero bool) (out []string, ok bool) {
	args := make([]*engine.Val, len(fn.Params))
	var x *engine.Interp
	for i, p := range fn.Params {
		args[i] = engine.Sym("set:"+p.Name(), p.Type())
		if _, isS := p.Type().Underlying().(*types.Struct); isS {
			args[i] = engine.Nil(p.Type())
		}
	}
	x = engine.New(c.P, engine.Cfg{Root: fn, Args: args, Linear: true, Lists: 400, Budget: 400000, OnBranch: onKnownBranch,
		OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			if outs, ok := reflectModel(k); ok {
				return outs, true
			}
			if k.Name == "strings.HasPrefix" && len(k.Args) == 2 && strings.HasPrefix(k.Args[0].Key(), "set:") {
				return k.Return(engine.BoolVal(false)), true
			}
			return textModel(k)
		}})
	st := args
	x.Cfg.Init = func(s *engine.State) {
		for i, p := range fn.Params {
			if _, isS := p.Type().Underlying().(*types.Struct); isS && !zero {
				n := engine.TypeStr(p.Type())
				*st[i] = *settings(x, s, n[strings.LastIndex(n, ".")+1:], p.Type())
			}
		}
	}
	c.Run(x)
	n := 0
	for _, e := range x.Exits {
		if e.Kind != engine.ExitReturn {
			continue
		}
		n++
		if e.Ret == nil || e.Ret.K != engine.VTuple || len(e.Ret.Args) != 2 {
			return nil, false
		}
		if !e.Ret.Args[1].IsNil() {
			c.Undecided("%s reports an error", fn.Name())
			return nil, false
		}
		es, isL := x.Elems(e.St, e.Ret.Args[0])
		if !isL && e.Ret.Args[0].Key() != "empty" {
			return nil, false
		}
		var mine []string
		for _, a := range es {
			s, known := renderText(a)
			if !known {
				return nil, false
			}
			mine = append(mine, s)
		}
		if n > 1 && strings.Join(mine, "\n") != strings.Join(out, "\n") {
			c.Undecided("%s emits different arguments", fn.Name())
			return nil, false
		}
		out = mine
	}
	return out, n > 0 && len(x.Undec) == 0
}

// lossless says with which verbs a value of type t can be printed so that parsing it yields the value again.
func lossless(t types.Type, verb string) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Name() == "Duration" {
		return verb == "s" || verb == "v"
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch {
	case b.Info()&types.IsString != 0:
		return verb == "s" || verb == "v"
	case b.Info()&types.IsInteger != 0:
		return verb == "d" || verb == "v"
	case b.Info()&types.IsFloat != 0:
		return verb == "g" || verb == "v"
	case b.Info()&types.IsBoolean != 0:
		return verb == "t" || verb == "v"
	}
	return false
}

func k01passed(c *Ctx, run, test []option) {
	gen, comp := c.Fn("types.GenerateGinkgoTestRunArgs"), c.Fn("types.GenerateGoTestCompileArgs")
	if gen == nil || comp == nil {
		return
	}
	c.Rule("passed-on", "")
	out, ok := k01args(c, gen, false)
	if !ok {
		c.Undecided("what %s emits", gen.Name())
		return
	}
	cargs, ok2 := k01args(c, comp, false)
	if !ok2 {
		c.Undecided("what %s emits", comp.Name())
	}
	zero, ok3 := k01args(c, gen, true)
	if !ok3 {
		c.Undecided("what %s emits for zero settings", gen.Name())
	}
	type arg struct{ name, val string }
	parse := func(l []string) (as []arg) {
		for _, s := range l {
			if !strings.HasPrefix(s, "--") {
				continue
			}
			n, v, has := strings.Cut(s[2:], "=")
			if !has {
				v = "<bare>"
			}
			as = append(as, arg{n, v})
		}
		return as
	}
	emitted, compiled := parse(out), parse(cargs)
	bound := map[string]option{}
	for _, o := range test {
		bound[o.name] = o
	}
	// what the test process is given, it understands
	for _, a := range emitted {
		if g, ok := strings.CutPrefix(a.name, "test."); ok {
			known := false
			for _, n := range goTestOptions {
				known = known || n == g
			}
			c.Check(known, "test binaries know --"+a.name, gen.Pos(), nil, "the test process is passed --%s, which go test binaries do not know", a.name)
			continue
		}
		_, known := bound[a.name]
		c.Check(known, "the test process accepts --"+a.name, gen.Pos(), nil, "the test process is passed --%s, which it does not declare", a.name)
	}
	shown := func(as []arg, loc string, t types.Type, list bool, names ...string) (string, bool) {
		var got []string
		for _, a := range as {
			for _, n := range names {
				if a.name == n {
					got = append(got, a.val)
					break
				}
			}
		}
		desc := strings.Join(got, ", ")
		if list {
			fine := len(got) == 2
			for i, g := range got {
				verb, ok := strings.CutPrefix(strings.TrimSuffix(g, "›"), fmt.Sprintf("‹set:%s~%d|", loc, i))
				fine = fine && (g == fmt.Sprintf("‹set:%s~%d›", loc, i) || ok && (verb == "s" || verb == "v"))
			}
			return desc, fine
		}
		if len(got) != 1 {
			return desc, false
		}
		if b, isB := t.Underlying().(*types.Basic); isB && b.Kind() == types.Bool {
			return desc, got[0] == "<bare>" || got[0] == "true"
		}
		v := strings.TrimSuffix(strings.TrimPrefix(got[0], "‹set:"), "›")
		l, verb, has := strings.Cut(v, "|")
		if !has {
			verb = "s"
		}
		return desc, l == loc && lossless(t, verb)
	}
	def := k01defaults(c)
	for _, o := range run {
		cfg, _, _ := strings.Cut(o.loc, ".")
		current := ""
		for _, q := range run { // a deprecated spelling is passed on under the current one
			if q.loc == o.loc && (current == "" || emittedAs(func(n string) bool {
				for _, a := range emitted {
					if a.name == n {
						return true
					}
				}
				return false
			}, q.name)) {
				current = q.name
			}
		}
		switch cfg {
		case "SuiteConfig", "ReporterConfig":
			c.Rule("passed-on", "")
			name := "ginkgo." + current
			desc, fine := shown(emitted, o.loc, o.t, o.list, name)
			c.Check(fine, "--"+o.name+" is passed on", gen.Pos(), nil, "the run command accepts --%s for %s, but the test process is given --%s = %q", o.name, o.loc, name, desc)
			b, known := bound[name]
			c.Check(known && b.loc == o.loc, "--"+name+" is bound to the same setting", gen.Pos(), nil, "the run command binds --%s to %s; the test process binds --%s to %q", o.name, o.loc, name, b.loc)
			if !ok3 || def == nil {
				continue
			}
			c.Rule("defaults", "")
			passed := false
			for _, a := range parse(zero) {
				passed = passed || a.name == name
			}
			d, isDef := def[o.loc]
			if !isDef {
				continue
			}
			c.Check(passed == d, "--"+o.name+" at zero", gen.Pos(), nil, "--%s set to zero: passed to the test process: %v; the test process's own default differs from zero: %v", o.name, passed, d)
		case "GoFlagsConfig":
			if !ok2 {
				continue
			}
			c.Rule("passed-on", "")
			field := o.loc[strings.Index(o.loc, ".")+1:]
			_, runs := shown(emitted, o.loc, o.t, o.list, "test."+o.name, "test."+strings.ToLower(field))
			_, comps := shown(compiled, o.loc, o.t, o.list, o.name)
			if !comps {
				for _, a := range compiled { // adjusted on the way: still the same setting
					comps = comps || a.name == o.name && strings.Contains(a.val, "‹set:"+o.loc)
				}
			}
			c.Check(runs || comps, "go option --"+o.name+" is passed on", gen.Pos(), nil, "the run command accepts --%s but gives it neither to the compiler nor to the test binary", o.name)
		}
	}
}

func emittedAs(has func(string) bool, name string) bool { return has("ginkgo." + name) }

// k01defaults tells for every setting of the suite and reporter whether its default differs from its zero value.
func k01defaults(c *Ctx) map[string]bool {
	out := map[string]bool{}
	for _, n := range []string{"SuiteConfig", "ReporterConfig"} {
		fn := c.Fn("types.NewDefault" + n)
		if fn == nil {
			return nil
		}
		x := engine.New(c.P, engine.Cfg{Root: fn, Linear: true, Budget: 2000})
		c.Run(x)
		if len(x.Exits) != 1 || x.Exits[0].Kind != engine.ExitReturn || len(x.Undec) > 0 {
			c.Undecided("the defaults of %s", n)
			return nil
		}
		s, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for i := 0; i < s.NumFields(); i++ {
			v := x.FieldOf(x.Exits[0].St, x.Exits[0].Ret, s.Field(i).Name())
			if v == nil {
				continue
			}
			z := v.IsNil() || v.Key() == "0" || v.Key() == `""` || v.Key() == "false"
			out[n+"."+s.Field(i).Name()] = !z
		}
	}
	return out
}

func k01slices(c *Ctx) {
	for _, fn := range c.P.Funcs {
		if fn.Pkg == nil || !strings.HasSuffix(fn.Pkg.Pkg.Path(), "/types") || fn.Name() != "Set" || fn.Signature.Recv() == nil || fn.Signature.Params().Len() != 1 || fn.Synthetic != "" {
			continue
		}
		if b, ok := fn.Signature.Params().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
			continue
		}
		rs, ok := fn.Params[0].Type().Underlying().(*types.Struct)
		if !ok || rs.NumFields() != 1 {
			c.Undecided("%s", c.P.CalleeName(fn))
			continue
		}
		strs := types.NewSlice(types.Typ[types.String])
		p := engine.PtrTo("*setting", types.NewPointer(strs))
		held := p
		if !types.Identical(rs.Field(0).Type(), p.T) {
			held = engine.Expr("raddr", rs.Field(0).Type(), p)
		}
		var x *engine.Interp
		x = engine.New(c.P, engine.Cfg{Root: fn, Linear: true, Budget: 3000,
			Args: []*engine.Val{engine.Agg(engine.Nil(fn.Params[0].Type()), map[string]*engine.Val{rs.Field(0).Name(): held}, fn.Params[0].Type()), engine.Sym("new", types.Typ[types.String])},
			Init: func(st *engine.State) {
				x.Store(st, "*old[0]", engine.Sym("old0", types.Typ[types.String]))
				x.Store(st, "*old[1]", engine.Sym("old1", types.Typ[types.String]))
				x.Store(st, "*setting", engine.SliceAt("*old", 2, strs))
			},
			OnCall: reflectModel})
		c.Run(x)
		if len(x.Undec) > 0 || len(x.Exits) != 1 || x.Exits[0].Kind != engine.ExitReturn {
			c.Undecided("what %s does", c.P.CalleeName(fn))
			continue
		}
		e := x.Exits[0]
		es, ok := x.Elems(e.St, x.Load(e.St, "*setting", strs))
		if !ok {
			c.Undecided("what %s leaves", c.P.CalleeName(fn))
			continue
		}
		var got []string
		for _, v := range es {
			got = append(got, v.Key())
		}
		c.Check(strings.Join(got, ",") == "old0,old1,new" && e.Ret.IsNil(), "a repeated option appends", fn.Pos(), nil, "giving a list option again leaves %v (error %s)", got, e.Ret.Key())
	}
}

// k01runner follows the settings from the run command to the arguments of the test process.
func k01runner(c *Ctx) {
	gen := c.Fn("types.GenerateGinkgoTestRunArgs")
	root := c.Fn("ginkgo/internal.RunCompiledSuite")
	if gen == nil || root == nil {
		return
	}
	decided := map[string]bool{"ParallelProcess": true, "ParallelTotal": true, "ParallelHost": true}
	adapted := map[string]bool{"JSONReport": true, "JUnitReport": true, "TeamcityReport": true, "CoverProfile": true, "BlockProfile": true, "CPUProfile": true, "MemProfile": true, "MutexProfile": true, "Trace": true}
	calls := 0
	args := map[string]bool{}
	x := engine.New(c.P, engine.Cfg{Root: root, Budget: 150000,
		Opaque: func(f *ssa.Function) bool {
			n := c.P.CalleeName(f)
			return f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/types") || strings.HasSuffix(n, ".AbsPathForGeneratedAsset")
		},
		OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			if strings.HasSuffix(k.Name, ".AbsPathForGeneratedAsset") && len(k.Args) > 0 {
				return k.Return(engine.Sym("asset:"+k.Args[0].Key(), k.T)), true
			}
			switch {
			case k.Fn == gen:
				calls++
				for i, p := range gen.Params {
					s, ok := p.Type().Underlying().(*types.Struct)
					if !ok {
						continue
					}
					n := engine.TypeStr(p.Type())
					n = n[strings.LastIndex(n, ".")+1:]
					for j := 0; j < s.NumFields(); j++ {
						f := s.Field(j).Name()
						v := k.X.FieldOf(k.St, k.Args[i], f)
						if v == nil {
							continue
						}
						own := ""
						for _, rp := range root.Params {
							if types.Identical(rp.Type(), p.Type()) {
								own = engine.ParamSym(rp).Key() + "." + f
							}
						}
						if own == "" || decided[f] {
							continue
						}
						key := v.Key()
						fine := key == own || adapted[f] && (strings.Contains(key, own) || v.K == engine.VSym && !strings.HasPrefix(v.S, "asset:"))
						if key != own && v.K == engine.VSym && v.S != own && !adapted[f] && strings.Contains(v.S, "#") {
							c.Undecided("%s.%s as passed to the test process", n, f)
							continue
						}
						c.Check(fine, n+"."+f+" reaches the test process", k.Instr.Pos(), k.St.Path(12), "the test process is started with %s.%s = %s, not the given %s", n, f, key, own)
					}
				}
				tup := k.T.(*types.Tuple)
				k.X.Store(k.St, "*generated[0]", engine.Sym("generated-argument", types.Typ[types.String]))
				return k.Return(engine.Tuple(engine.SliceAt("*generated", 1, tup.At(0).Type()), engine.Nil(tup.At(1).Type()))), true
			case k.Name == "os/exec.Command":
				if len(k.Args) != 2 {
					return nil, false
				}
				key := k.Args[1].Key()
				if es, ok := k.X.Elems(k.St, k.Args[1]); ok {
					key = ""
					for _, e := range es {
						key += " " + e.Key()
					}
				}
				args[key] = true
				k.St.Stop()
			}
			return nil, false
		}})
	c.Run(x)
	if len(x.Undec) > 0 {
		c.Undecided("the runner's handling of settings: %v", x.Undec)
	}
	if calls == 0 {
		c.Undecided("no test process is started with generated arguments")
	}
	passed := false
	for k := range args {
		passed = passed || strings.Contains(k, "generated")
	}
	c.Check(passed || calls == 0, "the generated arguments are the test process's arguments", root.Pos(), nil, "the generated arguments are not among those a process is started with: %v", sortedKeys(args))

	k01commands(c)
}

// k01commands: what the commands change between parsing and starting.
func k01commands(c *Ctx) {
	may := map[string]string{"SuiteConfig.RandomSeed": "seed", "SuiteConfig.Timeout": "", "ReporterConfig.Succinct": "succinct"}
	var roots []*ssa.Function
	if fn := c.Fn("(*ginkgo/run.SpecRunner).RunSpecs"); fn != nil {
		roots = append(roots, fn)
	}
	for _, fn := range c.P.Funcs { // the watcher's loop is not followed: its functions are looked at one by one
		if fn.Pkg != nil && strings.HasSuffix(fn.Pkg.Pkg.Path(), "/ginkgo/watch") && changesSettings(fn) {
			roots = append(roots, fn)
		}
	}
	for _, fn := range roots {
		n := 0
		x := engine.New(c.P, engine.Cfg{Root: fn, Budget: 120000,
			Opaque:    func(f *ssa.Function) bool { return f.Pkg != fn.Pkg },
			Track:     func(string) bool { return false },
			TrackFact: func(v *engine.Val) bool { return strings.Contains(v.Key(), "wasset:") },
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				if strings.HasSuffix(k.Name, "GinkgoFlagSet).WasSet") && len(k.Args) == 2 {
					if s, ok := k.Args[1].Str(); ok {
						return k.Return(engine.Sym("wasset:"+s, k.T)), true
					}
				}
				return nil, false
			},
			OnStore: func(x *engine.Interp, st *engine.State, in ssa.Instruction, loc string, old, v *engine.Val) {
				f, ok := settingsStore(in)
				if !ok {
					return
				}
				n++
				opt, allowed := may[f]
				c.Check(allowed, fn.Name()+" leaves "+f+" as given", in.Pos(), st.Path(12), "%s changes %s after it was parsed", c.P.CalleeName(in.Parent()), f)
				if allowed && opt != "" && (v == nil || v.Key() != "false") && (fn.Name() == "RunSpecs" || asksWhether(fn, opt)) {
					set, known := st.FactBool("wasset:" + opt)
					c.Check(known && !set, fn.Name()+" changes "+f+" only when --"+opt+" was not given", in.Pos(), st.Path(12), "%s changes %s although --%s may have been given", c.P.CalleeName(in.Parent()), f, opt)
				}
			}})
		c.Run(x)
		if len(x.Undec) > 0 {
			c.Undecided("what %s does to the settings: %v", fn.Name(), x.Undec)
		}
		if n == 0 {
			c.Undecided("%s changes no setting", fn.Name())
		}
	}
}

// asksWhether: fn itself looks at whether the option was given.
func asksWhether(fn *ssa.Function, opt string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() != nil && call.Call.StaticCallee().Name() == "WasSet" && len(call.Call.Args) == 2 {
				if k, ok := call.Call.Args[1].(*ssa.Const); ok && k.Value != nil && strings.Trim(k.Value.ExactString(), `"`) == opt {
					return true
				}
			}
		}
	}
	return false
}

func settingsStore(in ssa.Instruction) (field string, ok bool) {
	s, ok := in.(*ssa.Store)
	if !ok {
		return "", false
	}
	fa, ok := s.Addr.(*ssa.FieldAddr)
	if !ok {
		return "", false
	}
	st := fa.X.Type().Underlying().(*types.Pointer).Elem()
	t := engine.TypeStr(st)
	if t != "types.SuiteConfig" && t != "types.ReporterConfig" {
		return "", false
	}
	return strings.TrimPrefix(t, "types.") + "." + st.Underlying().(*types.Struct).Field(fa.Field).Name(), true
}

func changesSettings(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := settingsStore(in); ok {
				return true
			}
		}
	}
	return false
}

func lastInstr(b *ssa.BasicBlock) ssa.Instruction {
	if len(b.Instrs) == 0 {
		return nil
	}
	return b.Instrs[len(b.Instrs)-1]
}
