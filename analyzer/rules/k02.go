package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{ID: "K02", Technique: "abstract interpretation of the two vetting functions over a table of settings (every setting at each of its classes of values, alone and in pairs; triples in the thorough tier) against the documented conflicts, and of every caller with vetting passing and failing: on the failing path nothing is built or run",
		Note: "Each setting takes one representative of each class of values; combinations beyond pairs (triples) are left open except for the parallel settings, which are combined fully.",
		Run:  k02})
}

func k02(c *Ctx) {
	c.Rule("process-settings", "the settings of a test process are rejected exactly when they conflict or are out of range")
	k02process(c)
	c.Floor(600)
	c.Rule("command-settings", "the settings of the command are rejected exactly when they conflict, name a path where a file name is expected, or the output directory cannot be made")
	k02command(c)
	c.Floor(30)
	c.Rule("suite-vetted", "no tree is built and no suite run by RunSpecs or PreviewSpecs unless the very settings it runs with were vetted without error and every argument was of a known type")
	k02suite(c)
	c.Floor(20)
	c.Rule("commands-vetted", "no suite is looked for, built or run by a command unless its settings were vetted without error, and what runs gets the settings vetting returned")
	k02commands(c)
	c.Floor(6)
	c.Rule("flags-vetted", "a command whose flags do not parse, or that is given a flag after a package, leaves with a failing status before it starts")
	k02flags(c)
	c.Floor(3)
}

// a setting and the classes of its values; the first is the default.
type k02dim struct {
	field string
	vals  []string
}

var k02dims = []k02dim{
	{"ParallelTotal", []string{"1", "2", "0", "-1", "3"}},
	{"ParallelProcess", []string{"1", "2", "0", "-1", "3", "4"}},
	{"ParallelHost", []string{"", "host"}},
	{"DryRun", []string{"", "t"}},
	{"GracePeriod", []string{"30", "1", "0", "-1"}},
	{"FocusFiles", []string{"", "ok", "bad"}},
	{"SkipFiles", []string{"", "ok", "bad"}},
	{"LabelFilter", []string{"", "a && !b", "a &&", "(a"}},
	{"OutputInterceptorMode", []string{"", "dup", "SWAP", "None", "both"}},
	{"Succinct", []string{"", "t"}},
	{"Verbose", []string{"", "t"}},
	{"VeryVerbose", []string{"", "t"}},
	{"FailFast", []string{"", "t"}},
	{"flag", []string{"", "test.count=1", "test.count=2", "test.count=0", "count=2", "count=1", "test.parallel=4", "parallel=1", "test.count=x"}},
}

type k02set map[string]string

func (s k02set) get(f string) string {
	if v, ok := s[f]; ok {
		return v
	}
	for _, d := range k02dims {
		if d.field == f {
			return d.vals[0]
		}
	}
	return ""
}

func (s k02set) name() string {
	var out []string
	for _, d := range k02dims {
		if v, ok := s[d.field]; ok {
			out = append(out, fmt.Sprintf("%s=%q", d.field, v))
		}
	}
	if len(out) == 0 {
		return "the defaults"
	}
	return strings.Join(out, " ")
}

// wrong lists why the settings are invalid.
func (s k02set) wrong() []string {
	var out []string
	num := func(f string) int {
		n := 0
		fmt.Sscanf(s.get(f), "%d", &n)
		return n
	}
	add := func(b bool, why string) {
		if b {
			out = append(out, why)
		}
	}
	total, proc := num("ParallelTotal"), num("ParallelProcess")
	add(total < 1, "fewer than one process")
	add(proc < 1 || proc > total, "process number out of range")
	add(total > 1 && s.get("ParallelHost") == "", "a parallel run without a coordinator")
	add(total > 1 && s.get("DryRun") != "", "a dry run in parallel")
	add(num("GracePeriod") <= 0, "no grace period")
	add(s.get("FocusFiles") == "bad", "malformed focus files")
	add(s.get("SkipFiles") == "bad", "malformed skip files")
	add(strings.HasSuffix(s.get("LabelFilter"), "&&") || s.get("LabelFilter") == "(a", "a malformed label filter")
	add(s.get("OutputInterceptorMode") == "both", "an unknown interceptor mode")
	v := 0
	for _, f := range []string{"Succinct", "Verbose", "VeryVerbose"} {
		if s.get(f) != "" {
			v++
		}
	}
	add(v > 1, "conflicting verbosity")
	switch f := s.get("flag"); f {
	case "", "test.count=1", "count=1":
	default:
		add(true, "go test's "+f)
	}
	return out
}

func k02combos(thorough bool) []k02set {
	var out []k02set
	seen := map[string]bool{}
	put := func(s k02set) {
		for f, v := range s {
			if (k02set{}).get(f) == v {
				delete(s, f)
			}
		}
		if n := s.name(); !seen[n] {
			seen[n] = true
			out = append(out, s)
		}
	}
	put(k02set{})
	// the parallel settings in full
	for _, t := range k02dims[0].vals {
		for _, p := range k02dims[1].vals {
			for _, h := range k02dims[2].vals {
				for _, d := range k02dims[3].vals {
					put(k02set{"ParallelTotal": t, "ParallelProcess": p, "ParallelHost": h, "DryRun": d})
				}
			}
		}
	}
	for m := 0; m < 8; m++ {
		s := k02set{}
		for i, f := range []string{"Succinct", "Verbose", "VeryVerbose"} {
			if m>>i&1 == 1 {
				s[f] = "t"
			}
		}
		put(s)
	}
	n := len(k02dims)
	for i := 0; i < n; i++ {
		for _, a := range k02dims[i].vals[1:] {
			put(k02set{k02dims[i].field: a})
			for j := i + 1; j < n; j++ {
				for _, b := range k02dims[j].vals[1:] {
					put(k02set{k02dims[i].field: a, k02dims[j].field: b})
					if !thorough {
						continue
					}
					for l := j + 1; l < n; l++ {
						for _, d := range k02dims[l].vals[1:] {
							put(k02set{k02dims[i].field: a, k02dims[j].field: b, k02dims[l].field: d})
						}
					}
				}
			}
		}
	}
	return out
}

func k02process(c *Ctx) {
	fn := c.Fn("types.VetConfig")
	if fn == nil {
		return
	}
	for _, n := range []string{"(types.GinkgoFlagSet).WasSet", "(types.GinkgoFlagSet).Lookup"} {
		if c.Fn(n) == nil {
			return
		}
	}
	var scT, rcT, fsT types.Type = c.Type("types", "SuiteConfig"), c.Type("types", "ReporterConfig"), c.Type("types", "GinkgoFlagSet")
	for _, s := range k02combos(c.Tier == "thorough") {
		flagName, flagVal := "", ""
		if f := s.get("flag"); f != "" {
			flagName, flagVal, _ = strings.Cut(f, "=")
		}
		lists := map[string][]string{}
		struc := func(t types.Type) *engine.Val {
			f := map[string]*engine.Val{}
			for _, d := range k02dims {
				ft := fieldOfType(t, d.field)
				if ft == nil {
					continue
				}
				v := s.get(d.field)
				switch u := ft.Underlying().(type) {
				case *types.Slice:
					l := []string(nil)
					switch v {
					case "ok":
						l = []string{"a_test.go:3", "b"}
					case "bad":
						l = []string{"b", "a:x"}
					}
					lists[d.field] = l
					f[d.field] = engine.SliceAt("*"+d.field+"~", len(l), ft)
				case *types.Basic:
					switch {
					case u.Info()&types.IsBoolean != 0:
						f[d.field] = engine.BoolVal(v != "")
					case u.Info()&types.IsInteger != 0:
						n := 0
						fmt.Sscanf(v, "%d", &n)
						f[d.field] = engine.IntVal(int64(n), ft)
					case u.Info()&types.IsString != 0:
						f[d.field] = strVal(v)
					}
				}
			}
			return engine.Agg(engine.Nil(t), f, t)
		}
		args := make([]*engine.Val, len(fn.Params))
		for i, p := range fn.Params {
			switch {
			case types.Identical(p.Type(), scT):
				args[i] = struc(scT)
			case types.Identical(p.Type(), rcT):
				args[i] = struc(rcT)
			case types.Identical(p.Type(), fsT):
				args[i] = engine.Sym("flags~", fsT)
			}
		}
		base := k03interp(c, fn, nil, args, func(x *engine.Interp, st *engine.State) {
			for f, l := range lists {
				for i, e := range l {
					x.Store(st, fmt.Sprintf("*%s~[%d]", f, i), strVal(e))
				}
			}
		})
		text := base.Cfg.OnCall
		base.Cfg.OnCall = func(k *engine.Call) ([]engine.Outcome, bool) {
			switch {
			case k.Name == "(types.GinkgoFlagSet).WasSet" && len(k.Args) == 2:
				n, ok := k.Args[1].Str()
				if !ok {
					return nil, false
				}
				return k.Return(engine.BoolVal(n == flagName)), true
			case k.Name == "(types.GinkgoFlagSet).Lookup" && len(k.Args) == 2:
				n, ok := k.Args[1].Str()
				if !ok {
					return nil, false
				}
				if n != flagName {
					return k.Return(engine.Nil(k.T)), true
				}
				return k.Return(engine.Sym("nonnil:flag~", k.T)), true
			case strings.HasSuffix(k.Name, "Value.String"):
				return k.Return(strVal(flagVal)), true
			}
			return text(k)
		}
		c.Run(base)
		k02judge(c, base, s.name(), s.wrong(), 0)
	}
}

// k02judge compares the errors of the single way out with the reasons the settings are invalid.
func k02judge(c *Ctx, x *engine.Interp, name string, wrong []string, at int) {
	if len(x.Undec) > 0 {
		c.Undecided("%s: no answer: %s", name, x.Undec[0])
		return
	}
	var first *engine.Exit
	firstN, with, without := 0, 0, 0
	for _, out := range x.Exits {
		if out.Kind == engine.ExitStop {
			continue
		}
		if out.Kind != engine.ExitReturn {
			c.Fail(name+" does not return", out.Pos, out.St.Path(8), "vetting %s leaves by %s", name, out.Kind)
			return
		}
		list := out.Ret
		if list != nil && list.K == engine.VTuple {
			list = list.Args[at]
		}
		es, ok := x.Elems(out.St, list)
		if !ok {
			c.Undecided("%s: the errors %v are not known", name, list)
			return
		}
		for _, e := range es {
			set, known := nonNil(e)
			if !known {
				c.Undecided("%s: error %v not known", name, e)
				return
			}
			if !set {
				c.Fail(name+" nil error", out.Pos, out.St.Path(8), "vetting %s yields a nil error", name)
				return
			}
		}
		if first == nil {
			first, firstN = out, len(es)
		}
		if len(es) > 0 {
			with++
		} else {
			without++
		}
	}
	if first == nil || with > 0 && without > 0 {
		c.Undecided("%s: no single answer (%d ways with and %d without an error)", name, with, without)
		return
	}
	if len(wrong) > 0 {
		c.Check(with > 0, "rejects "+name, first.Pos, first.St.Path(8), "%s is accepted although there is %s", name, strings.Join(wrong, " and "))
		return
	}
	c.Check(without > 0, "accepts "+name, first.Pos, first.St.Path(8), "%s is valid and yields %d error(s)", name, firstN)
}

func k02command(c *Ctx) {
	fn := c.Fn("types.VetAndInitializeCLIAndGoConfig")
	if fn == nil {
		return
	}
	var cliT, goT types.Type = c.Type("types", "CLIConfig"), c.Type("types", "GoFlagsConfig")
	profiles := []string{"CoverProfile", "CPUProfile", "MemProfile", "BlockProfile", "MutexProfile"}
	type scene struct {
		name, wrong string
		cli, gof    map[string]*engine.Val
		mkdirFails  bool
	}
	var scenes []scene
	one := engine.IntVal(1, types.Typ[types.Int])
	big := engine.IntVal(7, types.Typ[types.Int])
	base := []struct {
		name, wrong string
		v           map[string]*engine.Val
		fails       bool
	}{
		{"nothing", "", nil, false},
		{"repeat", "", map[string]*engine.Val{"Repeat": one}, false},
		{"until it fails", "", map[string]*engine.Val{"UntilItFails": engine.BoolVal(true)}, false},
		{"repeat 1 until it fails", "both repeat and until-it-fails", map[string]*engine.Val{"Repeat": one, "UntilItFails": engine.BoolVal(true)}, false},
		{"repeat 7 until it fails", "both repeat and until-it-fails", map[string]*engine.Val{"Repeat": big, "UntilItFails": engine.BoolVal(true)}, false},
		{"keep going", "", map[string]*engine.Val{"KeepGoing": engine.BoolVal(true), "Repeat": one}, false},
		{"an output directory", "", map[string]*engine.Val{"OutputDir": strVal("out/dir")}, false},
		{"an output directory that cannot be made", "an output directory that cannot be made", map[string]*engine.Val{"OutputDir": strVal("out/dir")}, true},
	}
	for _, b := range base {
		for i := -1; i < len(profiles); i++ {
			for _, v := range []string{"a.out", "a/b.out", "/x", "./c"} {
				s := scene{name: b.name, wrong: b.wrong, cli: b.v, mkdirFails: b.fails}
				if i >= 0 {
					s.gof = map[string]*engine.Val{profiles[i]: strVal(v)}
					s.name += fmt.Sprintf(", %s=%q", profiles[i], v)
					if strings.Contains(v, "/") {
						s.wrong += " a path for " + profiles[i]
					}
				}
				scenes = append(scenes, s)
				if i < 0 {
					break
				}
			}
		}
	}
	for _, s := range scenes {
		args := make([]*engine.Val, len(fn.Params))
		for i, p := range fn.Params {
			switch {
			case types.Identical(p.Type(), cliT):
				args[i] = engine.Agg(engine.Nil(cliT), s.cli, cliT)
			case types.Identical(p.Type(), goT):
				args[i] = engine.Agg(engine.Nil(goT), s.gof, goT)
			}
		}
		x := k03interp(c, fn, nil, args, nil)
		text := x.Cfg.OnCall
		x.Cfg.OnCall = func(k *engine.Call) ([]engine.Outcome, bool) {
			if k.Name == "os.MkdirAll" || k.Name == "os.Mkdir" {
				if s.mkdirFails {
					return k.Return(engine.Sym("nonnil:err:mkdir", k.T)), true
				}
				return k.Return(engine.Nil(k.T)), true
			}
			return text(k)
		}
		c.Run(x)
		var wrong []string
		if s.wrong != "" {
			wrong = []string{strings.TrimSpace(s.wrong)}
		}
		k02judge(c, x, s.name, wrong, fn.Signature.Results().Len()-1)
	}
}

// k02suite follows RunSpecs and PreviewSpecs with vetting passing and failing, over lists of arguments.
func k02suite(c *Ctx) {
	if c.Fn("types.VetConfig") == nil {
		return
	}
	var scT, rcT, lbT types.Type = c.Type("types", "SuiteConfig"), c.Type("types", "ReporterConfig"), c.Type("internal", "Labels")
	if scT == nil || rcT == nil || lbT == nil {
		c.Undecided("the types of the arguments of RunSpecs not found")
		return
	}
	box := func(name string, t types.Type) *engine.Val { return engine.Box(engine.Sym(name, t), nil) }
	sets := map[string][]*engine.Val{
		"no arguments":                {},
		"a suite configuration":       {box("set:suite", scT)},
		"a reporter configuration":    {box("set:reporter", rcT)},
		"both":                        {box("set:reporter", rcT), box("set:suite", scT)},
		"two suite configurations":    {box("set:other", scT), box("set:suite", scT)},
		"an unknown argument":         {box("set:unknown", types.Typ[types.String])},
		"an unknown argument in last": {box("set:suite", scT), box("set:unknown", types.Typ[types.Int])},
	}
	for _, root := range []string{"ginkgo.RunSpecs", "ginkgo.PreviewSpecs"} {
		fn := c.Fn(root)
		if fn == nil {
			continue
		}
		pkg := fn.Pkg.Pkg.Name()
		vl := len(fn.Params) - 1
		at := types.NewSlice(types.NewInterfaceType(nil, nil))
		for _, what := range sortedKeys(sets) {
			given := sets[what]
			for _, parallel := range []int64{1, 2} {
				args := make([]*engine.Val, len(fn.Params))
				args[vl] = engine.SliceAt("*args~", len(given), at)
				var x *engine.Interp
				x = engine.New(c.P, engine.Cfg{Root: fn, Args: args, Lists: 8, Linear: true, Budget: 100000, Concrete: func(*ssa.Phi) bool { return true },
					Init: func(st *engine.State) {
						x.Store(st, pkg+"::suiteDidRun", engine.BoolVal(false))
						x.Store(st, pkg+"::suiteConfig.ParallelTotal", engine.IntVal(parallel, types.Typ[types.Int]))
						for i, g := range given {
							x.Store(st, fmt.Sprintf("*args~[%d]", i), g)
						}
					},
					Opaque: func(f *ssa.Function) bool {
						n := c.P.CalleeName(f)
						return strings.HasPrefix(n, "internal.New") || strings.HasPrefix(n, "reporters.") || strings.Contains(n, "registerReport") || strings.Contains(n, "DeprecationTracker") || strings.Contains(n, "nterceptor)")
					},
					OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
						vetted := func(name string, t types.Type) {
							// what runs is what was vetted
							for _, a := range k.Args {
								if a == nil || !types.Identical(a.T, t) {
									continue
								}
								was := k.St.Vals["vetted "+name]
								if was == nil {
									return
								}
								same := true
								diff := ""
								s := t.Underlying().(*types.Struct)
								for i := 0; i < s.NumFields(); i++ {
									f := s.Field(i)
									if root == "ginkgo.PreviewSpecs" && in(f.Name(), []string{"DryRun", "ParallelTotal", "ParallelProcess"}) {
										continue
									}
									if engine.Field(was, f.Name(), f.Type()).Key() != engine.Field(a, f.Name(), f.Type()).Key() {
										same = false
										diff = f.Name()
									}
								}
								c.Check(same, root+" runs what was vetted with "+what, k.Pos(), k.St.Path(10), "with %s, the %s in effect differs from the one vetted in %s", what, name, diff)
							}
						}
						switch {
						case k.Name == "types.VetConfig":
							for _, a := range k.Args {
								if a == nil {
									continue
								}
								for n, t := range map[string]types.Type{"suite configuration": scT, "reporter configuration": rcT} {
									if types.Identical(a.T, t) {
										k.St.Vals["vetted "+n] = a
										key := map[string]string{"suite configuration": "set:suite", "reporter configuration": "set:reporter"}[n]
										if what == "both" || strings.HasSuffix(what, n) || strings.HasSuffix(what, n+"s") {
											c.Check(a.Key() == key, root+" takes "+n+" of "+what, k.Pos(), k.St.Path(10), "given %s, the %s in effect is %v", what, n, a)
										}
									}
								}
							}
							s2 := k.St.Clone()
							k2 := *k
							k2.St = s2
							bad := k2.NewSlice([]*engine.Val{engine.Sym("nonnil:err:config", c.P.ErrorType())}, k.T)
							s2.Auto["vet"] = "failed"
							s2.Note("%s: vetting finds an error", c.P.RelPos(k.Pos()))
							k.St.Auto["vet"] = "passed"
							return []engine.Outcome{{St: k.St, Ret: k.NewSlice(nil, k.T)}, {St: s2, Ret: bad}}, true
						case k.Name == "(*internal.Suite).Run", k.Name == "(*internal.Suite).BuildTree":
							step := root + " " + k.Name + " with " + what
							switch {
							case strings.Contains(what, "unknown"):
								c.Fail(step, k.Pos(), k.St.Path(10), "%s is reached although an argument is of an unknown type", k.Name)
							case k.St.Auto["vet"] == "":
								c.Fail(step, k.Pos(), k.St.Path(10), "%s is reached although the settings were not vetted", k.Name)
							default:
								c.Check(k.St.Auto["vet"] == "passed", step, k.Pos(), k.St.Path(10), "%s is reached although vetting found an error", k.Name)
							}
							if k.Name == "(*internal.Suite).Run" {
								vetted("suite configuration", scT)
								k.St.Stop()
								return k.Return(k.Fresh()), true
							}
							return k.Return(engine.Nil(k.T)), true
						case strings.HasSuffix(k.Name, "global.PushClone"), k.Name == "(types.GinkgoFlagSet).Parse":
							return k.Return(engine.Nil(k.T)), true
						case strings.HasSuffix(k.Name, "Client.Connect"):
							return k.Return(engine.BoolVal(true)), true
						case k.Name == "os.Getwd", k.Name == "path/filepath.Abs":
							o, _ := forkErr(k)
							return o[:1], true
						case k.Name == "reporters.NewDefaultReporter":
							vetted("reporter configuration", rcT)
						}
						return nil, false
					}})
				c.Run(x)
				for _, e := range x.Exits {
					bad := e.St.Auto["vet"] == "failed" || strings.Contains(what, "unknown")
					if !bad || e.Kind == engine.ExitStop || e.Kind == engine.ExitPanic {
						continue
					}
					code, ok := int64(0), false
					if e.Kind == engine.ExitOS && e.Ret != nil {
						code, ok = e.Ret.Int()
					}
					c.Check(ok && code != 0, root+" leaves after an error with "+what, e.Pos, e.St.Path(10), "after an error in the settings %s leaves by %s (code %d)", root, e.Kind, code)
				}
			}
		}
	}
}

// k02commands follows every command body that vets, and every command body that gets to building or running suites.
func k02commands(c *Ctx) {
	const vet = "types.VetAndInitializeCLIAndGoConfig"
	if c.Fn(vet) == nil {
		return
	}
	work := map[string]bool{}
	for _, n := range []string{"ginkgo/internal.RunCompiledSuite", "ginkgo/internal.CompileSuite", "(*ginkgo/internal.OrderedParallelCompiler).StartCompiling"} {
		if c.Fn(n) != nil {
			work[n] = true
		}
	}
	cmdT := c.Type("ginkgo/command", "Command")
	if cmdT == nil || len(work) == 0 {
		c.Undecided("the commands not found")
		return
	}
	cliT, goT := c.Type("types", "CLIConfig"), c.Type("types", "GoFlagsConfig")
	sig, ok := fieldOfType(cmdT, "Command").(*types.Signature)
	if !ok {
		if ft := fieldOfType(cmdT, "Command"); ft != nil {
			sig, ok = ft.Underlying().(*types.Signature)
		}
	}
	if !ok {
		c.Undecided("the body of a command is not a function")
		return
	}
	// the bodies: functions of the body's signature made in a function that returns a command
	var bodies []*ssa.Function
	for _, f := range c.P.Funcs {
		if !types.Identical(f.Signature, sig) || f.Signature.Recv() != nil || len(f.Blocks) == 0 {
			continue
		}
		for _, g := range c.P.Reach(f, nil) {
			if work[c.P.CalleeName(g)] {
				bodies = append(bodies, f)
				break
			}
		}
	}
	sort.Slice(bodies, func(i, j int) bool { return bodies[i].String() < bodies[j].String() })
	for _, f := range bodies {
		name := c.P.CalleeName(f)
		var x *engine.Interp
		started := 0
		x = engine.New(c.P, engine.Cfg{Root: f,
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				if k.Name == vet {
					s2 := k.St.Clone()
					k2 := *k
					k2.St = s2
					tup := k.T.(*types.Tuple)
					et := tup.At(tup.Len() - 1).Type()
					cli, gof := engine.Sym("vetted~cli", cliT), engine.Sym("vetted~go", goT)
					bad := k2.NewSlice([]*engine.Val{engine.Sym("nonnil:err:config", c.P.ErrorType())}, et)
					s2.Auto["vet"], k.St.Auto["vet"] = "failed", "passed"
					s2.Note("%s: vetting finds an error", c.P.RelPos(k.Pos()))
					return []engine.Outcome{{St: k.St, Ret: engine.Tuple(cli, gof, k.NewSlice(nil, et))}, {St: s2, Ret: engine.Tuple(cli, gof, bad)}}, true
				}
				if k.Fn == nil || !c.P.InModule(k.Fn) || k.Fn.Parent() != nil {
					return nil, false
				}
				reaches := work[k.Name]
				for _, g := range c.P.Reach(k.Fn, nil) {
					reaches = reaches || work[c.P.CalleeName(g)]
				}
				if !reaches {
					return nil, false
				}
				// does the callee vet by itself?
				for _, g := range c.P.Reach(k.Fn, nil) {
					if c.P.CalleeName(g) == vet {
						return nil, false
					}
				}
				started++
				c.Check(k.St.Auto["vet"] == "passed", name+" starts "+k.Name, k.Pos(), k.St.Path(10), "%s is reached with vetting %s", k.Name, map[string]string{"": "not done", "failed": "failed"}[k.St.Auto["vet"]])
				for _, a := range k.Args {
					if a == nil {
						continue
					}
					k02vetted(c, x, k, name, a, cliT, goT)
					if p, ok := a.T.Underlying().(*types.Pointer); ok {
						if _, ok := p.Elem().Underlying().(*types.Struct); ok {
							loc, _ := x.Deref(a)
							if v := x.Load(k.St, loc, p.Elem()); v != nil {
								k02vetted(c, x, k, name, v, cliT, goT)
							}
						}
					}
				}
				k.St.Stop()
				return k.Return(k.Fresh()), true
			}})
		c.Run(x)
		if started == 0 {
			c.Undecided("%s: where suites are started was not found", name)
		}
		for _, e := range x.Exits {
			if e.St.Auto["vet"] != "failed" || e.Kind == engine.ExitStop {
				continue
			}
			code, ok := abortCode(x, e)
			if e.Kind == engine.ExitReturn {
				code, ok = 0, true
			}
			if !ok {
				c.Undecided("%s: the status it leaves with after an error is not known", name)
				continue
			}
			c.Check(code != 0, name+" leaves after an error", e.Pos, e.St.Path(8), "after an error in the settings the command leaves by %s with status %d", e.Kind, code)
		}
	}
}

// k02vetted checks that the command's settings in a value are those that vetting returned.
func k02vetted(c *Ctx, x *engine.Interp, k *engine.Call, name string, v *engine.Val, cliT, goT types.Type) {
	check := func(what string, f *engine.Val, t types.Type) {
		for n, ct := range map[string]types.Type{"vetted~cli": cliT, "vetted~go": goT} {
			if !types.Identical(t, ct) || f == nil {
				continue
			}
			c.Check(f.Key() == n || strings.HasPrefix(f.Key(), n), name+" passes vetted "+what, k.Pos(), k.St.Path(8), "the settings passed on (%v) are not those vetting returned", f)
		}
	}
	check(engine.TypeStr(v.T), v, v.T)
	if s, ok := v.T.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			check(s.Field(i).Name(), engine.Field(v, s.Field(i).Name(), s.Field(i).Type()), s.Field(i).Type())
		}
	}
}

func k02flags(c *Ctx) {
	fn := c.Fn("(ginkgo/command.Command).Run")
	if fn == nil {
		return
	}
	if c.Fn("(types.GinkgoFlagSet).Parse") == nil {
		return
	}
	for _, rest := range []struct {
		name string
		args []string
		bad  bool
	}{{"nothing", nil, false}, {"a package", []string{"pkg"}, false}, {"a dash", []string{"-", "pkg"}, false}, {"a flag after a package", []string{"pkg", "--race"}, true}, {"a short flag after a package", []string{"pkg", "-r", "x"}, true}} {
		for _, fails := range []bool{false, true} {
			x := k03interp(c, fn, nil, nil, func(x *engine.Interp, st *engine.State) {
				for i, a := range rest.args {
					x.Store(st, fmt.Sprintf("*rest~[%d]", i), strVal(a))
				}
			})
			text := x.Cfg.OnCall
			ran := 0
			what := rest.name
			if fails {
				what += " and flags that do not parse"
			}
			x.Cfg.OnCall = func(k *engine.Call) ([]engine.Outcome, bool) {
				if k.Name == "(types.GinkgoFlagSet).Parse" {
					tup := k.T.(*types.Tuple)
					if fails {
						return k.Return(engine.Tuple(k.NewSlice(nil, tup.At(0).Type()), engine.Sym("nonnil:err:parse", tup.At(1).Type()))), true
					}
					return k.Return(engine.Tuple(engine.SliceAt("*rest~", len(rest.args), tup.At(0).Type()), engine.Nil(tup.At(1).Type()))), true
				}
				if k.Fn == nil && k.Recv == nil && k.FnVal != nil && !strings.HasPrefix(k.Name, "builtin") {
					ran++
					c.Check(!fails && !rest.bad, "starts with "+what, k.Pos(), k.St.Path(8), "the command starts although it was given %s", what)
					return k.Return(engine.Nil(k.T)), true
				}
				return text(k)
			}
			c.Run(x)
			for _, e := range x.Exits {
				if e.Kind == engine.ExitStop {
					continue
				}
				if !fails && !rest.bad {
					c.Check(e.Kind == engine.ExitReturn && ran > 0, "runs with "+what, e.Pos, e.St.Path(8), "given %s the command does not run: it leaves by %s", what, e.Kind)
					continue
				}
				code, ok := abortCode(x, e)
				if e.Kind == engine.ExitReturn {
					code, ok = 0, true
				}
				if !ok {
					c.Undecided("the status after %s is not known", what)
					continue
				}
				c.Check(code != 0, "leaves with "+what, e.Pos, e.St.Path(8), "given %s the command leaves by %s with status %d", what, e.Kind, code)
			}
		}
	}
}
