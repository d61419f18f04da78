package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"strconv"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{
		ID:        "O04",
		Technique: "abstract interpretation of every report writer over report values holding every declared outcome, alone and in every pair",
		Note:      "What the console prints besides the summary and the headings is outside the rule; colours are not judged.",
		Run:       o04,
	})
}

func o04(c *Ctx) {
	specs, ok := o04domain(c)
	if !ok {
		return
	}
	o04junit(c, specs)
	o04junitMerge(c)
	o04teamcity(c, specs)
	o04teamcityMerge(c)
	o04console(c, specs)
	o04headers(c, specs)
}

// class says what a report has to make of an outcome.
type outcomeClass struct {
	name  string
	val   int64
	class string // passed, pending, skipped, failed, error (failed in the format's error class)
}

func o04domain(c *Ctx) ([]outcomeClass, bool) {
	t, _ := c.Type("types", "SpecState").(*types.Named)
	if t == nil {
		c.Undecided("no SpecState")
		return nil, false
	}
	var out []outcomeClass
	for _, m := range c.P.EnumDomain(t) {
		cl := ""
		short := strings.TrimPrefix(m.Name, "SpecState")
		switch short {
		case "Passed", "Pending", "Skipped":
			cl = strings.ToLower(short)
		case "Panicked", "Interrupted":
			cl = "error"
		case "Invalid":
			continue
		default:
			cl = "failed"
		}
		if m.Val&(m.Val-1) != 0 {
			continue // a mask
		}
		out = append(out, outcomeClass{short, m.Val, cl})
	}
	if len(out) < 8 {
		c.Undecided("the outcomes were not found: %v", out)
		return nil, false
	}
	return out, true
}

// o04calls answers what reports print that is not what is judged here.
func o04calls(k *engine.Call) ([]engine.Outcome, bool) {
	str := func(s string) ([]engine.Outcome, bool) {
		return k.Return(engine.Const(constant.MakeString(s), k.T)), true
	}
	switch k.Name {
	case "(types.SpecReport).FullText":
		if v, ok := k.X.FieldOf(k.St, k.Args[0], "LeafNodeText").Str(); ok {
			return str(v)
		}
		return nil, false
	case "(types.SpecReport).Labels":
		return k.Return(engine.Nil(k.T)), true
	case "(*types.NodeType).String", "(types.NodeType).String":
		return str("It")
	case "(types.SpecState).String":
		return str("state:" + k.Args[0].Key())
	case "reporters.RenderTimeline", "reporters.systemErrForUnstructuredReporters", "reporters.systemOutForUnstructuredReporters", "reporters.failureDescriptionForUnstructuredReporters":
		return str("text")
	case "(*reporters.DefaultReporter).codeLocationBlock":
		for _, a := range k.Args {
			if a.T != nil && engine.TypeStr(a.T) == "types.SpecReport" {
				if v, ok := k.X.FieldOf(k.St, a, "LeafNodeText").Str(); ok {
					return str("at<" + v + ">")
				}
			}
		}
		return nil, false
	case "(*reporters.DefaultReporter).emitTimeline", "(*reporters.DefaultReporter).emitFailure":
		return k.Return(engine.Tuple()), true
	case "strings.ReplaceAll":
		if len(k.Args) == 3 {
			a, ok1 := k.Args[0].Str()
			b, ok2 := k.Args[1].Str()
			d, ok3 := k.Args[2].Str()
			if ok1 && ok2 && ok3 {
				return str(strings.ReplaceAll(a, b, d))
			}
		}
	case "strings.TrimSpace":
		if a, ok := k.Args[0].Str(); ok {
			return str(strings.TrimSpace(a))
		}
	case "strings.ToUpper":
		if a, ok := k.Args[0].Str(); ok {
			return str(strings.ToUpper(a))
		}
	case "strings.HasSuffix":
		if a, ok := k.Args[0].Str(); ok {
			if b, ok := k.Args[1].Str(); ok {
				return k.Return(engine.BoolVal(strings.HasSuffix(a, b))), true
			}
		}
	case "strings.HasPrefix":
		if a, ok := k.Args[0].Str(); ok {
			if b, ok := k.Args[1].Str(); ok {
				return k.Return(engine.BoolVal(strings.HasPrefix(a, b))), true
			}
		}
	case "strings.Repeat":
		return str("-")
	case "os.MkdirAll", "(*os.File).Close", "(*bufio.Writer).Flush", "os.Remove", "os.WriteFile":
		if k.Name == "os.WriteFile" {
			return nil, false
		}
		return k.Return(engine.Nil(k.X.P.ErrorType())), true
	case "os.Create", "os.Open":
		if t, ok := k.T.(*types.Tuple); ok && t.Len() == 2 {
			return k.Return(engine.Tuple(engine.Sym("nonnil:file", t.At(0).Type()), engine.Nil(t.At(1).Type()))), true
		}
	case "(*os.File).WriteString", "(*os.File).Write":
		return k.Return(engine.Tuple(engine.IntVal(1, types.Typ[types.Int]), engine.Nil(k.X.P.ErrorType()))), true
	}
	return textModel(k)
}

// states in order, every one alone, every ordered pair, and all of them.
func outcomeLists(specs []outcomeClass) [][]outcomeClass {
	out := [][]outcomeClass{{}}
	for _, a := range specs {
		out = append(out, []outcomeClass{a})
	}
	for _, a := range specs {
		for _, b := range specs {
			out = append(out, []outcomeClass{a, b})
		}
	}
	return append(out, specs)
}

func listName(l []outcomeClass) string {
	var n []string
	for _, a := range l {
		n = append(n, a.name)
	}
	return "[" + strings.Join(n, " ") + "]"
}

func o04junit(c *Ctx, specs []outcomeClass) {
	c.Rule("junit", "the JUnit report has one test case per spec in order, with the element its outcome calls for, and every total equals the number of elements it counts")
	fn := c.Fn("reporters.GenerateJUnitReportWithConfig")
	if fn == nil || len(fn.Params) != 3 {
		c.Undecided("no JUnit writer")
		return
	}
	cfgT, _ := fn.Params[2].Type().Underlying().(*types.Struct)
	if cfgT == nil {
		c.Undecided("no JUnit configuration")
		return
	}
	it, bs := c.ConstVal("types", "NodeTypeIt"), c.ConstVal("types", "NodeTypeBeforeSuite")
	type config struct {
		name   string
		fields map[string]*engine.Val
	}
	configs := []config{{"plain", nil}}
	for i := 0; i < cfgT.NumFields(); i++ {
		if f := cfgT.Field(i); basicKind(f.Type()) == types.Bool {
			configs = append(configs, config{f.Name(), map[string]*engine.Val{f.Name(): engine.BoolVal(true)}})
		}
	}
	for _, cf := range configs {
		lists := outcomeLists(specs)
		if cf.fields != nil {
			lists = append([][]outcomeClass{}, specs)
			for _, a := range specs {
				lists = append(lists, []outcomeClass{a})
			}
		}
		for _, l := range lists {
			for setup := 0; setup < 2; setup++ {
				if setup == 1 && len(l) > 2 && len(l) != len(specs) {
					continue
				}
				var leaf []*engine.Val
				for i := range l {
					if setup == 1 && i%2 == 0 {
						leaf = append(leaf, bs)
					} else {
						leaf = append(leaf, it)
					}
				}
				o04junitRun(c, fn, l, leaf, cf.name, cf.fields)
			}
		}
	}
}

// o04interp interprets a report writer (its report parameter holding the given specs) and returns it with its exits.
func o04interp(c *Ctx, fn *ssa.Function, l []outcomeClass, leaf []*engine.Val, args []*engine.Val, report map[string]*engine.Val, bare bool, hook func(k *engine.Call) ([]engine.Outcome, bool)) *engine.Interp {
	var x *engine.Interp
	repT := c.Type("types", "Report")
	f := map[string]*engine.Val{
		"SuiteDescription": engine.Const(constant.MakeString("suite"), types.Typ[types.String]),
		"RunTime":          engine.Sym("total~", fieldOfType(repT, "RunTime")),
		"SpecReports":      engine.SliceAt("*specs", len(l), fieldOfType(repT, "SpecReports")),
	}
	for n, v := range report {
		f[n] = v
	}
	rep := engine.Agg(engine.Nil(repT), f, repT)
	full := make([]*engine.Val, len(fn.Params))
	copy(full, args)
	for i, p := range fn.Params {
		if types.Identical(p.Type(), repT) {
			full[i] = rep
		}
	}
	x = engine.New(c.P, engine.Cfg{Root: fn, Args: full, Linear: true, Budget: 60000, Lists: 16, OnBranch: onKnownBranch,
		Init: func(st *engine.State) { o04store(c, x, st, l, leaf, bare) },
		OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			if o, ok := hook(k); ok {
				return o, ok
			}
			return o04calls(k)
		}})
	c.Run(x)
	return x
}

// o04exit is the one normal way out that finished writing; nil when the analysis could not follow the writer.
func o04exit(c *Ctx, x *engine.Interp, fn *ssa.Function, what, key string) *engine.Exit {
	var out *engine.Exit
	for _, e := range x.Exits {
		if e.Kind != engine.ExitReturn || e.St.Vals[key] == nil {
			continue
		}
		if out != nil {
			out = nil
			x.Undec = append(x.Undec, "several ways out")
			break
		}
		out = e
	}
	if out == nil || len(x.Undec) > 0 {
		c.Undecided("%s: what %s writes is not understood: %v", what, c.P.CalleeName(fn), x.Undec)
		return nil
	}
	return out
}

func nonNil(v *engine.Val) (bool, bool) {
	switch {
	case v == nil:
		return false, false
	case v.IsNil():
		return false, true
	case v.K == engine.VPtr || strings.HasPrefix(v.S, "nonnil:"):
		return true, true
	}
	return false, false
}

func o04junitRun(c *Ctx, fn *ssa.Function, l []outcomeClass, leaf []*engine.Val, cfName string, cf map[string]*engine.Val) {
	cfg := engine.Agg(engine.Nil(fn.Params[2].Type()), cf, fn.Params[2].Type())
	what := fmt.Sprintf("%s with %s", listName(l), cfName)
	args := []*engine.Val{nil, engine.Const(constant.MakeString("dest"), types.Typ[types.String]), cfg}
	x := o04interp(c, fn, l, leaf, args, nil, true, func(k *engine.Call) ([]engine.Outcome, bool) {
		if strings.HasSuffix(k.Name, "xml.Encoder).Encode") && len(k.Args) == 2 || strings.HasSuffix(k.Name, "xml.MarshalIndent") || strings.HasSuffix(k.Name, "xml.Marshal") {
			v := k.Args[0]
			if strings.HasSuffix(k.Name, "Encode") {
				v = k.Args[1]
			}
			k.St.Vals["encoded"] = v.Unbox()
			if strings.HasSuffix(k.Name, "Encode") {
				return k.Return(engine.Nil(k.X.P.ErrorType())), true
			}
		}
		return nil, false
	})
	e := o04exit(c, x, fn, what, "encoded")
	if e == nil {
		return
	}
	suites := e.St.Vals["encoded"]
	if suites.K == engine.VPtr {
		loc, _ := x.Deref(suites)
		suites = x.Load(e.St, loc, c.Type("reporters", "JUnitTestSuites"))
	}
	num := func(v *engine.Val, f string) int64 {
		w := x.FieldOf(e.St, v, f)
		if w == nil {
			return -1
		}
		if w.IsNil() {
			return 0
		}
		n, ok := w.Int()
		if !ok {
			return -1
		}
		return n
	}
	ss, ok := x.Elems(e.St, x.FieldOf(e.St, suites, "TestSuites"))
	if !ok || len(ss) != 1 {
		c.Undecided("%s: the suites of the JUnit report are not understood", what)
		return
	}
	suite := ss[0]
	cases, ok := x.Elems(e.St, x.FieldOf(e.St, suite, "TestCases"))
	if v := x.FieldOf(e.St, suite, "TestCases"); v != nil && v.IsNil() {
		ok = true
	}
	if !ok {
		c.Undecided("%s: the test cases of the JUnit report are not understood", what)
		return
	}
	want := l
	if cfName == "OmitSuiteSetupNodes" {
		want = nil
		it := c.ConstVal("types", "NodeTypeIt").Key()
		for i := range l {
			if leaf[i].Key() == it {
				want = append(want, l[i])
			}
		}
	}
	path := e.St.Path(8)
	if len(cases) != len(want) {
		c.Fail("JUnit "+what, fn.Pos(), path, "%d test cases for %d specs", len(cases), len(want))
		return
	}
	var skipped, pending, failures, errors int64
	at := 0
	for i, cs := range cases {
		for at < len(l) && l[at].name != want[i].name {
			at++
		}
		var els []string
		for _, f := range []string{"Failure", "Error", "Skipped"} {
			yes, known := nonNil(x.FieldOf(e.St, cs, f))
			if !known {
				c.Undecided("%s: %s of test case %d is not understood", what, f, i)
				return
			}
			if yes {
				els = append(els, f)
			}
		}
		got := strings.Join(els, "+")
		good := false
		switch want[i].class {
		case "passed":
			good = got == ""
		case "pending", "skipped":
			good = got == "Skipped"
		case "failed":
			good = got == "Failure" || got == "Error"
		case "error":
			good = got == "Error"
		}
		switch got {
		case "Failure":
			failures++
		case "Error":
			errors++
		case "Skipped":
			if want[i].class == "pending" {
				pending++
			} else {
				skipped++
			}
		}
		c.Check(good, fmt.Sprintf("JUnit element of a spec that is %s", want[i].name), fn.Pos(), path, "the test case has the elements [%s] (%s)", got, what)
		if n, ok := x.FieldOf(e.St, cs, "Status").Str(); ok {
			c.Check(n == "state:"+fmt.Sprint(want[i].val), "JUnit status of a spec that is "+want[i].name, fn.Pos(), path, "the status is %s (%s)", n, what)
		}
		if cfName != "OmitSuiteSetupNodes" && leaf[i].Key() != c.ConstVal("types", "NodeTypeIt").Key() {
			at = i + 1
		} else if n, ok := x.FieldOf(e.St, cs, "Name").Str(); ok {
			for at < len(l) && !strings.Contains(n, fmt.Sprintf("spec%d", at)) {
				at++
			}
			c.Check(at < len(l), "JUnit order "+what, fn.Pos(), path, "test case %d is named %q: the cases are not in the order of the specs", i, n)
			at++
		}
	}
	type total struct {
		of   string
		v    *engine.Val
		f    string
		want int64
	}
	for _, t := range []total{
		{"suite", suite, "Tests", int64(len(want))}, {"suite", suite, "Failures", failures}, {"suite", suite, "Errors", errors}, {"suite", suite, "Skipped", skipped}, {"suite", suite, "Disabled", pending},
		{"report", suites, "Tests", int64(len(want))}, {"report", suites, "Failures", failures}, {"report", suites, "Errors", errors}, {"report", suites, "Disabled", skipped + pending}} {
		got := num(t.v, t.f)
		if got < 0 {
			c.Undecided("%s: the total %s is not understood", what, t.f)
			continue
		}
		culprit := what
		if len(l) == 1 {
			culprit = "of a spec that is " + l[0].name
		} else if len(l) > 1 && got != t.want {
			culprit = "of several specs"
		}
		c.Check(got == t.want, fmt.Sprintf("JUnit total %s.%s %s", t.of, t.f, culprit), fn.Pos(), path, "%s %s is %d, the elements add up to %d (%s)", t.of, t.f, got, t.want, what)
	}
}

func o04store(c *Ctx, x *engine.Interp, st *engine.State, specs []outcomeClass, leaf []*engine.Val, bare bool) {
	srT, stateT := c.Type("types", "SpecReport"), c.Type("types", "SpecState")
	for i, s := range specs {
		text := fmt.Sprintf("spec%d", i)
		if bare && leaf[i].Key() != c.ConstVal("types", "NodeTypeIt").Key() { // suite nodes have no text
			text = ""
		}
		x.Store(st, fmt.Sprintf("*specs[%d]", i), engine.Agg(engine.Nil(srT), map[string]*engine.Val{
			"State":        engine.IntVal(s.val, stateT),
			"LeafNodeType": leaf[i],
			"LeafNodeText": engine.Const(constant.MakeString(text), types.Typ[types.String]),
			"RunTime":      engine.Sym("runtime~", fieldOfType(srT, "RunTime")),
			"NumAttempts":  engine.IntVal(1, types.Typ[types.Int]),
		}, srT))
	}
}

func allIt(c *Ctx, n int) []*engine.Val {
	var out []*engine.Val
	for i := 0; i < n; i++ {
		out = append(out, c.ConstVal("types", "NodeTypeIt"))
	}
	return out
}

// mergeRun interprets a merge over n sources, each of which may be unreadable or undecodable.
func o04merges(c *Ctx, name string, judge func(fn *ssa.Function, n int)) {
	fn := c.Fn(name)
	if fn == nil || len(fn.Params) != 2 {
		c.Undecided("no %s", name)
		return
	}
	for n := 0; n <= 2; n++ {
		judge(fn, n)
	}
}

func sumKey(v *engine.Val) (map[string]int, bool) {
	out := map[string]int{}
	var walk func(v *engine.Val) bool
	walk = func(v *engine.Val) bool {
		if v == nil {
			return false
		}
		if v.IsNil() {
			return true
		}
		if n, ok := v.Int(); ok {
			if n != 0 {
				out["const"] += int(n)
			}
			return true
		}
		if v.K == engine.VConst {
			return v.Key() == "0" || constant.Sign(v.C) == 0
		}
		if v.K == engine.VExpr && v.S == "+" && len(v.Args) == 2 {
			return walk(v.Args[0]) && walk(v.Args[1])
		}
		if v.K == engine.VSym {
			out[v.S]++
			return true
		}
		return false
	}
	return out, walk(v)
}

func o04junitMerge(c *Ctx) {
	c.Rule("junit-merge", "the totals of a merged JUnit report are the sums of the totals of the sources that were decoded, and it holds their suites in order")
	sT, _ := c.Type("reporters", "JUnitTestSuites").(*types.Named)
	if sT == nil {
		c.Undecided("no JUnitTestSuites")
		return
	}
	s := sT.Underlying().(*types.Struct)
	var totals []string
	var suiteT types.Type
	for i := 0; i < s.NumFields(); i++ {
		if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
			totals = append(totals, s.Field(i).Name())
		}
		if s.Field(i).Name() == "TestSuites" {
			suiteT = s.Field(i).Type()
		}
	}
	o04merges(c, "reporters.MergeAndCleanupJUnitReports", func(fn *ssa.Function, n int) {
		str := types.Typ[types.String]
		args := []*engine.Val{engine.SliceAt("*srcs", n, fn.Params[0].Type()), engine.Sym("dest~", str)}
		noErr := engine.Nil(c.P.ErrorType())
		undec := ""
		var x *engine.Interp
		x = engine.New(c.P, engine.Cfg{Root: fn, Args: args, Linear: true, Budget: 60000, Lists: 16, OnBranch: onKnownBranch,
			Init: func(st *engine.State) {
				for i := 0; i < n; i++ {
					x.Store(st, fmt.Sprintf("*srcs[%d]", i), engine.Sym(fmt.Sprintf("src~%d", i), str))
				}
			},
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				switch {
				case k.Name == "os.Open" || k.Name == "os.ReadFile":
					tt := k.T.(*types.Tuple)
					s2 := k.St.Clone()
					s2.Vals["failed:"+k.Args[0].Key()] = engine.BoolVal(true)
					var v *engine.Val
					if k.Name == "os.Open" {
						v = engine.Sym("nonnil:open:"+k.Args[0].Key(), tt.At(0).Type())
					} else {
						v = engine.Expr("filedata", tt.At(0).Type(), k.Args[0])
					}
					return append(k.Return(engine.Tuple(v, noErr)), engine.Outcome{St: s2, Ret: engine.Tuple(engine.Nil(tt.At(0).Type()), engine.Sym("nonnil:err:open", c.P.ErrorType()))}), true
				case strings.HasSuffix(k.Name, "xml.NewDecoder"):
					return k.Return(engine.Sym("nonnil:dec:"+strings.TrimPrefix(k.Args[0].Unbox().S, "nonnil:open:"), k.T)), true
				case strings.HasSuffix(k.Name, "xml.Decoder).Decode") || strings.HasSuffix(k.Name, "xml.Unmarshal"):
					if len(k.Args) != 2 {
						return nil, false
					}
					src := strings.TrimPrefix(k.Args[0].S, "nonnil:dec:")
					if a := stripConv(k.Args[0]); a.K == engine.VExpr && a.S == "filedata" {
						src = a.Args[0].Key()
					}
					var i int
					if _, err := fmt.Sscanf(src, "src~%d", &i); err != nil {
						undec = "decodes " + src
						return nil, false
					}
					loc, _ := k.X.Deref(k.Args[1].Unbox())
					s2 := k.St.Clone()
					s2.Vals["failed:"+src] = engine.BoolVal(true)
					for _, t := range totals {
						if b, ok := fieldOfType(sT, t).Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
							weight := int64(3)
							for j := 0; j < i; j++ {
								weight *= 5
							}
							k.X.Store(k.St, loc+"."+t, engine.IntVal(weight, fieldOfType(sT, t)))
							continue
						}
						k.X.Store(k.St, loc+"."+t, engine.Sym(fmt.Sprintf("%s~%d", t, i), fieldOfType(sT, t)))
					}
					var es []*engine.Val
					if old, ok := k.X.Elems(k.St, k.X.Load(k.St, loc+".TestSuites", suiteT)); ok {
						es = append(es, old...)
					}
					for j := 0; j <= i; j++ {
						es = append(es, engine.Sym(fmt.Sprintf("suite~%d~%d", i, j), suiteT.Underlying().(*types.Slice).Elem()))
					}
					k.X.Store(k.St, loc+".TestSuites", k.NewSlice(es, suiteT))
					return append(k.Return(noErr), engine.Outcome{St: s2, Ret: engine.Sym("nonnil:err:decode", c.P.ErrorType())}), true
				case strings.HasSuffix(k.Name, "xml.Encoder).Encode") && len(k.Args) == 2:
					v := k.Args[1].Unbox()
					if v.K == engine.VPtr {
						loc, _ := k.X.Deref(v)
						v = k.X.Load(k.St, loc, sT)
					}
					k.St.Vals["encoded"] = v
					return k.Return(noErr), true
				}
				return o04calls(k)
			}})
		c.Run(x)
		if undec != "" || len(x.Undec) > 0 {
			c.Undecided("merging %d JUnit reports is not understood: %s %v", n, undec, x.Undec)
			return
		}
		seen := 0
		for _, e := range x.Exits {
			v := e.St.Vals["encoded"]
			if e.Kind != engine.ExitReturn || v == nil {
				continue
			}
			seen++
			var want []int
			var suites []string
			for i := 0; i < n; i++ {
				if e.St.Vals[fmt.Sprintf("failed:src~%d", i)] == nil {
					want = append(want, i)
					for j := 0; j <= i; j++ {
						suites = append(suites, fmt.Sprintf("suite~%d~%d", i, j))
					}
				}
			}
			for _, t := range totals {
				if b, isB := fieldOfType(sT, t).Underlying().(*types.Basic); isB && b.Info()&types.IsInteger != 0 {
					sum, weight := int64(0), int64(3)
					for i := 0; i < n; i++ {
						if e.St.Vals[fmt.Sprintf("failed:src~%d", i)] == nil {
							sum += weight
						}
						weight *= 5
					}
					f := x.FieldOf(e.St, v, t)
					got, ok := int64(0), f != nil && f.IsNil()
					if f != nil && !ok {
						got, ok = f.Int()
					}
					if !ok {
						c.Undecided("the merged total %s is not understood: %v", t, f)
						continue
					}
					c.Check(got == sum, "merged JUnit total "+t, fn.Pos(), e.St.Path(12), "the total is %d where the decoded sources %v of %d add up to %d", got, want, n, sum)
					continue
				}
				got, ok := sumKey(x.FieldOf(e.St, v, t))
				if !ok {
					c.Undecided("the merged total %s is not understood: %v", t, x.FieldOf(e.St, v, t))
					continue
				}
				good := len(got) == len(want)
				for _, i := range want {
					good = good && got[fmt.Sprintf("%s~%d", t, i)] == 1
				}
				c.Check(good, "merged JUnit total "+t, fn.Pos(), e.St.Path(12), "the total is the sum of %v; decoded were the sources %v of %d", sortedKeys(got), want, n)
			}
			es, ok := x.Elems(e.St, x.FieldOf(e.St, v, "TestSuites"))
			if w := x.FieldOf(e.St, v, "TestSuites"); w != nil && w.IsNil() {
				ok = true
			}
			if !ok {
				c.Undecided("the merged suites are not understood")
				continue
			}
			var got []string
			for _, s := range es {
				got = append(got, s.S)
			}
			c.Check(strings.Join(got, " ") == strings.Join(suites, " "), "merged JUnit suites", fn.Pos(), e.St.Path(12), "the merged report holds %v, the sources %v", got, suites)
		}
		if seen == 0 {
			c.Undecided("merging %d JUnit reports writes nothing the analysis sees", n)
		}
	})
}

// written models text output: what is written by the time it is judged is in Vals["out"].
func o04written(k *engine.Call) ([]engine.Outcome, bool) {
	add := func(s string) {
		old := ""
		if v := k.St.Vals["out"]; v != nil {
			old, _ = v.Str()
		}
		k.St.Vals["out"] = engine.Const(constant.MakeString(old+s), types.Typ[types.String])
	}
	wrote := func() ([]engine.Outcome, bool) {
		if t, ok := k.T.(*types.Tuple); ok && t.Len() == 2 {
			return k.Return(engine.Tuple(engine.IntVal(1, types.Typ[types.Int]), engine.Nil(t.At(1).Type()))), true
		}
		return k.Return(engine.Tuple()), true
	}
	switch {
	case k.Name == "fmt.Fprintf" && len(k.Args) == 3:
		sub := *k
		sub.Name, sub.Args, sub.T = "fmt.Sprintf", k.Args[1:], types.Typ[types.String]
		outs, ok := textModel(&sub)
		if !ok || len(outs) != 1 {
			return nil, false
		}
		s, _ := outs[0].Ret.Str()
		add(s)
		return wrote()
	case (k.Name == "fmt.Fprint" || k.Name == "fmt.Fprintln") && len(k.Args) == 2:
		es, ok := k.X.Elems(k.St, k.Args[1])
		if !ok {
			return nil, false
		}
		for _, e := range es {
			s, ok := e.Unbox().Str()
			if !ok {
				return nil, false
			}
			add(s)
		}
		if k.Name == "fmt.Fprintln" {
			add("\n")
		}
		return wrote()
	case (k.Name == "(*bufio.Writer).WriteString" || k.Name == "io.WriteString" || k.Name == "(*strings.Builder).WriteString" || k.Name == "(*bytes.Buffer).WriteString" || k.Name == "(*os.File).WriteString") && len(k.Args) == 2:
		s, ok := k.Args[1].Str()
		if !ok {
			return nil, false
		}
		add(s)
		return wrote()
	case k.Name == "(*strings.Replacer).Replace" && len(k.Args) == 2:
		a, ok := k.Args[1].Str()
		if es := replacerOf(k.X.P, k); ok && es != nil {
			return k.Return(engine.Const(constant.MakeString(strings.NewReplacer(es...).Replace(a)), types.Typ[types.String])), true
		}
		return nil, false
	case k.Name == "(formatter.Formatter).F" && len(k.Args) == 3:
		sub := *k
		sub.Name, sub.Args = "fmt.Sprintf", k.Args[1:]
		return textModel(&sub)
	case k.Name == "(formatter.Formatter).Fi" && len(k.Args) == 4, k.Name == "(formatter.Formatter).Fiw" && len(k.Args) == 5:
		sub := *k
		sub.Name, sub.Args = "fmt.Sprintf", k.Args[len(k.Args)-2:]
		return textModel(&sub)
	}
	return nil, false
}

var tcMessage = regexp.MustCompile(`##teamcity\[(\w+) name='([^']*)'`)

func o04teamcity(c *Ctx, specs []outcomeClass) {
	c.Rule("teamcity", "the TeamCity report starts and finishes one test per spec in order, with a failure message between for exactly the failing outcomes and an ignored message for exactly the pending and skipped ones")
	fn := c.Fn("reporters.GenerateTeamcityReport")
	if fn == nil || len(fn.Params) != 2 {
		c.Undecided("no TeamCity writer")
		return
	}
	lists := outcomeLists(specs)
	bare := len(lists)
	for _, a := range specs {
		lists = append(lists, []outcomeClass{a})
	}
	for n, l := range lists {
		what := listName(l)
		args := []*engine.Val{nil, engine.Const(constant.MakeString("dest"), types.Typ[types.String])}
		leaf := allIt(c, len(l))
		if n >= bare { // a suite node, which has no text
			leaf[0] = c.ConstVal("types", "NodeTypeBeforeSuite")
			what += " of a suite node"
		}
		x := o04interp(c, fn, l, leaf, args, nil, true, o04written)
		e := o04exit(c, x, fn, what, "out")
		if e == nil {
			continue
		}
		out, _ := e.St.Vals["out"].Str()
		var want []string
		for i, s := range l {
			n := fmt.Sprintf("spec%d", i)
			if len(l) == 1 && leaf[0].Key() != c.ConstVal("types", "NodeTypeIt").Key() {
				n = ""
			}
			want = append(want, "testStarted:"+n)
			switch s.class {
			case "failed", "error":
				want = append(want, "testFailed:"+n)
			case "pending", "skipped":
				want = append(want, "testIgnored:"+n)
			}
			want = append(want, "testFinished:"+n)
		}
		var got []string
		names := map[string]bool{}
		for _, m := range tcMessage.FindAllStringSubmatch(out, -1) {
			switch m[1] {
			case "testStarted", "testFinished", "testFailed", "testIgnored":
				n := m[2][strings.LastIndex(m[2], " ")+1:]
				if len(l) == 1 && leaf[0].Key() != c.ConstVal("types", "NodeTypeIt").Key() {
					n = ""
				}
				names[m[2]] = true
				got = append(got, m[1]+":"+n)
			}
		}
		if strings.Contains(strings.Join(got, " "), "‹") {
			c.Undecided("the names in the TeamCity messages %s are not understood: %v", what, got)
			continue
		}
		construct := "TeamCity messages " + what
		if len(l) == 1 {
			construct = "TeamCity messages of a spec that is " + l[0].name
			if n >= bare {
				construct = "TeamCity messages of a suite node that is " + l[0].name
			}
		}
		c.Check(strings.Join(got, " ") == strings.Join(want, " "), construct, fn.Pos(), e.St.Path(8), "the report has %v, not %v", got, want)
		c.Check(len(names) == len(l), construct+" names", fn.Pos(), e.St.Path(8), "%d specs are reported under the names %v: the messages of one test carry different names", len(l), sortedKeys(names))
	}
}

func o04teamcityMerge(c *Ctx) {
	c.Rule("teamcity-merge", "a merged TeamCity report is the sources that could be read, each once and in order")
	o04merges(c, "reporters.MergeAndCleanupTeamcityReports", func(fn *ssa.Function, n int) {
		str := types.Typ[types.String]
		args := []*engine.Val{engine.SliceAt("*srcs", n, fn.Params[0].Type()), engine.Sym("dest~", str)}
		bytesT := types.NewSlice(types.Typ[types.Byte])
		noErr := engine.Nil(c.P.ErrorType())
		var x *engine.Interp
		x = engine.New(c.P, engine.Cfg{Root: fn, Args: args, Linear: true, Budget: 60000, Lists: 16, OnBranch: onKnownBranch,
			Init: func(st *engine.State) {
				for i := 0; i < n; i++ {
					x.Store(st, fmt.Sprintf("*srcs[%d]", i), engine.Sym(fmt.Sprintf("src~%d", i), str))
				}
			},
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				switch k.Name {
				case "os.ReadFile":
					s2 := k.St.Clone()
					s2.Vals["failed:"+k.Args[0].Key()] = engine.BoolVal(true)
					data := k.NewSlice([]*engine.Val{engine.Sym("data:"+k.Args[0].Key(), types.Typ[types.Byte])}, bytesT)
					return append(k.Return(engine.Tuple(data, noErr)), engine.Outcome{St: s2, Ret: engine.Tuple(engine.Nil(bytesT), engine.Sym("nonnil:err:read", c.P.ErrorType()))}), true
				case "os.WriteFile", "(*os.File).Write", "(*bufio.Writer).Write":
					es, ok := k.X.Elems(k.St, k.Args[1])
					if k.Args[1].IsNil() || k.Args[1].Key() == "empty" {
						es, ok = nil, true
					}
					if !ok {
						return nil, false
					}
					s := ""
					if v := k.St.Vals["out"]; v != nil {
						s, _ = v.Str()
					}
					for _, v := range es {
						s += v.Key() + " "
					}
					k.St.Vals["out"] = engine.Const(constant.MakeString(s), str)
					if k.Name == "os.WriteFile" {
						return k.Return(noErr), true
					}
				}
				return o04calls(k)
			}})
		c.Run(x)
		seen := 0
		for _, e := range x.Exits {
			v := e.St.Vals["out"]
			if e.Kind != engine.ExitReturn || v == nil {
				continue
			}
			seen++
			want := ""
			for i := 0; i < n; i++ {
				if e.St.Vals[fmt.Sprintf("failed:src~%d", i)] == nil {
					want += fmt.Sprintf("data:src~%d ", i)
				}
			}
			got, _ := v.Str()
			c.Check(got == want, "merged TeamCity report", fn.Pos(), e.St.Path(12), "the merged report holds [%s], the sources that could be read [%s]", got, want)
		}
		if seen == 0 || len(x.Undec) > 0 {
			c.Undecided("merging %d TeamCity reports is not understood: %v", n, x.Undec)
		}
	})
}

var (
	tagRE     = regexp.MustCompile(`\{\{[^}]*\}\}`)
	countRE   = regexp.MustCompile(`(\d+) (Passed|Failed|Pending|Skipped)\b`)
	ranRE     = regexp.MustCompile(`Ran (\d+) of`)
	failedAt  = regexp.MustCompile(`\[([A-Z!]+)\] at<(spec\d+)>`)
	summingRE = regexp.MustCompile(`Summarizing (\d+) Failure`)
)

func o04console(c *Ctx, specs []outcomeClass) {
	c.Rule("console-summary", "the console summary lists every failing spec once and counts passed, failed, pending and skipped specs as their outcomes say")
	fn := c.Fn("(*reporters.DefaultReporter).SuiteDidEnd")
	if fn == nil || len(fn.Params) != 2 {
		c.Undecided("no console reporter")
		return
	}
	it, bs, as := c.ConstVal("types", "NodeTypeIt"), c.ConstVal("types", "NodeTypeBeforeSuite"), c.ConstVal("types", "NodeTypeAfterSuite")
	headings := map[string]map[string]bool{}
	for _, ok := range []bool{true, false} {
		for _, l := range outcomeLists(specs) {
			for setup := 0; setup < 3; setup++ {
				if setup > 0 && len(l) != 2 {
					continue
				}
				var leaf []*engine.Val
				setups := 0
				for i := range l {
					switch {
					case setup == 1 && i == 0:
						leaf = append(leaf, bs)
						setups++
					case setup == 2 && i == 1:
						leaf = append(leaf, as)
						setups++
					default:
						leaf = append(leaf, it)
					}
				}
				what := fmt.Sprintf("%s, succeeded %v, setup %d", listName(l), ok, setup)
				x := o04interp(c, fn, l, leaf, nil, map[string]*engine.Val{"SuiteSucceeded": engine.BoolVal(ok)}, false, func(k *engine.Call) ([]engine.Outcome, bool) {
					switch k.Name {
					case "(types.ReporterConfig).Verbosity":
						return k.Return(c.ConstVal("types", "VerbosityLevelNormal")), true
					case "(*reporters.DefaultReporter).emit", "(*reporters.DefaultReporter).emitBlock":
						if len(k.Args) == 2 {
							s, ok := k.Args[1].Str()
							if !ok {
								s = "‹?›"
							}
							old := ""
							if v := k.St.Vals["out"]; v != nil {
								old, _ = v.Str()
							}
							k.St.Vals["out"] = engine.Const(constant.MakeString(old+s+"\n"), types.Typ[types.String])
							return k.Return(engine.Tuple()), true
						}
					}
					return o04written(k)
				})
				e := o04exit(c, x, fn, what, "out")
				if e == nil {
					continue
				}
				out, _ := e.St.Vals["out"].Str()
				out = tagRE.ReplaceAllString(out, "")
				if strings.Contains(out, "‹?›") {
					c.Undecided("%s: part of the summary is not understood", what)
					continue
				}
				count := map[string]int{}
				var failing []string
				for i, s := range l {
					cl := s.class
					if cl == "error" {
						cl = "failed"
					}
					if leaf[i].Key() == it.Key() {
						count[cl]++
					}
					if cl == "failed" {
						failing = append(failing, fmt.Sprintf("spec%d", i))
					}
				}
				path := e.St.Path(8)
				construct := "summary " + what
				var got []string
				for _, m := range failedAt.FindAllStringSubmatch(out, -1) {
					got = append(got, m[2])
					var i int
					fmt.Sscanf(m[2], "spec%d", &i)
					if i < len(l) {
						if headings[l[i].name] == nil {
							headings[l[i].name] = map[string]bool{}
						}
						headings[l[i].name][m[1]] = true
					}
				}
				c.Check(strings.Join(got, " ") == strings.Join(failing, " "), construct+" failures", fn.Pos(), path, "the summary lists %v, failing are %v", got, failing)
				if m := summingRE.FindStringSubmatch(out); len(failing) > 0 {
					c.Check(m != nil && m[1] == strconv.Itoa(len(failing)), construct+" number of failures", fn.Pos(), path, "the summary announces %v failures of %d", m, len(failing))
				}
				if m := ranRE.FindStringSubmatch(out); m != nil {
					c.Check(m[1] == strconv.Itoa(count["passed"]+count["failed"]), construct+" ran", fn.Pos(), path, "the summary says %s specs ran; %d passed and %d failed", m[1], count["passed"], count["failed"])
				} else {
					c.Undecided("%s: no count of specs that ran", what)
				}
				counts := countRE.FindAllStringSubmatch(out, -1)
				if len(counts) == 0 && setup > 0 && setups == 0 {
					continue
				}
				if len(counts) == 0 && !strings.Contains(out, "BeforeSuite node failed") {
					c.Undecided("%s: no counts", what)
				}
				for _, m := range counts {
					c.Check(m[1] == strconv.Itoa(count[strings.ToLower(m[2])]), construct+" "+m[2], fn.Pos(), path, "the summary says %s, there are %d", m[0], count[strings.ToLower(m[2])])
				}
			}
		}
	}
	c.Rule("console-headings", "in the summary every failing outcome is announced under one heading, and a panicked, aborted, timed-out or interrupted spec under its own")
	byHeading := map[string]string{}
	for _, s := range specs {
		if s.class != "failed" && s.class != "error" {
			continue
		}
		hs := sortedKeys(headings[s.name])
		c.Check(len(hs) == 1, "heading of "+s.name, fn.Pos(), nil, "a spec that is %s is announced as %v", s.name, hs)
		for _, h := range hs {
			if o, dup := byHeading[h]; dup {
				c.Fail("heading "+h, fn.Pos(), nil, "%s and %s are both announced as [%s]", o, s.name, h)
			}
			byHeading[h] = s.name
		}
	}
}

func o04headers(c *Ctx, specs []outcomeClass) {
	c.Rule("console-spec", "what the console prints for a failing spec names its outcome and place at every verbosity, and its failure, and what it prints for a spec that did not fail names no failing outcome")
	fn := c.Fn("(*reporters.DefaultReporter).DidRun")
	if fn == nil || len(fn.Params) != 2 {
		c.Undecided("no console reporter")
		return
	}
	vt, _ := c.ConstVal("types", "VerbosityLevelNormal").T.(*types.Named)
	if vt == nil {
		c.Undecided("no verbosity levels")
		return
	}
	for _, h := range []string{"emitFailure", "codeLocationBlock"} {
		if c.Fn("(*reporters.DefaultReporter)."+h) == nil {
			c.Undecided("no %s", h)
			return
		}
	}
	srT, stateT := c.Type("types", "SpecReport"), c.Type("types", "SpecState")
	var failing []string
	for _, s := range specs {
		if s.class == "failed" || s.class == "error" {
			failing = append(failing, fmt.Sprintf("[STATE:%d]", s.val))
		}
	}
	for _, level := range c.P.EnumDomain(vt) {
		for _, s := range specs {
			for par := 0; par < 2; par++ {
				what := fmt.Sprintf("%s at %s, parallel %d", s.name, level.Name, par)
				rep := engine.Agg(engine.Nil(srT), map[string]*engine.Val{
					"State":             engine.IntVal(s.val, stateT),
					"LeafNodeType":      c.ConstVal("types", "NodeTypeIt"),
					"LeafNodeText":      engine.Const(constant.MakeString("spec0"), types.Typ[types.String]),
					"RunTime":           engine.Sym("runtime~", fieldOfType(srT, "RunTime")),
					"NumAttempts":       engine.IntVal(1, types.Typ[types.Int]),
					"RunningInParallel": engine.BoolVal(par == 1),
				}, srT)
				lv := level.Val
				x := o04interp(c, fn, nil, nil, []*engine.Val{nil, rep}, nil, false, func(k *engine.Call) ([]engine.Outcome, bool) {
					switch k.Name {
					case "(types.ReporterConfig).Verbosity":
						return k.Return(engine.IntVal(lv, k.T)), true
					case "(types.SpecReport).Timeline", "(types.Timeline).WithoutHiddenReportEntries", "(types.Timeline).WithoutVeryVerboseSpecEvents":
						return k.Return(engine.Nil(k.T)), true
					case "(types.ReportEntries).HasVisibility":
						return k.Return(engine.BoolVal(false)), true
					case "(types.Failure).IsZero":
						return k.Return(engine.BoolVal(false)), true
					case "(*reporters.DefaultReporter).emitFailure":
						k.St.Vals["failure"] = engine.BoolVal(true)
						return k.Return(engine.Tuple()), true
					case "(*reporters.DefaultReporter).emit", "(*reporters.DefaultReporter).emitBlock":
						if len(k.Args) == 2 {
							s, ok := k.Args[1].Str()
							if !ok {
								s, _ = renderText(k.Args[1])
							}
							if s == "" {
								s = "‹?" + k.Args[1].Key() + "›"
							}
							old := ""
							if v := k.St.Vals["out"]; v != nil {
								old, _ = v.Str()
							}
							k.St.Vals["out"] = engine.Const(constant.MakeString(old+s+"\n"), types.Typ[types.String])
							return k.Return(engine.Tuple()), true
						}
					case "(*reporters.DefaultReporter).emitDelimiter":
						return k.Return(engine.Tuple()), true
					}
					return o04written(k)
				})
				if len(x.Undec) > 0 {
					c.Undecided("%s: %v", what, x.Undec)
					continue
				}
				n := 0
				for _, e := range x.Exits {
					if e.Kind != engine.ExitReturn {
						continue
					}
					out := ""
					if v := e.St.Vals["out"]; v != nil {
						out, _ = v.Str()
					}
					n++
					if s.class == "failed" || s.class == "error" {
						if strings.Contains(out, "‹?") && !strings.Contains(out, fmt.Sprintf("[STATE:%d]", s.val)) {
							c.Undecided("%s: %s", what, out)
							continue
						}
						c.Check(strings.Contains(out, fmt.Sprintf("[STATE:%d]", s.val)), "console line of a spec that is "+s.name, fn.Pos(), e.St.Path(10), "what is printed does not name the outcome: %q (%s)", out, what)
						c.Check(strings.Contains(out, "at<spec0>"), "console location of a spec that is "+s.name, fn.Pos(), e.St.Path(10), "what is printed does not say where the spec is: %q (%s)", out, what)
						if !strings.Contains(level.Name, "VeryVerbose") {
							c.Check(e.St.Vals["failure"] != nil, "console failure of a spec that is "+s.name, fn.Pos(), e.St.Path(10), "the failure is not printed (%s)", what)
						}
					}
					for _, f := range failing {
						if f != fmt.Sprintf("[STATE:%d]", s.val) {
							c.Check(!strings.Contains(out, f), "console line of a spec that is "+s.name+" other", fn.Pos(), e.St.Path(10), "what is printed names another outcome %s: %q (%s)", f, out, what)
						}
					}
				}
				if n == 0 {
					c.Undecided("%s: no way out", what)
				}
			}
		}
	}
}
