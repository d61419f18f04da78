package rules

import (
	"fmt"
	"go/types"
	"regexp"
	"strconv"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{ID: "K03", Technique: "abstract interpretation of the label expression parser over every sequence of up to five tokens (six in the thorough tier) and of the filter it builds over every assignment of the labels, against a reference grammar; of the file filters over a table of filters and places; of the selection of specs over every combination of filters and spec features; of the nested focus policy over all small trees",
		Note: "Texts, labels and places are members of small finite sets; regular expression matching and the text functions of the standard library are taken as documented.",
		Run:  k03})
}

func k03(c *Ctx) {
	c.Rule("label-grammar", "a label expression is accepted exactly when it is well formed, and its filter computes the boolean function the expression denotes: not before and before or, comma as or, groups, labels without regard to case, regular expressions")
	k03grammar(c)
	c.Floor(1000)
	c.Rule("label-sets", "the set operations on key:value labels: contains any, contains all, consists of, is subset of, is empty, with their argument forms; malformed ones are rejected")
	k03sets(c)
	c.Floor(40)
	c.Rule("file-filters", "a file filter matches a place whose file matches its expression and, if it names lines, whose line is one of them or in one of its half-open ranges; filters widen one another; malformed filters are rejected")
	k03files(c)
	c.Floor(60)
	c.Rule("selection", "a spec is skipped exactly when it is pending or some filter given, or programmatic focus if any spec that is not pending is focused, deselects it; values of one filter widen it")
	k03selection(c)
	c.Floor(60)
	c.Rule("nested-focus", "a focused container that has a focused descendant that is not pending gives up its own focus, and only then")
	k03nested(c)
	c.Floor(20)
	c.Rule("order", "the specs are made from the tree only after nested focus has been settled in it")
	k03order(c)
}

// k03order: specs carry copies of the nodes, so settling nested focus afterwards would not reach them.
func k03order(c *Ctx) {
	fn, settle, make := c.Fn("(*internal.Suite).Run"), c.Fn("internal.ApplyNestedFocusPolicyToTree"), c.Fn("internal.GenerateSpecsFromTreeRoot")
	if fn == nil || settle == nil || make == nil {
		c.Undecided("how a run makes its specs is not understood")
		return
	}
	seen := false
	x := engine.New(c.P, engine.Cfg{Root: fn, Budget: 20000, OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
		switch k.Fn {
		case settle:
			k.St.Auto["settled"] = "yes"
			seen = true
			return k.Return(engine.Tuple()), true
		case make:
			if k.St.Auto["settled"] == "" {
				k.St.Auto["early"] = c.P.RelPos(k.Pos())
			}
			return k.Return(k.Fresh()), true
		}
		// what is done with the specs afterwards does not matter here
		for _, n := range []string{".ApplyFocusToSpecs", ").runSpecs"} {
			if k.Fn != nil && strings.HasSuffix(c.P.CalleeName(k.Fn), n) && k.T != nil {
				return k.Return(k.Fresh()), true
			}
		}
		return nil, false
	}})
	c.Run(x)
	n := 0
	for _, e := range x.Exits {
		if e.Kind == engine.ExitPanic {
			continue
		}
		n++
		if !seen {
			continue
		}
		c.Check(e.St.Auto["early"] == "", "specs made after nested focus is settled", fn.Pos(), e.St.Path(8), "the specs are made at %s, before nested focus is settled", e.St.Auto["early"])
	}
	if n == 0 || !seen {
		c.Undecided("the run settles nested focus nowhere on the %d ends that were found", n)
	}
}

func k03interp(c *Ctx, fn *ssa.Function, bind, args []*engine.Val, init func(x *engine.Interp, st *engine.State)) *engine.Interp {
	var x *engine.Interp
	x = engine.New(c.P, engine.Cfg{Root: fn, Bind: bind, Args: args, Linear: true, RangeMaps: true, OneMapOrder: true, Lists: 64, Budget: 60000,
		Concrete: func(*ssa.Phi) bool { return true },
		Init: func(st *engine.State) {
			pk := c.P.PkgBySuffix("types")
			if pk != nil {
				constTables(c, x, st, c.P.SSA.Package(pk.Types))
				st0 := "types::DEBUG_LABEL_FILTER_PARSING"
				x.Store(st, st0, engine.BoolVal(false))
			}
			if init != nil {
				init(x, st)
			}
		},
		OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			if o, ok := constText(k); ok {
				return o, true
			}
			if k.Name == "fmt.Sprintf" && k.T != nil {
				return k.Return(k.Fresh()), true
			}
			return nil, false
		}})
	return x
}

// k03parse interprets a parser of one text; ok is false when the analysis gave no single answer.
type k03parsed struct {
	x   *engine.Interp
	e   *engine.Exit
	val *engine.Val
	err bool
	how string // "returns" or "panics"
}

func k03parse(c *Ctx, fn *ssa.Function, arg *engine.Val, init func(x *engine.Interp, st *engine.State)) (k03parsed, bool) {
	x := k03interp(c, fn, nil, []*engine.Val{arg}, init)
	c.Run(x)
	var out *engine.Exit
	for _, e := range x.Exits {
		if e.Kind == engine.ExitStop {
			continue
		}
		if out != nil {
			return k03parsed{}, false
		}
		out = e
	}
	if out == nil || len(x.Undec) > 0 {
		return k03parsed{}, false
	}
	if out.Kind != engine.ExitReturn {
		return k03parsed{x: x, e: out, how: "panics"}, true
	}
	if out.Ret == nil || len(out.Ret.Args) != 2 {
		return k03parsed{}, false
	}
	err := out.Ret.Args[1]
	p := k03parsed{x: x, e: out, val: out.Ret.Args[0], how: "returns"}
	if err.IsNil() {
		return p, true
	}
	set, known := nonNil(err)
	p.err = set
	return p, known
}

// eval applies the filter to labels.
func (p k03parsed) eval(c *Ctx, labels []string) (bool, bool) {
	if p.val == nil || p.val.Fn == nil {
		return false, false
	}
	lt := p.val.Fn.Signature.Params().At(0).Type()
	arg := engine.SliceAt("*labels~", len(labels), lt)
	y := k03interp(c, p.val.Fn, p.val.Args, []*engine.Val{arg}, func(x *engine.Interp, st *engine.State) {
		st.CopyMem(p.e.St)
		for i, l := range labels {
			x.Store(st, fmt.Sprintf("*labels~[%d]", i), strVal(l))
		}
	})
	y.ContinueTokens(p.x)
	c.Run(y)
	p.x.ContinueTokens(y)
	if len(y.Exits) != 1 || len(y.Undec) > 0 || y.Exits[0].Kind != engine.ExitReturn || y.Exits[0].Ret == nil {
		return false, false
	}
	return y.Exits[0].Ret.Bool()
}

// ---- the reference grammar

type k03tok struct{ kind, text string }

type k03ref struct {
	toks []k03tok
	i    int
}

type k03fn func(map[string]bool) bool

func (p *k03ref) peek() string {
	if p.i < len(p.toks) {
		return p.toks[p.i].kind
	}
	return ""
}

func (p *k03ref) or() (k03fn, bool) {
	a, ok := p.and()
	for ok && p.peek() == "||" {
		p.i++
		l := a
		r, ok2 := p.and()
		if !ok2 {
			return nil, false
		}
		a = func(m map[string]bool) bool { return l(m) || r(m) }
	}
	return a, ok
}

func (p *k03ref) and() (k03fn, bool) {
	a, ok := p.not()
	for ok && p.peek() == "&&" {
		p.i++
		l := a
		r, ok2 := p.not()
		if !ok2 {
			return nil, false
		}
		a = func(m map[string]bool) bool { return l(m) && r(m) }
	}
	return a, ok
}

func (p *k03ref) not() (k03fn, bool) {
	switch p.peek() {
	case "!":
		p.i++
		a, ok := p.not()
		if !ok {
			return nil, false
		}
		return func(m map[string]bool) bool { return !a(m) }, true
	case "(":
		p.i++
		a, ok := p.or()
		if !ok || p.peek() != ")" {
			return nil, false
		}
		p.i++
		return a, true
	case "L":
		t := p.toks[p.i].text
		p.i++
		return func(m map[string]bool) bool { return m[t] }, true
	}
	return nil, false
}

func k03reference(toks []k03tok) (k03fn, bool) {
	p := &k03ref{toks: toks}
	f, ok := p.or()
	if !ok || p.i != len(toks) {
		return nil, false
	}
	return f, true
}

func k03grammar(c *Ctx) {
	fn := c.Fn("types.ParseLabelFilter")
	if fn == nil {
		return
	}
	undec := map[string]bool{}
	check := func(toks []k03tok, text string) {
		want, valid := k03reference(toks)
		p, ok := k03parse(c, fn, strVal(text), nil)
		if !ok {
			if !undec[text] {
				undec[text] = true
				c.Undecided("the parser gives no single answer for %q", text)
			}
			return
		}
		path := p.e.St.Path(8)
		if p.how == "panics" {
			c.Fail("parser panics", p.e.Pos, path, "parsing the label expression %q panics", text)
			return
		}
		shape := ""
		for _, t := range toks {
			shape += t.kind
		}
		if !valid {
			c.Check(p.err, "rejects "+shape, p.e.Pos, path, "the malformed label expression %q is accepted", text)
			return
		}
		if p.err {
			c.Fail("accepts "+shape, p.e.Pos, path, "the well-formed label expression %q is rejected (%s)", text, p.e.Ret.Args[1].Key())
			return
		}
		used := map[string]bool{}
		for _, t := range toks {
			if t.kind == "L" {
				used[t.text] = true
			}
		}
		names := sortedKeys(used)
		for m := 0; m < 1<<len(names); m++ {
			env := map[string]bool{}
			labels := []string{"Other"}
			for i, n := range names {
				if m&(1<<i) != 0 {
					env[n] = true
					labels = append(labels, strings.ToUpper(n))
				}
			}
			got, ok := p.eval(c, labels)
			if !ok {
				c.Undecided("the filter of %q has no single answer", text)
				break
			}
			c.Check(got == want(env), "meaning of "+shape, p.e.Pos, path, "the label expression %q on labels %v is %v", text, labels, got)
		}
	}
	kinds := []string{"L", "!", "&&", "||", "(", ")"}
	max := 5
	if c.Tier == "thorough" {
		max = 6
	}
	names := []string{"a", "b", "c", "d", "e"}
	make_ := func(ks []string) ([]k03tok, string, string) {
		n := 0
		var toks []k03tok
		spaced, dense := "", ""
		for i, k := range ks {
			t := k03tok{kind: k, text: k}
			if k == "L" {
				t.text = names[n]
				n++
			}
			toks = append(toks, t)
			if i > 0 {
				spaced += " "
			}
			spaced += t.text
			dense += t.text
		}
		return toks, spaced, dense
	}
	adjacent := func(ks []string) bool {
		for i := 1; i < len(ks); i++ {
			if ks[i] == "L" && ks[i-1] == "L" {
				return true // reads as one label
			}
		}
		return false
	}
	var gen func(ks []string)
	gen = func(ks []string) {
		if len(ks) > 0 && !adjacent(ks) {
			toks, spaced, dense := make_(ks)
			check(toks, spaced)
			if len(ks) <= 3 && dense != spaced {
				check(toks, dense)
			}
		}
		if len(ks) == max {
			return
		}
		for _, k := range kinds {
			gen(append(append([]string{}, ks...), k))
		}
	}
	gen(nil)
	// longer well-formed expressions: every way to join four operands with negations and one group
	for _, ops := range [][]string{{"&&", "||", "&&"}, {"||", "&&", "||"}, {"&&", "&&", "||"}, {"||", "||", "&&"}, {"||", "&&", "&&"}, {"&&", "||", "||"}} {
		for neg := 0; neg < 16; neg++ {
			for g := 0; g < 4; g++ {
				var ks []string
				for i := 0; i < 4; i++ {
					if g > 0 && i == g-1 {
						if neg&1 != 0 {
							ks = append(ks, "!")
						}
						ks = append(ks, "(")
					}
					if neg&(1<<i) != 0 {
						ks = append(ks, "!")
					}
					ks = append(ks, "L")
					if g > 0 && i == g {
						ks = append(ks, ")")
					}
					if i < 3 {
						ks = append(ks, ops[i])
					}
				}
				if g > 0 && neg%3 != 0 || neg != 0 && c.Tier != "thorough" && neg%5 != 0 {
					continue
				}
				toks, spaced, _ := make_(ks)
				check(toks, spaced)
			}
		}
	}
	// texts whose reading the sequences above do not fix
	l := func(s string) k03tok { return k03tok{"L", s} }
	o := func(s string) k03tok { return k03tok{s, s} }
	check([]k03tok{l("a"), o("||"), l("b"), o("&&"), l("c")}, "a, b && c")
	check([]k03tok{l("a"), o("&&"), l("b"), o("||"), l("c")}, "a&&b,c")
	check([]k03tok{o("!"), l("a"), o("||"), l("b")}, "!a, b")
	check([]k03tok{l("a b"), o("&&"), l("c")}, "a b && c")
	check([]k03tok{l("a:b"), o("&&"), l("c")}, "a:b && c")
	check([]k03tok{l("a")}, "  A  ")
	check([]k03tok{l("two words"), o("||"), l("k:v")}, "Two Words || K:V")
	for _, bad := range []string{"a & b", "a | b", "a b && c && ", "&", "|", "a &&& b", "()", "a ()", "(a", "a)", "((a)", "/(/", "a && /[/"} {
		check([]k03tok{o("?")}, bad)
	}
	// regular expressions are matched against the label as it is
	for _, t := range []struct {
		text   string
		labels []string
		want   bool
	}{{"/^a/", []string{"xa", "ab"}, true}, {"/^a/", []string{"xa"}, false}, {"!/^a/ && b", []string{"b"}, true}, {"!/^a/ && b", []string{"b", "ac"}, false}, {"/a|b/", []string{"c"}, false}, {"/a|b/ || c", []string{"C"}, true}, {"(/x/)", []string{"yxy"}, true}, {"/^A/", []string{"ab"}, false}} {
		k03meaning(c, fn, t.text, t.labels, t.want)
	}
	p, ok := k03parse(c, fn, strVal(""), nil)
	if ok && !p.err && p.how == "returns" {
		for _, labels := range [][]string{nil, {"x"}} {
			got, ok := p.eval(c, labels)
			c.Check(!ok || got, "no expression", p.e.Pos, nil, "without a label expression a spec is deselected")
		}
	}
}

func k03meaning(c *Ctx, fn *ssa.Function, text string, labels []string, want bool) {
	p, ok := k03parse(c, fn, strVal(text), nil)
	if !ok {
		c.Undecided("the parser gives no single answer for %q", text)
		return
	}
	if p.how == "panics" || p.err {
		c.Fail("accepts "+text, p.e.Pos, p.e.St.Path(8), "the well-formed label expression %q is rejected", text)
		return
	}
	got, ok := p.eval(c, labels)
	if !ok {
		c.Undecided("the filter of %q has no single answer", text)
		return
	}
	c.Check(got == want, "meaning of "+text, p.e.Pos, p.e.St.Path(8), "the label expression %q on labels %v is %v", text, labels, got)
}

func k03sets(c *Ctx) {
	fn := c.Fn("types.ParseLabelFilter")
	if fn == nil {
		return
	}
	values := func(labels []string) map[string]bool {
		out := map[string]bool{}
		for _, l := range labels {
			if p := strings.SplitN(l, ":", 2); len(p) == 2 && strings.EqualFold(strings.TrimSpace(p[0]), "k") {
				out[strings.ToLower(strings.TrimSpace(p[1]))] = true
			}
		}
		return out
	}
	labelSets := [][]string{nil, {"plain"}, {"j:x"}, {"k:x"}, {"K: X", "plain"}, {"k:x", "k:y"}, {"k:z"}, {"k:x", "k:y", "k:z"}, {"k:y", "j:x"}, {"x", "k"}, {"kk:x"}, {"ak:x", "k:y"}, {"k:x:y"}, {"k:x:y", "k:y"}, {"k : X"}, {"k:xx"}}
	for _, op := range []string{"containsAny", "containsAll", "consistsOf", "isSubsetOf"} {
		for _, arg := range []struct {
			text string
			vals []string
		}{{"x", []string{"x"}}, {"{x, y}", []string{"x", "y"}}, {"{X,y}", []string{"x", "y"}}, {"{x}", []string{"x"}}, {"x:y", []string{"x:y"}}} {
			for _, form := range []string{"k: %s %s", "K: %s %s", "!k: %s %s", "j: isEmpty && k: %s %s"} {
				text := fmt.Sprintf(form, op, arg.text)
				if form[0] == 'K' {
					text = strings.ToUpper(text[:1]) + ": " + strings.ToUpper(op) + " " + arg.text
				}
				for _, labels := range labelSets {
					set := values(labels)
					any, all, in := false, true, true
					for _, v := range arg.vals {
						any = any || set[v]
						all = all && set[v]
					}
					for v := range set {
						found := false
						for _, w := range arg.vals {
							found = found || v == w
						}
						in = in && found
					}
					want := map[string]bool{"containsAny": any, "containsAll": all, "consistsOf": all && in, "isSubsetOf": in}[op]
					switch form[0] {
					case '!':
						want = !want
					case 'j':
						for _, l := range labels {
							if strings.HasPrefix(l, "j:") {
								want = false
							}
						}
					}
					k03meaning(c, fn, text, labels, want)
				}
			}
		}
	}
	for _, labels := range labelSets {
		k03meaning(c, fn, "k: isEmpty", labels, len(values(labels)) == 0)
		k03meaning(c, fn, "(k: isEmpty)", labels, len(values(labels)) == 0)
		k03meaning(c, fn, "!k: isEmpty && !plain", labels, len(values(labels)) > 0 && !in("plain", labels))
	}
	for _, bad := range []string{"k: foo x", "k: containsAny", "k: containsAny /x/", "k: containsAny {x", "k: isEmpty x", "k: consistsOf {}", "k: consistsOf {x,,y}", ": containsAny x", "k containsAny x", "k: containsAll {x|y}", "k: "} {
		p, ok := k03parse(c, fn, strVal(bad), nil)
		if !ok {
			c.Undecided("the parser gives no single answer for %q", bad)
			continue
		}
		c.Check(p.how == "returns" && p.err, "rejects "+bad, p.e.Pos, p.e.St.Path(8), "the malformed label expression %q is accepted", bad)
	}
}

func k03files(c *Ctx) {
	fn := c.Fn("types.ParseFileFilters")
	ffsT := c.Type("types", "FileFilters")
	clT := c.Type("types", "CodeLocation")
	if fn == nil || ffsT == nil || clT == nil {
		return
	}
	strsT := fn.Params[0].Type()
	filters := func(fs []string) (*engine.Val, func(x *engine.Interp, st *engine.State)) {
		return engine.SliceAt("*filters~", len(fs), strsT), func(x *engine.Interp, st *engine.State) {
			for i, f := range fs {
				x.Store(st, fmt.Sprintf("*filters~[%d]", i), strVal(f))
			}
		}
	}
	for _, bad := range [][]string{{""}, {"a:1:2"}, {"a:x"}, {"a:1-x"}, {"a:x-1"}, {"a:1-2-3"}, {"("}, {"ok", "a:"}, {"a:1,x"}, {"a:1,"}, {"a", ""}, {"[:3"}, {"a:1.5"}, {"a:1-"}, {"a:-3"}, {"a:-"}, {"a:,1"}, {"a:1--2"}, {"a:"}, {":"}} {
		arg, init := filters(bad)
		p, ok := k03parse(c, fn, arg, init)
		if !ok {
			c.Undecided("the parser gives no single answer for %q", bad)
			continue
		}
		c.Check(p.how == "returns" && p.err, "rejects "+strings.Join(bad, " "), p.e.Pos, p.e.St.Path(8), "the malformed file filters %q are accepted", bad)
	}
	match := ownMethod(c, ffsT.(*types.Named), "Matches")
	if match == nil {
		c.Undecided("file filters match nothing")
		return
	}
	locsT := match.Signature.Params().At(0).Type()
	type place struct {
		file string
		line int
	}
	places := [][]place{nil, {{"a.go", 1}}, {{"a.go", 3}}, {{"a.go", 4}}, {{"a.go", 5}}, {{"a.go", 6}}, {{"b.go", 3}}, {{"b.go", 3}, {"a.go", 9}}, {{"a.go", 9}, {"b.go", 4}, {"a.go", 5}}}
	ref := func(f string, p place) bool {
		parts := strings.Split(f, ":")
		if ok, _ := regexp.MatchString(parts[0], p.file); !ok {
			return false
		}
		if len(parts) == 1 {
			return true
		}
		for _, l := range strings.Split(parts[1], ",") {
			ab := strings.Split(l, "-")
			lo, _ := strconv.Atoi(strings.TrimSpace(ab[0]))
			hi := lo + 1
			if len(ab) == 2 {
				hi, _ = strconv.Atoi(strings.TrimSpace(ab[1]))
			}
			if lo <= p.line && p.line < hi {
				return true
			}
		}
		return false
	}
	for _, fs := range [][]string{{"a"}, {"^a.go$"}, {"a:3"}, {"a:3-5"}, {"a:1,4-6"}, {"a: 3 - 5 , 9"}, {"b"}, {"b", "a:5"}, {"a:1", "a:3"}, {"x", "b:4"}, {"go:3"}, {"a:5-3"}, {"a:3-3"}} {
		arg, init := filters(fs)
		p, ok := k03parse(c, fn, arg, init)
		if !ok {
			c.Undecided("the parser gives no single answer for %q", fs)
			continue
		}
		if p.how != "returns" || p.err {
			c.Fail("accepts "+strings.Join(fs, " "), p.e.Pos, p.e.St.Path(8), "the well-formed file filters %q are rejected", fs)
			continue
		}
		for _, pl := range places {
			want := false
			for _, f := range fs {
				for _, one := range pl {
					want = want || ref(f, one)
				}
			}
			y := k03interp(c, match, nil, []*engine.Val{p.val, engine.SliceAt("*places~", len(pl), locsT)}, func(x *engine.Interp, st *engine.State) {
				st.CopyMem(p.e.St)
				for i, one := range pl {
					x.Store(st, fmt.Sprintf("*places~[%d].FileName", i), strVal(one.file))
					x.Store(st, fmt.Sprintf("*places~[%d].LineNumber", i), engine.IntVal(int64(one.line), types.Typ[types.Int]))
				}
			})
			y.ContinueTokens(p.x)
			c.Run(y)
			if len(y.Exits) != 1 || y.Exits[0].Kind != engine.ExitReturn {
				c.Undecided("matching %q at %v has no single answer", fs, pl)
				continue
			}
			got, ok := y.Exits[0].Ret.Bool()
			if !ok {
				c.Undecided("matching %q at %v has no single answer", fs, pl)
				continue
			}
			c.Check(got == want, "matching "+strings.Join(fs, " "), y.Exits[0].Pos, y.Exits[0].St.Path(8), "the file filters %q match %v: %v", fs, pl, got)
		}
	}
}

func k03selection(c *Ctx) {
	fn := c.Fn("internal.ApplyFocusToSpecs")
	cfgT := c.Type("types", "SuiteConfig")
	if fn == nil || cfgT == nil {
		return
	}
	specsP, descP, labelsP, cfgP := -1, -1, -1, -1
	for i, p := range fn.Params {
		switch engine.TypeStr(p.Type()) {
		case "internal.Specs":
			specsP = i
		case "string":
			descP = i
		case "internal.Labels":
			labelsP = i
		case "types.SuiteConfig":
			cfgP = i
		}
	}
	if specsP < 0 || descP < 0 || labelsP < 0 || cfgP < 0 {
		c.Undecided("the selection takes other things")
		return
	}
	specsT := fn.Params[specsP].Type()
	specT := specsT.Underlying().(*types.Slice).Elem()
	nodesT := fieldOfType(specT, "Nodes")
	if nodesT == nil {
		c.Undecided("specs have no nodes")
		return
	}
	nodeT := nodesT.Underlying().(*types.Slice).Elem()
	labelsT := fieldOfType(nodeT, "Labels")
	if labelsT == nil {
		c.Undecided("nodes have no labels")
		return
	}
	type sp struct {
		focused, pending bool // 1: container, 2: subject
		inContainer      bool // where the mark is
		text, ctext      string
		label, clabel    string
		mid, mlabel      string // a container inside that one
		file             string
		line, cline      int
	}
	base := []sp{
		{text: "one", ctext: "top", label: "fast", file: "a.go", line: 3, cline: 1},
		{text: "two", ctext: "top", label: "slow", file: "a.go", line: 7, cline: 1},
		{text: "one", ctext: "other", clabel: "fast", label: "slow", file: "b.go", line: 3, cline: 2},
		{text: "three", ctext: "other", file: "c.go", line: 5, cline: 2},
		{text: "four", ctext: "", label: "x", file: "b.go", line: 9, cline: 9},
		{text: "five", ctext: "other", mid: "inner", mlabel: "fast", file: "d.go", line: 5, cline: 2},
	}
	type cfg struct {
		label                           string
		focusFiles, skipFiles, fs, skip []string
		suiteLabel                      string
		desc                            string
	}
	var cfgs []cfg
	for m := 0; m < 32; m++ {
		var k cfg
		k.desc = "suite"
		if m&1 != 0 {
			k.label = "fast || x"
		}
		if m&2 != 0 {
			k.focusFiles = []string{"a.go:1-4", "b"}
		}
		if m&4 != 0 {
			k.skipFiles = []string{"b.go:3", "c"}
		}
		if m&8 != 0 {
			k.fs = []string{"one", "four"}
		}
		if m&16 != 0 {
			k.skip = []string{"other", "two"}
		}
		cfgs = append(cfgs, k)
	}
	cfgs = append(cfgs, cfg{label: "fast", suiteLabel: "fast", desc: "suite"}, cfg{label: "!deep && slow", suiteLabel: "deep", desc: "suite"},
		cfg{fs: []string{"suite top"}, desc: "suite"}, cfg{skip: []string{"suite"}, desc: "suite"}, cfg{fs: []string{"top one$"}, desc: "suite"}, cfg{fs: []string{"other inner five$"}, desc: "suite"}, cfg{fs: []string{"^suite$", "three"}, skip: []string{"zzz"}, desc: "suite"})
	marks := [][]int{nil, {1}, {2, 3}, {-1}, {1, -1}, {-2, -3}, {4, -5}, {11}, {-12, 12}, {102}, {102, 1}, {101, 3}}
	// a mark n>0: spec n focused; n<0: spec -n pending; +10: on the container; 100+n: focused and pending
	for mi, ms := range marks {
		for ci, k := range cfgs {
			if mi > 0 && ci >= 32 || mi > 0 && c.Tier != "thorough" && (ci*7+mi)%2 != 0 && ci != 0 {
				continue
			}
			specs := append([]sp{}, base...)
			for _, m := range ms {
				f := m > 0
				a := m
				if a < 0 {
					a = -a
				}
				both := a > 100
				a %= 100
				inC := a > 10
				a %= 10
				s := &specs[a-1]
				s.focused = s.focused || f
				s.pending = s.pending || !f || both
				s.inContainer = inC
			}
			anyFocus := false
			for _, s := range specs {
				anyFocus = anyFocus || s.focused && !s.pending
			}
			match := func(pats []string, s string) bool {
				for _, p := range pats {
					if ok, _ := regexp.MatchString(p, s); ok {
						return true
					}
				}
				return false
			}
			fileMatch := func(fs []string, s sp) bool {
				lines := []int{s.line}
				if s.ctext != "" {
					lines = append(lines, s.cline)
				}
				for _, f := range fs {
					parts := strings.Split(f, ":")
					if ok, _ := regexp.MatchString(parts[0], s.file); !ok {
						continue
					}
					if len(parts) == 1 {
						return true
					}
					ab := strings.Split(parts[1], "-")
					lo, _ := strconv.Atoi(ab[0])
					hi := lo + 1
					if len(ab) == 2 {
						hi, _ = strconv.Atoi(ab[1])
					}
					for _, l := range lines {
						if lo <= l && l < hi {
							return true
						}
					}
				}
				return false
			}
			want := func(s sp) (bool, string) {
				text := k.desc + " "
				if s.ctext != "" {
					text += s.ctext + " "
				}
				if s.mid != "" {
					text += s.mid + " "
				}
				text += s.text
				labels := map[string]bool{s.label: true, s.clabel: true, s.mlabel: true, k.suiteLabel: true}
				switch {
				case s.pending:
					return true, "pending"
				case anyFocus && !s.focused:
					return true, "programmatic focus"
				case k.label == "fast || x" && !labels["fast"] && !labels["x"], k.label == "fast" && !labels["fast"], k.label == "!deep && slow" && (labels["deep"] || !labels["slow"]):
					return true, "label filter"
				case len(k.focusFiles) > 0 && !fileMatch(k.focusFiles, s):
					return true, "file focus"
				case len(k.skipFiles) > 0 && fileMatch(k.skipFiles, s):
					return true, "file skip"
				case len(k.fs) > 0 && !match(k.fs, text):
					return true, "text focus"
				case len(k.skip) > 0 && match(k.skip, text):
					return true, "text skip"
				}
				return false, "selected"
			}
			str := func(s string) *engine.Val { return strVal(s) }
			strList := func(x *engine.Interp, st *engine.State, name string, ss []string, t types.Type) *engine.Val {
				for i, s := range ss {
					x.Store(st, fmt.Sprintf("*%s[%d]", name, i), str(s))
				}
				return engine.SliceAt("*"+name, len(ss), t)
			}
			strsT := fieldOfType(cfgT, "FocusStrings")
			fields := map[string]*engine.Val{"LabelFilter": str(k.label)}
			for _, f := range []struct {
				n  string
				ss []string
			}{{"FocusStrings", k.fs}, {"SkipStrings", k.skip}, {"FocusFiles", k.focusFiles}, {"SkipFiles", k.skipFiles}} {
				fields[f.n] = engine.SliceAt("*cfg~"+f.n, len(f.ss), strsT)
			}
			args := make([]*engine.Val, len(fn.Params))
			args[specsP] = engine.SliceAt("*specs~", len(specs), specsT)
			args[descP] = str(k.desc)
			nl := 0
			if k.suiteLabel != "" {
				nl = 1
			}
			args[labelsP] = engine.SliceAt("*suitelabels~", nl, fn.Params[labelsP].Type())
			args[cfgP] = engine.Agg(engine.ParamSym(fn.Params[cfgP]), fields, cfgT)
			x := k03interp(c, fn, nil, args, func(x *engine.Interp, st *engine.State) {
				strList(x, st, "cfg~FocusStrings", k.fs, strsT)
				strList(x, st, "cfg~SkipStrings", k.skip, strsT)
				strList(x, st, "cfg~FocusFiles", k.focusFiles, strsT)
				strList(x, st, "cfg~SkipFiles", k.skipFiles, strsT)
				x.Store(st, "*suitelabels~[0]", str(k.suiteLabel))
				for i, s := range specs {
					n := 0
					nb := fmt.Sprintf("*nodes~%d", i)
					put := func(kind, text, label string, line int, focus, pending bool) {
						l := fmt.Sprintf("%s[%d]", nb, n)
						x.Store(st, l, engine.Nil(nodeT))
						x.Store(st, l+".ID", engine.IntVal(int64(10*i+n+1), types.Typ[types.Uint]))
						x.Store(st, l+".NodeType", c.ConstVal("types", kind))
						x.Store(st, l+".Text", str(text))
						x.Store(st, l+".CodeLocation.FileName", str(s.file))
						x.Store(st, l+".CodeLocation.LineNumber", engine.IntVal(int64(line), types.Typ[types.Int]))
						x.Store(st, l+".MarkedFocus", engine.BoolVal(focus))
						x.Store(st, l+".MarkedPending", engine.BoolVal(pending))
						var ls []string
						if label != "" {
							ls = []string{label}
						}
						x.Store(st, l+".Labels", strList(x, st, fmt.Sprintf("labels~%d~%d", i, n), ls, labelsT))
						n++
					}
					if s.ctext != "" {
						put("NodeTypeContainer", s.ctext, s.clabel, s.cline, s.focused && s.inContainer, s.pending && s.inContainer)
					}
					if s.mid != "" {
						put("NodeTypeContainer", s.mid, s.mlabel, s.cline, false, false)
					}
					direct := !s.inContainer || s.ctext == ""
					put("NodeTypeIt", s.text, s.label, s.line, s.focused && direct, s.pending && direct)
					loc := fmt.Sprintf("*specs~[%d]", i)
					x.Store(st, loc, engine.Nil(specT))
					x.Store(st, loc+".Nodes", engine.SliceAt(nb, n, nodesT))
					x.Store(st, loc+".Skip", engine.BoolVal(s.pending))
				}
			})
			x.Cfg.Budget = 400000
			c.Run(x)
			what := fmt.Sprintf("label %q, focus files %q, skip files %q, focus %q, skip %q, marks %v", k.label, k.focusFiles, k.skipFiles, k.fs, k.skip, ms)
			n := 0
			for _, e := range x.Exits {
				if e.Kind == engine.ExitStop {
					continue
				}
				n++
				p := e.St.Path(8)
				if e.Kind != engine.ExitReturn {
					c.Fail("selection returns", e.Pos, p, "%s: the selection panics", what)
					continue
				}
				out, focus := e.Ret, (*engine.Val)(nil)
				if len(e.Ret.Args) == 2 {
					out, focus = e.Ret.Args[0], e.Ret.Args[1]
				}
				if focus != nil {
					if b, ok := focus.Bool(); ok {
						c.Check(b == anyFocus, "programmatic focus reported", e.Pos, p, "%s: programmatic focus is reported as %v", what, b)
					}
				}
				es, ok := x.Elems(e.St, out)
				if !ok {
					c.Undecided("%s: the specs returned are not known", what)
					continue
				}
				if len(es) != len(specs) {
					c.Fail("no spec lost", e.Pos, p, "%s: %d specs are returned for %d", what, len(es), len(specs))
					continue
				}
				for i, v := range es {
					got, ok := x.FieldOf(e.St, v, "Skip").Bool()
					if !ok {
						c.Undecided("%s: whether spec %d is skipped is not known", what, i)
						continue
					}
					w, why := want(specs[i])
					c.Check(got == w, "spec "+why, e.Pos, p, "%s: the spec %q (focused %v, pending %v, labels %q %q, %s:%d) is skipped: %v", what, specs[i].text, specs[i].focused, specs[i].pending, specs[i].clabel, specs[i].label, specs[i].file, specs[i].line, got)
				}
			}
			if n == 0 {
				c.Undecided("%s: the selection never ends", what)
			}
		}
	}
}

func k03nested(c *Ctx) {
	fn := c.Fn("internal.ApplyNestedFocusPolicyToTree")
	treeT := c.Type("internal", "TreeNode")
	if fn == nil || treeT == nil {
		return
	}
	kidsT := fieldOfType(treeT, "Children")
	if kidsT == nil {
		c.Undecided("trees have no children")
		return
	}
	type tn struct {
		f, p bool
		kids []*tn
		id   int
	}
	shapes := []func() *tn{
		func() *tn { return &tn{kids: []*tn{{}, {}}} },
		func() *tn { return &tn{kids: []*tn{{kids: []*tn{{}}}, {}}} },
		func() *tn { return &tn{kids: []*tn{{kids: []*tn{{kids: []*tn{{}}}}}}} },
		func() *tn { return &tn{kids: []*tn{{kids: []*tn{{}, {}, {}}}}} },
		func() *tn { return &tn{kids: []*tn{{kids: []*tn{{kids: []*tn{{}, {}}}}}}} },
	}
	for si, shape := range shapes {
		var count func(t *tn, all *[]*tn)
		count = func(t *tn, all *[]*tn) {
			t.id = len(*all)
			*all = append(*all, t)
			for _, k := range t.kids {
				count(k, all)
			}
		}
		var probe []*tn
		count(shape(), &probe)
		total := 1
		for range probe[1:] {
			total *= 3
		}
		for m := 0; m < total; m++ {
			root := shape()
			var all []*tn
			count(root, &all)
			r := m
			desc := ""
			for _, t := range all[1:] {
				t.f, t.p = r%3 == 1, r%3 == 2
				desc += []string{".", "F", "P"}[r%3]
				r /= 3
			}
			var ref func(t *tn) bool
			want := map[int]bool{}
			ref = func(t *tn) bool {
				want[t.id] = t.f
				if t.p {
					// nothing below a pending container runs, and nothing there counts
					var keep func(t *tn)
					keep = func(t *tn) {
						want[t.id] = t.f
						for _, k := range t.kids {
							keep(k)
						}
					}
					keep(t)
					return false
				}
				below := false
				for _, k := range t.kids {
					below = ref(k) || below
				}
				want[t.id] = t.f && !below
				return t.f || below
			}
			ref(root)
			ptr := types.NewPointer(treeT)
			x := k03interp(c, fn, nil, []*engine.Val{engine.Sym("nonnil:tree~0", ptr)}, func(x *engine.Interp, st *engine.State) {
				for _, t := range all {
					loc := fmt.Sprintf("*nonnil:tree~%d", t.id)
					x.Store(st, loc+".Node.MarkedFocus", engine.BoolVal(t.f))
					x.Store(st, loc+".Node.MarkedPending", engine.BoolVal(t.p))
					for i, k := range t.kids {
						x.Store(st, fmt.Sprintf("*kids~%d[%d]", t.id, i), engine.Sym(fmt.Sprintf("nonnil:tree~%d", k.id), ptr))
					}
					x.Store(st, loc+".Children", engine.SliceAt(fmt.Sprintf("*kids~%d", t.id), len(t.kids), kidsT))
				}
			})
			c.Run(x)
			for _, e := range x.Exits {
				if e.Kind != engine.ExitReturn {
					continue
				}
				for _, t := range all[1:] {
					got, ok := x.Load(e.St, fmt.Sprintf("*nonnil:tree~%d.Node.MarkedFocus", t.id), types.Typ[types.Bool]).Bool()
					if !ok {
						c.Undecided("whether a node keeps its focus")
						continue
					}
					c.Check(got == want[t.id], fmt.Sprintf("focus kept %v", want[t.id]), e.Pos, e.St.Path(6), "tree %d with marks %s: node %d is focused afterwards: %v", si, desc, t.id, got)
				}
			}
		}
	}
}
