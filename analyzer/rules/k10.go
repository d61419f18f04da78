package rules

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{ID: "K10", Technique: "abstract interpretation of the change tracker over every sequence of changes to a suite's directory, a dependency's directory and runs (two changes, three in the thorough tier) against a reference of what is due, of the dependency search over import graphs and depths, and of the watch loop over what it reports",
		Note: "A directory listing, file information, the clock and the resolution of imports are given by a model; a change of a file is a change of its size or time of modification. Two suites, one dependency each.",
		Run:  k10})
}

func k10(c *Ctx) {
	c.Rule("changes", "after every sequence of changes the suites due are exactly those of whose files, or whose dependency's files, something was changed since they last ran, and suites that appear and disappear are told as such")
	k10changes(c)
	c.Floor(100)
	c.Rule("dependencies", "the dependencies of a suite are the packages it reaches by imports within the configured depth, each once and not itself")
	k10deps(c)
	c.Floor(20)
	c.Rule("watch-loop", "every suite that is new or due is marked as running and then compiled and run once, and no other")
	k10loop(c)
	c.Floor(4)
}

type k10world struct {
	dirs    map[string]map[string]int // directory: file: version
	imports map[string][]string
	tests   map[string][]string
}

func (w k10world) clone() k10world {
	n := k10world{map[string]map[string]int{}, map[string][]string{}, w.tests}
	for d, is := range w.imports {
		n.imports[d] = is
	}
	for d, fs := range w.dirs {
		n.dirs[d] = map[string]int{}
		for f, v := range fs {
			n.dirs[d][f] = v
		}
	}
	return n
}

// relevant is what of a directory counts for a suite.
func (w k10world) relevant(dir string, tests bool) string {
	fs, ok := w.dirs[dir]
	if !ok {
		return "gone"
	}
	var out []string
	for f, v := range fs {
		if strings.HasSuffix(f, ".go") && !strings.HasPrefix(f, ".") && !strings.HasPrefix(f, "_") && (tests || !strings.HasSuffix(f, "_test.go")) {
			out = append(out, fmt.Sprint(f, v))
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// k10text evaluates what is built from known values.
func k10text(k *engine.Call) ([]engine.Outcome, bool) {
	if k.Name == "fmt.Sprintf" && len(k.Args) == 2 {
		f, ok := k.Args[0].Str()
		es, ok2 := k.X.Elems(k.St, k.Args[1])
		if !ok || !ok2 {
			return nil, false
		}
		var args []any
		for _, e := range es {
			e = e.Unbox()
			if s, ok := e.Str(); ok {
				args = append(args, s)
			} else if i, ok := e.Int(); ok {
				args = append(args, i)
			} else {
				return nil, false
			}
		}
		return k.Return(strVal(fmt.Sprintf(f, args...))), true
	}
	return constText(k)
}

// k10model answers for the file system, the clock and the packages.
func k10model(c *Ctx, w k10world, k *engine.Call) ([]engine.Outcome, bool) {
	str := func(i int) (string, bool) {
		if i < len(k.Args) && k.Args[i] != nil {
			return k.Args[i].Unbox().Str()
		}
		return "", false
	}
	name := func(mark string) (string, string, bool) { // the file an entry or information is about
		key := ""
		if k.Recv != nil {
			key = k.Recv.Key()
		}
		if len(k.Args) > 0 && !strings.Contains(key, mark) && k.Args[0] != nil {
			key = k.Args[0].Key()
		}
		i := strings.Index(key, mark)
		if i < 0 {
			return "", "", false
		}
		key = key[i+len(mark):]
		j := strings.Index(key, ";")
		d, f, ok := strings.Cut(key[:j], ":")
		return d, f, ok
	}
	fail := func() ([]engine.Outcome, bool) {
		tup := k.T.(*types.Tuple)
		return k.Return(engine.Tuple(engine.Nil(tup.At(0).Type()), engine.Sym("nonnil:err:gone", tup.At(1).Type()))), true
	}
	clock := func(v *engine.Val) (int64, bool) {
		i := strings.Index(v.Key(), "now~")
		if i < 0 {
			return 0, v.IsNil() || !strings.Contains(v.Key(), "#") && !strings.Contains(v.Key(), "mtime~")
		}
		s := v.Key()[i+4:]
		n, err := strconv.Atoi(s[:strings.Index(s, ";")])
		return int64(n), err == nil
	}
	short := k.Name[strings.LastIndex(k.Name, ".")+1:]
	switch {
	case k.Name == "os.ReadDir":
		d, ok := str(0)
		if !ok {
			return nil, false
		}
		fs, ok := w.dirs[d]
		if !ok {
			return fail()
		}
		tup := k.T.(*types.Tuple)
		et := tup.At(0).Type().Underlying().(*types.Slice).Elem()
		var names []string
		for f := range fs {
			names = append(names, f)
		}
		sort.Strings(names)
		var es []*engine.Val
		for _, f := range names {
			es = append(es, engine.Sym("nonnil:entry~"+d+":"+f+";", et))
		}
		return k.Return(engine.Tuple(k.NewSlice(es, tup.At(0).Type()), engine.Nil(tup.At(1).Type()))), true
	case strings.HasPrefix(k.Name, "invoke ") && hasAny(k.Name, "fs.DirEntry.", "os.DirEntry.", "fs.FileInfo.", "os.FileInfo."):
		d, f, ok := name("entry~")
		if !ok {
			if d, f, ok = name("info~"); !ok {
				return nil, false
			}
		}
		switch short {
		case "IsDir":
			return k.Return(engine.BoolVal(strings.HasSuffix(f, "/"))), true
		case "Name":
			return k.Return(strVal(strings.TrimSuffix(f, "/"))), true
		case "Info":
			tup := k.T.(*types.Tuple)
			return k.Return(engine.Tuple(engine.Sym("nonnil:info~"+d+":"+f+";", tup.At(0).Type()), engine.Nil(tup.At(1).Type()))), true
		case "Size":
			return k.Return(engine.IntVal(10+int64(w.dirs[d][f]/2), k.T)), true
		case "ModTime":
			return k.Return(engine.Sym("mtime~"+d+":"+f+";", k.T)), true
		}
	case strings.HasPrefix(k.Name, "(time.Time).Unix"):
		if d, f, ok := name("mtime~"); ok {
			if short == "Unix" { // all that happens here happens within a second
				return k.Return(engine.IntVal(100, k.T)), true
			}
			return k.Return(engine.IntVal(100+int64((w.dirs[d][f]+1)/2), k.T)), true
		}
	case k.Name == "time.Now":
		k.St.Auto["clock"] += "t"
		return k.Return(engine.Sym(fmt.Sprintf("now~%d;", len(k.St.Auto["clock"])), k.T)), true
	case k.Name == "(time.Time).Sub":
		a, ok1 := clock(k.Args[0])
		b, ok2 := clock(k.Args[1])
		if ok1 && ok2 {
			return k.Return(engine.IntVal(a-b, k.T)), true
		}
	case k.Name == "(time.Time).After", k.Name == "(time.Time).Before":
		a, ok1 := clock(k.Args[0])
		b, ok2 := clock(k.Args[1])
		if ok1 && ok2 {
			return k.Return(engine.BoolVal(short == "After" && a > b || short == "Before" && a < b)), true
		}
	case k.Name == "(time.Time).IsZero":
		if a, ok := clock(k.Args[0]); ok {
			return k.Return(engine.BoolVal(a == 0)), true
		}
	case k.Name == "math.Max":
		if k.Args[0].IsConst() && k.Args[1].IsConst() {
			if k10less(k.Args[0], k.Args[1]) {
				return k.Return(k.Args[1]), true
			}
			return k.Return(k.Args[0]), true
		}
	case k.Name == "path/filepath.Abs":
		tup := k.T.(*types.Tuple)
		return k.Return(engine.Tuple(k.Args[0], engine.Nil(tup.At(1).Type()))), true
	case k.Name == "sort.Sort", k.Name == "sort.Slice", k.Name == "sort.Stable", k.Name == "sort.SliceStable", k.Name == "slices.SortFunc":
		return k.Return(engine.Nil(k.T)), true
	case k.Name == "go/build.ImportDir", k.Name == "go/build.Import", strings.HasSuffix(k.Name, "build.Context).Import"), strings.HasSuffix(k.Name, "build.Context).ImportDir"):
		i := 0
		if strings.Contains(k.Name, "Context") {
			i = 1
		}
		d, ok := str(i)
		if !ok {
			return nil, false
		}
		goroot := d == "fmt"
		if short == "Import" {
			d = "/" + d
		}
		if _, ok := w.dirs[d]; !ok && !goroot {
			return fail()
		}
		tup := k.T.(*types.Tuple)
		k.St.Auto["pkgs"] += "p"
		ptr := engine.Sym(fmt.Sprintf("nonnil:pkg~%d;", len(k.St.Auto["pkgs"])), tup.At(0).Type())
		loc, _ := k.X.Deref(ptr)
		strs := func(ss []string) *engine.Val {
			st := types.NewSlice(types.Typ[types.String])
			if len(ss) == 0 {
				return engine.Nil(st)
			}
			var es []*engine.Val
			for _, s := range ss {
				es = append(es, strVal(s))
			}
			return k.NewSlice(es, st)
		}
		pt := tup.At(0).Type().Underlying().(*types.Pointer).Elem()
		f := map[string]*engine.Val{
			"Dir": strVal(d), "Goroot": engine.BoolVal(goroot), "Imports": strs(w.imports[d]), "TestImports": strs(w.tests[d]), "XTestImports": strs(w.tests[d+" x"]),
		}
		k.X.Store(k.St, loc, engine.Agg(engine.Nil(pt), f, pt))
		return k.Return(engine.Tuple(ptr, engine.Nil(tup.At(1).Type()))), true
	case k.Name == "builtin println", k.Name == "builtin print":
		return k.Return(engine.Nil(k.T)), true
	case strings.HasPrefix(k.Name, "(*sync."):
		return k.Return(k.Fresh()), true
	}
	return k10text(k)
}

func k10less(a, b *engine.Val) bool {
	f := func(v *engine.Val) float64 {
		if v.IsNil() {
			return 0
		}
		n, err := strconv.ParseFloat(strings.Split(v.C.ExactString(), "/")[0], 64)
		if err != nil {
			return 0
		}
		return n
	}
	return f(a) < f(b)
}

// k10globals gives the patterns the package keeps in variables.
func k10globals(c *Ctx, x *engine.Interp, st *engine.State) {
	for g, ss := range globalStores(c) {
		if len(ss) != 1 || g.Pkg == nil || !strings.HasSuffix(g.Pkg.Pkg.Path(), "ginkgo/watch") {
			continue
		}
		call, ok := ss[0].Val.(*ssa.Call)
		if !ok || call.Call.StaticCallee() == nil || c.P.CalleeName(call.Call.StaticCallee()) != "regexp.MustCompile" {
			continue
		}
		if k, ok := call.Call.Args[0].(*ssa.Const); ok && k.Value != nil {
			pat := engine.Const(k.Value, k.Type())
			if s, ok := pat.Str(); ok {
				x.Store(st, x.GlobalLoc(g), engine.Sym("nonnil:re~"+strconv.Quote(s), g.Type().Underlying().(*types.Pointer).Elem()))
			}
		}
	}
}

// k10run interprets one function in the world as it is.
func k10run(c *Ctx, w k10world, prev *engine.Interp, from *engine.State, fn *ssa.Function, args []*engine.Val, orders bool, init func(*engine.Interp, *engine.State)) (*engine.Interp, []*engine.Exit) {
	var x *engine.Interp
	x = engine.New(c.P, engine.Cfg{Root: fn, Args: args, Linear: true, RangeMaps: true, OneMapOrder: !orders, Budget: 20000, Lists: 200000,
		Concrete: func(*ssa.Phi) bool { return true },
		OnCall:   func(k *engine.Call) ([]engine.Outcome, bool) { return k10model(c, w, k) },
		Init: func(st *engine.State) {
			k10globals(c, x, st)
			if from != nil {
				st.CopyMem(from)
				for k, v := range from.Auto {
					st.Auto[k] = v
				}
			}
			if init != nil {
				init(x, st)
			}
		}})
	if prev != nil {
		x.ContinueTokens(prev)
	}
	c.Run(x)
	if prev != nil {
		prev.ContinueTokens(x)
	}
	var out []*engine.Exit
	for _, e := range x.Exits {
		if e.Kind != engine.ExitStop {
			out = append(out, e)
		}
	}
	if len(x.Undec) > 0 { // reported by Run
		return x, nil
	}
	return x, out
}

func k10regexp(T types.Type) *engine.Val {
	return engine.Sym("nonnil:re~"+strconv.Quote(`\.go$`), T)
}

func k10changes(c *Ctx) {
	newFn, delta, will := c.Fn("ginkgo/watch.NewDeltaTracker"), c.Fn("(*ginkgo/watch.DeltaTracker).Delta"), c.Fn("(*ginkgo/watch.DeltaTracker).WillRun")
	modified := c.Fn("(ginkgo/watch.Delta).ModifiedSuites")
	suiteT := c.Type("ginkgo/internal", "TestSuite")
	if newFn == nil || delta == nil || will == nil || modified == nil || suiteT == nil || len(newFn.Params) != 2 || len(delta.Params) != 2 || len(will.Params) != 2 {
		return
	}
	depth := 2
	if c.Tier == "thorough" {
		depth = 3
	}
	suiteAt := func(path string) *engine.Val {
		return engine.Agg(engine.Nil(suiteT), map[string]*engine.Val{"Path": strVal(path), "PackageName": strVal(path)}, suiteT)
	}
	type ref struct {
		known, pending bool
		snap           string
		imports        []string // as they were found last
	}
	// the path of every suite in a list of suites
	paths := func(x *engine.Interp, st *engine.State, v *engine.Val) (string, bool) {
		if v.IsNil() {
			return "", true
		}
		es, ok := x.Elems(st, v)
		if !ok {
			return "", false
		}
		var out []string
		for _, e := range es {
			pt, ok := e.T.Underlying().(*types.Pointer)
			if !ok {
				return "", false
			}
			loc, _ := x.Deref(e)
			obj := x.Load(st, loc, pt.Elem())
			f := x.FieldOf(st, obj, "Suite")
			if f == nil {
				return "", false
			}
			s, ok := x.FieldOf(st, f, "Path").Str()
			if !ok {
				return "", false
			}
			out = append(out, s)
		}
		sort.Strings(out)
		return strings.Join(out, " "), true
	}
	edits := []struct {
		name string
		do   func(w k10world) bool
	}{
		{"the suite imports another package", func(w k10world) bool {
			for _, i := range w.imports["/s"] {
				if i == "e" {
					return false
				}
			}
			w.imports["/s"] = append([]string{"e"}, w.imports["/s"]...)
			return k10bump(w, "/s", "s.go", 2)
		}},
		{"a source file of another package changes", func(w k10world) bool { return k10bump(w, "/e", "e.go", 2) }},
		{"both suites change", func(w k10world) bool {
			return k10bump(w, "/s", "s.go", 2) && k10bump(w, "/o", "o.go", 2)
		}},
		{"nothing", func(w k10world) bool { return true }},
		{"a test file of the suite changes size", func(w k10world) bool { return k10bump(w, "/s", "s_test.go", 2) }},
		{"a test file of the suite is touched", func(w k10world) bool { return k10bump(w, "/s", "s_test.go", 1) }},
		{"a source file of the suite changes", func(w k10world) bool { return k10bump(w, "/s", "s.go", 2) }},
		{"a source file of the dependency changes", func(w k10world) bool { return k10bump(w, "/d", "d.go", 2) }},
		{"a source file of the dependency is touched", func(w k10world) bool { return k10bump(w, "/d", "d.go", 1) }},
		{"a test file of the dependency changes", func(w k10world) bool { return k10bump(w, "/d", "d_test.go", 2) }},
		{"a file that does not match changes", func(w k10world) bool { return k10bump(w, "/s", "notes.txt", 2) }},
		{"a hidden file changes", func(w k10world) bool { return k10bump(w, "/s", ".s.go", 2) }},
		{"a directory is added", func(w k10world) bool { return k10add(w, "/s", "sub.go/") }},
		{"a source file of the suite is added", func(w k10world) bool { return k10add(w, "/s", "a.go") }},
		{"a test file of the suite is added", func(w k10world) bool { return k10add(w, "/s", "a_test.go") }},
		{"a source file of the suite is removed", func(w k10world) bool { return k10drop(w, "/s", "s.go") }},
		{"a test file of the suite is removed", func(w k10world) bool { return k10drop(w, "/s", "s_test.go") }},
		{"a source file of the dependency is added", func(w k10world) bool { return k10add(w, "/d", "a.go") }},
		{"a source file of the dependency is removed", func(w k10world) bool { return k10drop(w, "/d", "d.go") }},
		{"the dependency goes", func(w k10world) bool {
			_, ok := w.dirs["/d"]
			delete(w.dirs, "/d")
			return ok
		}},
		{"the dependency comes back", func(w k10world) bool {
			_, ok := w.dirs["/d"]
			w.dirs["/d"] = map[string]int{"d.go": 1}
			return !ok
		}},
		{"the suite goes", func(w k10world) bool {
			_, ok := w.dirs["/s"]
			delete(w.dirs, "/s")
			return ok
		}},
		{"the suite comes back", func(w k10world) bool {
			_, ok := w.dirs["/s"]
			w.dirs["/s"] = map[string]int{"s.go": 1, "s_test.go": 1}
			return !ok
		}},
		{"the suite comes back and another one changes", func(w k10world) bool {
			_, ok := w.dirs["/s"]
			w.dirs["/s"] = map[string]int{"s.go": 1, "s_test.go": 1}
			return !ok && k10bump(w, "/o", "o.go", 2)
		}},
	}
	imports := map[string][]string{"/s": {"d", "fmt"}, "/o": {"fmt"}}
	for maxDepth := 0; maxDepth <= 1; maxDepth++ {
		w := k10world{map[string]map[string]int{
			"/s": {"s.go": 1, "s_test.go": 1, "notes.txt": 1, ".s.go": 1}, "/d": {"d.go": 1, "d_test.go": 1}, "/o": {"o.go": 1}, "/e": {"e.go": 1},
		}, imports, nil}
		x, es := k10run(c, w, nil, nil, newFn, []*engine.Val{engine.IntVal(int64(maxDepth), newFn.Params[0].Type()), k10regexp(newFn.Params[1].Type())}, false, nil)
		if len(es) != 1 || es[0].Ret == nil {
			c.Undecided("the tracker cannot be made: %v", x.Undec)
			return
		}
		recv := es[0].Ret
		snap := func(w k10world, s string, imports []string) string {
			r := w.relevant(s, true)
			for _, i := range imports {
				if maxDepth > 0 && i != "fmt" {
					r += " / " + w.relevant("/"+i, false)
				}
			}
			return r
		}
		// look is one call of Delta
		look := func(w k10world, prev *engine.Interp, e *engine.Exit, refs map[string]ref, hist string, last bool) (*engine.Interp, []*engine.Exit, map[string]ref, bool) {
			var given []string
			for _, s := range []string{"/s", "/o"} {
				if _, ok := w.dirs[s]; ok {
					given = append(given, s)
				}
			}
			next := map[string]ref{}
			var wantNew, wantMod, wantGone []string
			for _, s := range []string{"/o", "/s"} {
				r := refs[s]
				switch {
				case in(s, given) && !r.known:
					wantNew = append(wantNew, s)
					r = ref{known: true, snap: snap(w, s, w.imports[s]), imports: w.imports[s]}
				case in(s, given):
					if n := snap(w, s, r.imports); n != r.snap {
						r.pending, r.snap = true, n
					}
					if r.pending {
						wantMod = append(wantMod, s)
					}
				case r.known:
					wantGone = append(wantGone, s)
					r = ref{}
				}
				next[s] = r
			}
			y, outs := k10run(c, w, prev, e.St, delta, []*engine.Val{recv, engine.SliceAt("*given", len(given), delta.Params[1].Type())}, last, func(x *engine.Interp, st *engine.State) {
				for i, s := range given {
					x.Store(st, fmt.Sprintf("*given[%d]", i), suiteAt(s))
				}
			})
			if len(outs) == 0 {
				c.Undecided("after %s: what the tracker says is not known: %v", hist, y.Undec)
				return y, nil, nil, false
			}
			for _, o := range outs {
				if o.Kind != engine.ExitReturn || o.Ret == nil || len(o.Ret.Args) < 1 {
					c.Fail("tracker answers", o.Pos, o.St.Path(8), "after %s the tracker leaves by %s", hist, o.Kind)
					continue
				}
				d := o.Ret.Args[0]
				z, ms := k10run(c, w, y, o.St, modified, []*engine.Val{d}, false, nil)
				if len(ms) != 1 || ms[0].Ret == nil {
					c.Undecided("after %s: the modified suites are not known: %v", hist, z.Undec)
					return y, nil, nil, false
				}
				got := map[string]string{}
				known := true
				for n, v := range map[string]*engine.Val{"new": x.FieldOf(o.St, d, "NewSuites"), "removed": x.FieldOf(o.St, d, "RemovedSuites")} {
					if v == nil {
						known = false
						continue
					}
					s, ok := paths(y, o.St, v)
					got[n], known = s, known && ok
				}
				s, ok := paths(z, ms[0].St, ms[0].Ret)
				got["modified"], known = s, known && ok
				if !known {
					c.Undecided("after %s: the suites told by the tracker are not known: %v", hist, d)
					return y, nil, nil, false
				}
				for n, want := range map[string][]string{"new": wantNew, "modified": wantMod, "removed": wantGone} {
					c.Check(got[n] == strings.Join(want, " "), n+" suites", o.Pos, o.St.Path(6), "depth %d, %s: the %s suites are [%s] instead of %v", maxDepth, hist, n, got[n], want)
				}
			}
			return y, outs, next, true
		}
		y, outs, refs, ok := look(w, x, es[0], map[string]ref{}, "the start", false)
		if !ok || len(outs) == 0 {
			return
		}
		broken := false
		top, only := 0, false
		var walk func(w k10world, x *engine.Interp, e *engine.Exit, refs map[string]ref, n int, hist string)
		walk = func(w k10world, x *engine.Interp, e *engine.Exit, refs map[string]ref, n int, hist string) {
			if n == 0 || broken {
				return
			}
			for _, ed := range edits {
				v := w.clone()
				if only && !hasAny(ed.name, "goes", "comes back", "source file of the dependency changes") || !ed.do(v) {
					continue
				}
				h := hist + ", " + ed.name
				y, outs, next, ok := look(v, x, e, refs, h, n == top)
				if !ok {
					broken = true
					return
				}
				for i, o := range outs {
					if o.Kind != engine.ExitReturn || i > 0 && n == top {
						continue
					}
					walk(v, y, o, next, n-1, h)
					_, dThere := v.dirs["/d"]
					if !dThere || !next["/s"].known {
						continue // what a suite depends on while an import cannot be resolved is left open
					}
					z, rs := k10run(c, v, y, o.St, will, []*engine.Val{recv, suiteAt("/s")}, false, nil)
					if len(rs) == 0 {
						c.Undecided("%s: running is not known: %v", h, z.Undec)
						broken = true
						return
					}
					ran := map[string]ref{"/s": {known: true, snap: snap(v, "/s", v.imports["/s"]), imports: v.imports["/s"]}, "/o": next["/o"]}
					for _, r := range rs {
						if r.Kind != engine.ExitReturn {
							c.Fail("marking as run", r.Pos, r.St.Path(6), "after %s marking the suite as run leaves by %s", h, r.Kind)
							continue
						}
						if n > 1 {
							walk(v, z, r, ran, n-1, h+", a run")
						} else {
							look(v, z, r, ran, h+", a run", n == top)
						}
					}
				}
			}
		}
		d := depth
		if maxDepth == 0 {
			d--
		}
		top = d
		for _, o := range outs {
			if o.Kind == engine.ExitReturn {
				walk(w, y, o, refs, d, "the start")
				if c.Tier != "thorough" { // things that come and go, a little longer
					only, top = true, 0
					walk(w, y, o, refs, d+1, "the start")
					only, top = false, d
				}
			}
		}
	}
}

func k10bump(w k10world, dir, file string, by int) bool {
	fs, ok := w.dirs[dir]
	if !ok || fs[file] == 0 {
		return false
	}
	fs[file] += by
	return true
}

func k10add(w k10world, dir, file string) bool {
	fs, ok := w.dirs[dir]
	if !ok || fs[file] != 0 {
		return false
	}
	fs[file] = 1
	return true
}

func k10drop(w k10world, dir, file string) bool {
	fs, ok := w.dirs[dir]
	if !ok || fs[file] == 0 {
		return false
	}
	delete(fs, file)
	return true
}

// k10deps compares the dependencies found with the distances in the import graph.
func k10deps(c *Ctx) {
	fn := c.Fn("ginkgo/watch.NewDependencies")
	acc := c.Fn("(ginkgo/watch.Dependencies).Dependencies")
	if fn == nil || acc == nil || len(fn.Params) != 2 {
		return
	}
	type graph struct {
		imports map[string][]string
		tests   map[string][]string
	}
	s := func(ss ...string) []string { return ss }
	graphs := []graph{
		{map[string][]string{"/s": s("a"), "/a": s("b"), "/b": s("e")}, nil},
		{map[string][]string{"/s": s("a", "b"), "/a": s("e"), "/b": s("e")}, nil},
		{map[string][]string{"/s": s("a", "e"), "/a": s("b"), "/b": s("e")}, nil},
		{map[string][]string{"/a": s("b"), "/b": s("s2")}, map[string][]string{"/s": s("a"), "/s x": s("s", "e")}},
		{map[string][]string{"/s": s("fmt", "missing", "a"), "/a": s("missing", "b", "fmt")}, map[string][]string{"/s": s("b"), "/a": s("e")}},
		{nil, map[string][]string{"/s x": s("s", "a"), "/a x": s("e")}},
	}
	for gi, g := range graphs {
		w := k10world{map[string]map[string]int{}, g.imports, g.tests}
		for _, d := range []string{"/s", "/a", "/b", "/e", "/s2"} {
			w.dirs[d] = map[string]int{"x.go": 1}
		}
		for depth := 0; depth <= 4; depth++ {
			// the reference
			want := map[string]int{}
			level := []string{"/s"}
			for d := 1; d <= depth; d++ {
				var next []string
				for _, p := range level {
					is := append([]string{}, g.imports[p]...)
					if d == 1 {
						is = append(append(is, g.tests[p]...), g.tests[p+" x"]...)
					}
					for _, i := range is {
						q := "/" + i
						if _, ok := w.dirs[q]; !ok || q == "/s" {
							continue
						}
						if _, ok := want[q]; !ok {
							want[q] = d
							next = append(next, q)
						}
					}
				}
				level = next
			}
			x, es := k10run(c, w, nil, nil, fn, []*engine.Val{strVal("/s"), engine.IntVal(int64(depth), fn.Params[1].Type())}, true, nil)
			if len(es) == 0 {
				c.Undecided("graph %d, depth %d: the dependencies are not known: %v", gi, depth, x.Undec)
				continue
			}
			for _, e := range es {
				if e.Kind != engine.ExitReturn || e.Ret == nil || len(e.Ret.Args) != 2 {
					c.Fail("dependencies", e.Pos, e.St.Path(8), "graph %d, depth %d: finding the dependencies leaves by %s", gi, depth, e.Kind)
					continue
				}
				y, as := k10run(c, w, x, e.St, acc, []*engine.Val{e.Ret.Args[0]}, false, nil)
				if len(as) != 1 || as[0].Ret == nil {
					c.Undecided("graph %d: the dependencies are not known: %v", gi, y.Undec)
					continue
				}
				ks, ok := y.MapKeys(as[0].St, as[0].Ret)
				if !ok {
					c.Undecided("graph %d: the dependencies are not known: %v", gi, as[0].Ret)
					continue
				}
				got := map[string]bool{}
				for _, k := range ks {
					n, _ := k.Str()
					got[n] = true
				}
				var miss, extra []string
				for n := range want {
					if !got[n] {
						miss = append(miss, n)
					}
				}
				for n := range got {
					if _, ok := want[n]; !ok {
						extra = append(extra, n)
					}
				}
				sort.Strings(miss)
				sort.Strings(extra)
				c.Check(len(miss) == 0, "no dependency missed", e.Pos, e.St.Path(6), "imports %v (tests %v), depth %d: the dependencies %v are missed", g.imports, g.tests, depth, miss)
				c.Check(len(extra) == 0, "no other dependency", e.Pos, e.St.Path(6), "imports %v (tests %v), depth %d: %v are taken for dependencies", g.imports, g.tests, depth, extra)
			}
		}
	}
}

// k10loop follows the watch command.
func k10loop(c *Ctx) {
	fn := c.Fn("(*ginkgo/watch.SpecWatcher).WatchSpecs")
	suiteT, wsuiteT := c.Type("ginkgo/internal", "TestSuite"), c.Type("ginkgo/watch", "Suite")
	statusT := c.Type("internal/interrupt_handler", "InterruptStatus")
	if fn == nil || suiteT == nil || wsuiteT == nil || statusT == nil {
		return
	}
	lvlT := fieldOfType(statusT, "Level")
	path := func(x *engine.Interp, st *engine.State, v *engine.Val) string {
		s, ok := x.FieldOf(st, v, "Path").Str()
		if !ok {
			return "?"
		}
		return s
	}
	for _, sc := range []struct{ fresh, mod []string }{{nil, nil}, {[]string{"n"}, nil}, {nil, []string{"m"}}, {[]string{"n"}, []string{"m", "k"}}} {
		sc := sc
		looked := 0
		var x *engine.Interp
		due := append(append([]string{}, sc.fresh...), sc.mod...)
		done := func(st *engine.State, in ssa.Instruction) {
			if st.Auto["looked"] != "2" || st.Auto["interrupted"] != "" {
				return
			}
			for _, d := range due {
				c.Check(strings.Contains(st.Auto["ran"], d+" "), "due suite runs", in.Pos(), st.Path(12), "of the new suites %v and the modified suites %v, %s does not run", sc.fresh, sc.mod, d)
			}
		}
		x = engine.New(c.P, engine.Cfg{Root: fn, Budget: 60000, Concrete: func(*ssa.Phi) bool { return true },
			Track: func(l string) bool {
				return strings.HasPrefix(l, "alloc") || strings.HasPrefix(l, "*ws~") || strings.Contains(l, "ws~")
			},
			TrackFact: func(v *engine.Val) bool { return false },
			OnWait: func(x *engine.Interp, st *engine.State, in *ssa.Select, chs []*engine.Val) {
				done(st, in)
				if st.Auto["looked"] == "2" {
					st.Stop()
				}
			},
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				short := k.Name[strings.LastIndex(k.Name, ".")+1:]
				mk := func(p string) *engine.Val {
					return engine.Agg(engine.Sym("suite~"+p, suiteT), map[string]*engine.Val{"Path": strVal(p), "State": c.ConstVal("ginkgo/internal", "TestSuiteStateUncompiled"), "PathToCompiledTest": strVal("")}, suiteT)
				}
				list := func(ps []string, T types.Type) *engine.Val {
					var es []*engine.Val
					for _, p := range ps {
						v := engine.Sym("nonnil:ws~"+p+";", types.NewPointer(wsuiteT))
						loc, _ := k.X.Deref(v)
						k.X.Store(k.St, loc, engine.Agg(engine.Sym("wsuite~"+p, wsuiteT), map[string]*engine.Val{"Suite": mk(p)}, wsuiteT))
						es = append(es, v)
					}
					return k.NewSlice(es, T)
				}
				switch {
				case strings.HasSuffix(k.Name, "internal.FindSuites"), short == "WithoutState":
					return k.Return(k.NewSlice([]*engine.Val{mk("x"), mk("y")}, k.T)), true
				case strings.HasSuffix(k.Name, "DeltaTracker).Delta"):
					looked++
					tup, ok := k.T.(*types.Tuple)
					if !ok {
						return nil, false
					}
					dt := tup.At(0).Type()
					sT := types.NewSlice(types.NewPointer(wsuiteT))
					var d *engine.Val
					if k.St.Auto["looked"] == "" {
						k.St.Auto["looked"] = "1"
						d = engine.Agg(engine.Nil(dt), map[string]*engine.Val{"NewSuites": list([]string{"x", "y"}, sT)}, dt)
					} else {
						k.St.Auto["looked"] = "2"
						d = engine.Agg(engine.Nil(dt), map[string]*engine.Val{"NewSuites": list(sc.fresh, sT)}, dt)
					}
					return k.Return(engine.Tuple(d, engine.Nil(tup.At(1).Type()))), true
				case short == "ModifiedSuites":
					return k.Return(list(sc.mod, k.T)), true
				case short == "WillRun":
					k.St.Auto["will"] += path(x, k.St, k.Args[1]) + " "
					return k.Return(k.Fresh()), true
				case short == "CompileSuite" || short == "RunCompiledSuite":
					p := path(x, k.St, k.Args[0])
					if p == "?" {
						c.Undecided("which suite is run is not known")
						return k.Return(k.Fresh()), true
					}
					if k.St.Auto["looked"] == "2" {
						c.Check(in(p, due), "only due suites run", k.Pos(), k.St.Path(12), "%s runs although only the new suites %v and the modified suites %v are due", p, sc.fresh, sc.mod)
						c.Check(strings.Contains(k.St.Auto["will"], p+" "), "marked before running", k.Pos(), k.St.Path(12), "%s is compiled or run before it is marked as running: what changes meanwhile is missed", p)
						if short == "RunCompiledSuite" {
							c.Check(!strings.Contains(k.St.Auto["ran"], p+" "), "runs once", k.Pos(), k.St.Path(12), "%s runs twice for one change", p)
							k.St.Auto["ran"] += p + " "
						}
					}
					var outs []engine.Outcome
					for _, s := range map[string][]string{"CompileSuite": {"Compiled", "FailedToCompile"}, "RunCompiledSuite": {"Passed", "Failed"}}[short] {
						s2 := k.St.Clone()
						if s == "FailedToCompile" {
							s2.Auto["ran"] += p + " "
						}
						outs = append(outs, engine.Outcome{St: s2, Ret: engine.Agg(k.Args[0], map[string]*engine.Val{"State": c.ConstVal("ginkgo/internal", "TestSuiteState"+s), "CompilationError": engine.Sym("nonnil:err:compile", c.P.ErrorType())}, suiteT)})
					}
					return outs, true
				case short == "Status" && engine.TypeStr(k.T) == engine.TypeStr(statusT):
					lv := func(l int64) *engine.Val {
						return engine.Agg(k.Fresh(), map[string]*engine.Val{"Level": engine.IntVal(l, lvlT)}, statusT)
					}
					if k.St.Auto["ran"] != "" || k.St.Auto["looked"] != "2" {
						return k.Return(lv(0)), true
					}
					s2 := k.St.Clone()
					s2.Auto["interrupted"] = "1"
					return []engine.Outcome{{St: k.St, Ret: lv(0)}, {St: s2, Ret: lv(1)}}, true
				case short == "FinalizeProfilesAndReportsForSuites":
					o, ok := forkErr(k)
					if ok {
						o = o[:1]
					}
					return o, ok
				case short == "VerifyCLIAndFrameworkVersion", short == "Cleanup", short == "computeSuccinctMode", short == "updateSeed", short == "Description", short == "NewDeltaTracker", short == "CountWithState",
					strings.HasPrefix(k.Name, "fmt."), strings.HasPrefix(k.Name, "formatter."), strings.HasPrefix(k.Name, "regexp."), strings.HasSuffix(k.Name, ".PluralizedWord"):
					return k.Return(k.Fresh()), true
				}
				return nil, false
			}})
		c.Run(x)
		if looked == 0 {
			c.Undecided("the watch command never asks what changed")
		}
	}
}

var _ = regexp.MustCompile
