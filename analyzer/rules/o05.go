package rules

import (
	"go/types"
	"sort"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{
		ID:        "O05",
		Technique: "path-sensitive error-propagation and typestate analysis: every fallible operation forks into success and failure and every return of a failed path is judged",
		Note:      "Closing a file that was only read and removing a source file are best effort and not obligations; what the operating system reports only after close is out of reach.",
		Run:       o05,
	})
}

// fallible: the last result of the call is an error.
func fallible(c *Ctx, call *ssa.CallCommon) bool {
	r := call.Signature().Results()
	return r.Len() > 0 && types.Identical(r.At(r.Len()-1).Type(), c.P.ErrorType())
}

// fileOps are the operations that touch a file.
func fileOp(name string) bool {
	for _, s := range []string{"os.Create", "os.OpenFile", "os.WriteFile", "os.ReadFile", "os.Open", "os.Rename", "os.CreateTemp"} {
		if name == s {
			return true
		}
	}
	return false
}

// errorMakers build an error: they do not fail.
func errorMaker(name string) bool {
	return name == "fmt.Errorf" || name == "errors.New" || strings.HasSuffix(name, "errors.Join")
}

// fileFuncs are the functions of the report and command packages that handle files and can report an error.
func fileFuncs(c *Ctx) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.P.Funcs {
		if f.Pkg == nil || f.Parent() != nil || len(f.Blocks) == 0 {
			continue
		}
		switch c.P.ShortPkg(f.Pkg.Pkg.Path()) {
		case "reporters", "ginkgo/internal":
		default:
			continue
		}
		r := f.Signature.Results()
		if r.Len() == 0 || !types.Identical(r.At(r.Len()-1).Type(), c.P.ErrorType()) {
			continue
		}
		if handlesFiles(c, f) {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// handlesFiles: the function touches files, runs a program or is handed a writer.
func handlesFiles(c *Ctx, f *ssa.Function) bool {
	for _, p := range f.Params {
		if hasAny(p.Type().String(), "io.Writer", "os.File", "bufio.Writer") {
			return true
		}
	}
	for _, g := range c.P.Reach(f, func(h *ssa.Function) bool { return !inModule(c, h) }) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if cal := call.Common().StaticCallee(); cal != nil && (fileOp(c.P.CalleeName(cal)) || strings.Contains(c.P.CalleeName(cal), "exec.Command")) {
						return true
					}
				}
			}
		}
	}
	return false
}

func o05(c *Ctx) {
	fns := fileFuncs(c)
	set := map[*ssa.Function]bool{}
	for _, f := range fns {
		set[f] = true
	}
	o05functions(c, fns, set)
	o05callers(c, fns, set)
}

// aWriter says what kind of writer a value is.
func writerKind(v *engine.Val) string {
	u := v
	if u.K == engine.VIface {
		u = u.Unbox()
	}
	if u.T == nil {
		return ""
	}
	s := u.T.String()
	switch {
	case strings.HasSuffix(s, "bufio.Writer"):
		return "buffered"
	case strings.HasSuffix(s, "strings.Builder"), strings.HasSuffix(s, "bytes.Buffer"):
		return "memory"
	case strings.HasSuffix(s, "os.File"):
		return "file"
	}
	return "writer"
}

func o05functions(c *Ctx, fns []*ssa.Function, set map[*ssa.Function]bool) {
	c.Rule("propagation", "in every function that generates, rewrites, merges or copies a report, profile or binary: a path on which creating, opening, reading, encoding, writing, flushing or closing for writing failed ends with an error, or, for a source of a merge, adds a message; what is written through a buffer is flushed and what is written to a file is closed before success is reported; a source is removed only by a function that merges and after it was read")
	n := 0
	for _, fn := range fns {
		fn := fn
		sites := map[string]bool{}
		spills := fn.Recover != nil // results live in memory when there are deferred calls
		nres := fn.Signature.Results().Len()
		hasMsgs := nres == 2
		// what a path did is kept in its automaton: failed[site], dirty writers, open outputs
		var x *engine.Interp
		pending := func(st *engine.State) (out []string) {
			for _, k := range sortedKeys(st.Auto) {
				if strings.HasPrefix(k, "failed:") && st.Auto[k] != "" {
					out = append(out, st.Auto[k])
				}
			}
			return
		}
		x = engine.New(c.P, engine.Cfg{Root: fn, Budget: 60000, MaxDepth: 6,
			Track: func(l string) bool { return spills && strings.HasPrefix(l, "alloc") },
			StoreAs: func(x *engine.Interp, st *engine.State, loc string, v *engine.Val) (string, *engine.Val) {
				if v.K == engine.VSym && !strings.Contains(v.S, "#") && !strings.Contains(v.S, "~~;") || carriesError(v.T, 0) {
					return loc, v
				}
				if root, rv := x.RootOf(st, loc); rv != nil && rv.T != nil && !carriesError(rv.T, 0) {
					return root, engine.Sym("any~~;", rv.T)
				}
				return loc, engine.Sym("any~~;", v.T)
			},
			TrackFact: func(v *engine.Val) bool { return strings.Contains(v.Key(), "err:io:") },
			OnStore: func(x *engine.Interp, st *engine.State, in ssa.Instruction, loc string, old, v *engine.Val) {
				// a message was added: the failures whose text it can mention are told
			},
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				name := k.Name
				site := c.P.RelPos(k.Pos())
				if strings.HasPrefix(name, "builtin") {
					if name == "builtin:append" && hasMsgs && len(k.Args) == 2 && strings.HasSuffix(k.T.String(), "[]string") {
						for _, e := range pending(k.St) {
							if k.St.Auto["source:"+e] != "" {
								k.St.Auto["told:"+e] = "yes"
							}
						}
					}
					return nil, false
				}
				if errorMaker(name) {
					return k.Return(engine.Sym("nonnil:err:made@"+site, k.T)), true
				}
				if k.Fn != nil && !set[k.Fn] && inModule(c, k.Fn) && k.Fn.Blocks != nil && !fallible(c, k.Com) && !handlesFiles(c, k.Fn) {
					for _, v := range k.Args {
						if w := v; w.K == engine.VIface && writerKind(w) == "buffered" {
							k.St.Auto["dirty:"+w.Unbox().Key()] = site
						}
					}
					return k.Return(anyResult(k)), true
				}
				if !fallible(c, k.Com) {
					if k.Fn != nil && !inModule(c, k.Fn) && k.Com.Signature().Results().Len() <= 1 {
						return k.Return(anyResult(k)), true
					}
					return nil, false
				}
				// best effort
				switch {
				case name == "os.Remove" || name == "os.RemoveAll":
					if merges(fn) {
						c.Check(k.St.Auto["last"] != "failed", c.P.CalleeName(fn)+" remove", k.Pos(), k.St.Path(12), "%s removes a source that could not be read", c.P.CalleeName(fn))
						k.St.Auto["removed"] = site
					} else if strings.Contains(strings.ToLower(fn.Name()), "generate") {
						c.Fail(c.P.CalleeName(fn)+" remove", k.Pos(), k.St.Path(12), "%s removes a file although it merges nothing", c.P.CalleeName(fn))
					}
					return k.Return(k.Fresh()), true
				case strings.Contains(name, "fmt.Print"), strings.Contains(name, "path/filepath.Abs"), name == "filepath.Abs", strings.HasSuffix(name, "os.Stat"), strings.HasSuffix(name, "File).Sync"):
					return k.Return(k.Fresh()), true
				case strings.HasPrefix(name, "fmt.Fprint") && len(k.Args) > 0:
					switch writerKind(k.Args[0]) {
					case "memory":
						return k.Return(k.Fresh()), true
					case "buffered":
						k.St.Auto["dirty:"+k.Args[0].Unbox().Key()] = site
						return k.Return(k.Fresh()), true
					}
					if strings.Contains(k.Args[0].Key(), "os.Std") || strings.Contains(k.Args[0].Key(), "Colorable") || strings.Contains(k.Args[0].Key(), "os::Std") {
						return k.Return(k.Fresh()), true
					}
				case strings.Contains(name, "strings.Builder)") || strings.Contains(name, "bytes.Buffer)"):
					return k.Return(k.Fresh()), true
				case strings.Contains(name, "bufio.Writer).Write"):
					k.St.Auto["dirty:"+k.Args[0].Key()] = site
					return k.Return(k.Fresh()), true
				case strings.Contains(name, "bufio.Writer).Flush"):
					delete(k.St.Auto, "dirty:"+k.Args[0].Key())
				case strings.HasSuffix(name, "os.File).Close") && len(k.Args) > 0:
					h := k.Args[0].Key()
					if k.St.Auto["open:"+h] == "" || len(pending(k.St)) > 0 {
						delete(k.St.Auto, "open:"+h)
						return k.Return(engine.Nil(k.X.P.ErrorType())), true // only read, or another failure is to be reported
					}
					delete(k.St.Auto, "open:"+h)
				}
				sites[site] = true
				reads := name == "os.ReadFile" || name == "os.Open" || strings.HasSuffix(name, "cover.ParseProfiles")
				decodes := reads || hasAny(name, "Unmarshal", "Decode", ".Parse")
				if reads {
					delete(k.St.Auto, "removed")
				}
				// two outcomes
				var okv, bad *engine.Val
				res := k.Com.Signature().Results()
				okErr, badErr := engine.Nil(k.X.P.ErrorType()), engine.Sym("nonnil:err:io:"+site, k.X.P.ErrorType())
				s2 := k.St.Clone()
				if res.Len() == 1 {
					okv, bad = okErr, badErr
				} else {
					a, b := make([]*engine.Val, res.Len()), make([]*engine.Val, res.Len())
					for i := range a {
						t := res.At(i).Type()
						a[i], b[i] = engine.Sym("nonnil:io~"+site, t), engine.Nil(t)
						if i == 0 && strings.HasSuffix(t.String(), "[]string") {
							a[i], b[i] = engine.Sym("msgs~"+site, t), engine.Sym("msgs~"+site, t)
						}
					}
					a[res.Len()-1], b[res.Len()-1] = okErr, badErr
					okv, bad = engine.Tuple(a...), engine.Tuple(b...)
					if name == "os.Create" || name == "os.OpenFile" {
						k.St.Auto["open:"+a[0].Key()] = site
					}
				}
				if decodes {
					s2.Auto["source:"+name+" at "+site] = "yes"
					k.St.Auto["last"], s2.Auto["last"] = "ok", "failed"
					if at := s2.Auto["removed"]; at != "" && merges(fn) {
						c.Fail(c.P.CalleeName(fn)+" remove", k.Pos(), s2.Path(12), "%s removes a source at %s before it is known to be readable (%s can still fail)", c.P.CalleeName(fn), at, name)
					}
				}
				s2.Auto["failed:"+site] = name + " at " + site
				delete(s2.Auto, "told:"+name+" at "+site)
				return append(k.Return(okv), engine.Outcome{St: s2, Ret: bad}), true
			}})
		c.Run(x)
		if len(x.Undec) > 0 {
			c.Undecided("%s: %v", c.P.CalleeName(fn), x.Undec)
			continue
		}
		for _, e := range x.Exits {
			if e.Kind != engine.ExitReturn {
				continue
			}
			err := e.Ret
			if e.Ret != nil && e.Ret.K == engine.VTuple {
				err = e.Ret.Args[len(e.Ret.Args)-1]
			}
			n++
			if err == nil || !err.IsNil() {
				c.Ok("%s reports %s", c.P.CalleeName(fn), err.Key())
				continue
			}
			var silent []string
			for _, f := range pending(e.St) {
				if e.St.Auto["told:"+f] == "" {
					silent = append(silent, f)
				}
			}
			for _, s := range silent {
				c.Fail(c.P.CalleeName(fn)+" "+s, fn.Pos(), e.St.Path(14), "%s failed but %s reports success", s, c.P.CalleeName(fn))
			}
			for _, k := range sortedKeys(e.St.Auto) {
				if strings.HasPrefix(k, "dirty:") {
					c.Fail(c.P.CalleeName(fn)+" flush", fn.Pos(), e.St.Path(14), "%s reports success although what was written at %s is still buffered", c.P.CalleeName(fn), e.St.Auto[k])
				}
				if strings.HasPrefix(k, "open:") && len(silent) == 0 {
					c.Fail(c.P.CalleeName(fn)+" close", fn.Pos(), e.St.Path(14), "%s reports success although the file opened at %s has not been closed: a failure to write it is lost", c.P.CalleeName(fn), e.St.Auto[k])
				}
			}
			c.Ok("%s reports success", c.P.CalleeName(fn))
		}
	}
	c.Floor(n)
}

func o05callers(c *Ctx, fns []*ssa.Function, set map[*ssa.Function]bool) {
	c.Rule("surfaced", "every caller of such a function outside them looks at its error")
	for _, fn := range fns {
		for _, f := range c.P.Funcs {
			if set[f] || !inModule(c, f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(ssa.CallInstruction)
					if !ok || call.Common().StaticCallee() != fn {
						continue
					}
					v, ok := in.(*ssa.Call)
					if !ok {
						c.Fail(c.P.CalleeName(f), in.Pos(), nil, "%s is started without looking at its error", c.P.CalleeName(fn))
						continue
					}
					path, ok := errSurfaced(c, v)
					c.Check(ok, c.P.CalleeName(f), in.Pos(), path, "an error of %s is dropped", c.P.CalleeName(fn))
				}
			}
		}
	}
	// the messages of a merge are passed on
	for _, f := range c.P.Funcs {
		if !inModule(c, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || !fallible(c, call.Common()) {
					continue
				}
				r := call.Common().Signature().Results()
				if r.Len() != 2 || r.At(0).Type().String() != "[]string" {
					continue
				}
				if cal := call.Common().StaticCallee(); cal != nil && !set[cal] || cal == nil && !set[f] {
					continue
				}
				used := false
				for _, ref := range *call.Referrers() {
					if ex, isE := ref.(*ssa.Extract); isE && ex.Index == 0 && len(*ex.Referrers()) > 0 {
						used = true
					}
					if _, isR := ref.(*ssa.Return); isR {
						used = true
					}
				}
				c.Check(used, c.P.CalleeName(f), in.Pos(), nil, "the messages about sources that could not be merged are dropped")
			}
		}
	}
	c.Floor(1)
}

// carriesError: values of the type can say whether something failed or is a file.
func carriesError(t types.Type, depth int) bool {
	if t == nil || depth > 3 {
		return false
	}
	if hasAny(t.String(), "os.File", "bufio.", "io.", "xml.", "json.") {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsBoolean != 0
	case *types.Interface, *types.Signature:
		return true
	case *types.Pointer:
		return carriesError(u.Elem(), depth+1)
	case *types.Slice:
		return carriesError(u.Elem(), depth+1)
	case *types.Array:
		return carriesError(u.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !strings.HasPrefix(u.Field(i).Type().String(), "bool") && carriesError(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

// merges: the function is given a list of files.
func merges(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if strings.HasSuffix(p.Type().String(), "[]string") {
			return true
		}
	}
	return false
}

// anyResult is a result of a call that says nothing.
func anyResult(k *engine.Call) *engine.Val {
	if k.T == nil {
		return nil
	}
	if _, isT := k.T.(*types.Tuple); isT {
		return k.Fresh()
	}
	return engine.Sym("any~~;", k.T)
}

// errSurfaced: on every way on from the call with an error, the error is handed to something.
func errSurfaced(c *Ctx, call *ssa.Call) (path []string, ok bool) {
	var err ssa.Value = call
	if tup, isT := call.Type().(*types.Tuple); isT {
		err = nil
		for _, r := range *call.Referrers() {
			if ex, isE := r.(*ssa.Extract); isE && ex.Index == tup.Len()-1 {
				err = ex
			}
		}
		if err == nil {
			return []string{c.P.RelPos(call.Pos()) + ": the error is not looked at"}, false
		}
	}
	known := false // on the side where the error is known not to be nil
	uses := func(in ssa.Instruction) bool {
		switch in.(type) {
		case *ssa.BinOp, *ssa.DebugRef, *ssa.Extract:
			return false
		}
		if k, isC := in.(ssa.CallInstruction); isC && known {
			n := ""
			if cal := k.Common().StaticCallee(); cal != nil {
				n = cal.Name()
			}
			if hasAny(n, "Fail", "Abort", "Print", "Fprint", "Exit") {
				return true
			}
		}
		for _, op := range in.Operands(nil) {
			if *op == err {
				return true
			}
		}
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) bool
	walk = func(b *ssa.BasicBlock, from int) bool {
		for _, in := range b.Instrs[from:] {
			if uses(in) {
				return true
			}
			switch i := in.(type) {
			case *ssa.Call:
				if i == call {
					path = append(path, c.P.RelPos(in.Pos())+": called again")
					return false
				}
			case *ssa.Panic:
				return true
			case *ssa.Return:
				path = append(path, c.P.RelPos(in.Pos())+": return")
				return false
			case *ssa.If:
				if bo, isB := i.Cond.(*ssa.BinOp); isB && (bo.X == err || bo.Y == err) {
					to := b.Succs[0]
					if bo.Op.String() == "==" {
						to = b.Succs[1]
					}
					if seen[to] {
						return true
					}
					seen[to] = true
					known = true
					r := walk(to, 0)
					known = false
					return r
				}
			}
		}
		for _, s := range b.Succs {
			if seen[s] {
				continue
			}
			seen[s] = true
			// a phi that carries the error on counts as handing it on
			for _, in := range s.Instrs {
				if p, isP := in.(*ssa.Phi); isP {
					for k, e := range p.Edges {
						if s.Preds[k] == b && e == err {
							return true
						}
					}
				}
			}
			if !walk(s, 0) {
				return false
			}
		}
		return true
	}
	at := -1
	for i, in := range call.Block().Instrs {
		if in == call {
			at = i
		}
	}
	ok = walk(call.Block(), at+1)
	return
}
