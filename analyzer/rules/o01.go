package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{ID: "O01", Technique: "typestate and dataflow over every path of the functions that intercept output (start, node, stop, store into the record); abstract interpretation of the interceptor over every sequence of up to four operations (five in the thorough tier) and every outcome of waiting for content, against a reference machine of streams, pipes and descriptors; the goroutines it starts on every path",
		Note: "A descriptor is followed by its identity; the effect of dup, dup2, close and pipe is that of their documentation, and copying ends when every writer of the pipe is closed or not at all.",
		Run:  o01})
}

func o01(c *Ctx) {
	c.Rule("pairing", "every start of interception is followed by exactly one stop before it is started again or left, nodes run while it is on, and what was intercepted and written is added to the record, after what it already holds")
	o01pairing(c)
	c.Floor(40)
	c.Rule("machine", "after every sequence of operations the streams, pipes, clones and helper goroutines are those the reference machine has, and what is returned is what was intercepted since the start")
	o01machine(c)
	c.Floor(1000)
	c.Rule("helpers", "the goroutine that collects output yields exactly one content per pipe and closes its end of it; the one that makes pipes closes those nobody took")
	o01helpers(c)
	c.Floor(8)
	c.Rule("streams", "the original streams are kept, replaced by the pipe and restored, each in its place, and the copies kept are not inherited by children and closed at the end")
	o01streams(c)
	c.Floor(10)
	c.Rule("entry-points", "pausing and resuming by the user reach the interceptor, and the interceptor is shut down after the run on every way out")
	o01entry(c)
	c.Floor(6)
}

func o01pairing(c *Ctx) {
	for _, root := range []string{"(*internal.Suite).reportEach", "(*internal.Suite).runSuiteNode", "(*internal.Suite).runReportSuiteNode", "(*internal.group).run"} {
		fn := c.Fn(root)
		if fn == nil {
			continue
		}
		pre := suitePrefix(fn)
		rec := pre + ".currentSpecReport"
		cells := map[string]string{rec + ".CapturedStdOutErr": "out", rec + ".CapturedGinkgoWriterOutput": "gw"}
		short := root[strings.LastIndex(root, ".")+1:]
		starts, stops := 0, 0
		done := func(st *engine.State, pos token.Pos, where string) {
			p := st.Path(12)
			c.Check(st.Auto["on"] == "", short+" stopped "+where, pos, p, "interception is still on %s", where)
			c.Check(st.Auto["out"] == "", short+" output recorded "+where, pos, p, "what was intercepted is not in the record %s", where)
			c.Check(in(st.Auto["gw"], []string{"", "clean", "stored"}), short+" writer output recorded "+where, pos, p, "what was written to the writer is not in the record %s (%s)", where, st.Auto["gw"])
		}
		var x *engine.Interp
		run := func(k *engine.Call) {
			p := k.St.Path(12)
			c.Check(k.St.Auto["on"] != "", short+" node runs intercepted", k.Pos(), p, "a node runs while output is not intercepted")
			c.Check(k.St.Auto["gw"] != "", short+" node runs with an empty writer", k.Pos(), p, "a node runs while the writer still holds what an earlier node wrote")
			k.St.Auto["on"] = "dirty"
			if k.St.Auto["gw"] == "stored" {
				k.St.Auto["gw"] = "again"
			} else if k.St.Auto["gw"] == "clean" {
				k.St.Auto["gw"] = "dirty"
			}
		}
		x = engine.New(c.P, engine.Cfg{Root: fn, Budget: 400000,
			Init: func(st *engine.State) {
				if strings.HasSuffix(root, ".reportEach") { // the record already holds the output of the spec
					st.Auto["hasout"], st.Auto["hasgw"] = "1", "1"
				}
			},
			Track: func(l string) bool {
				return strings.HasSuffix(l, ".suite") || cells[l] != "" || l == rec || strings.HasPrefix(l, "alloc") || strings.Contains(l, ".config.")
			},
			TrackFact: func(v *engine.Val) bool { return hasAny(v.Key(), ".config.", "err") },
			Opaque: func(f *ssa.Function) bool {
				n := c.P.CalleeName(f)
				return hasAny(n, ".runNode", ".attemptSpec", ".reportEach", ".processCurrentSpecReport", ".handleSpecEvent", ".evaluateSkipStatus", ".initialReportForSpec", "runOncePairsForSpec", ".failureForLeafNodeWithMessage", "(types.", "(internal.Nodes).", "(internal.Spec).")
			},
			StoreAs: func(x *engine.Interp, st *engine.State, loc string, v *engine.Val) (string, *engine.Val) {
				if cell := cells[loc]; cell != "" && strings.Contains(v.Key(), "~") {
					return loc, engine.Sym("held~"+cell, v.T)
				}
				return loc, v
			},
			OnStore: func(x *engine.Interp, st *engine.State, in ssa.Instruction, loc string, old, v *engine.Val) {
				if loc == rec {
					done(st, in.Pos(), "when the next record begins")
					st.Auto["hasout"], st.Auto["hasgw"] = "", ""
					return
				}
				cell := cells[loc]
				if cell == "" {
					return
				}
				mark := map[string]string{"out": "intercepted~", "gw": "written~"}[cell]
				at, keeps := strings.Index(v.Key(), mark), -1
				if old != nil {
					keeps = strings.Index(v.Key(), old.Key())
				}
				if at < 0 {
					if strings.Contains(v.Key(), "expr#") {
						c.Undecided("%s: %s is set to %v", short, loc, v)
						st.Auto[cell] = ""
					} else if st.Auto["has"+cell] != "" {
						c.Check(keeps >= 0, short+" keeps earlier "+cell, in.Pos(), st.Path(12), "what the record already holds is replaced by %v", v)
					}
					return
				}
				if st.Auto["has"+cell] != "" {
					c.Check(old != nil && keeps >= 0 && keeps < at, short+" keeps earlier "+cell, in.Pos(), st.Path(12), "what the record already holds is lost or put behind: %v", v)
				}
				if cell == "gw" && st.Auto["gw"] == "twice" {
					c.Check(keeps < 0 || old.IsNil(), short+" writer output once", in.Pos(), st.Path(12), "what an earlier node wrote is recorded again")
				}
				st.Auto["has"+cell] = "1"
				if cell == "out" {
					st.Auto["out"] = ""
				} else {
					st.Auto["gw"] = "stored"
				}
			},
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				n := k.Name
				p := k.St.Path(12)
				switch {
				case strings.HasSuffix(n, ".StartInterceptingOutput") || strings.HasSuffix(n, ".StartInterceptingOutputAndForwardTo"):
					starts++
					c.Check(k.St.Auto["on"] == "", short+" starts once", k.Pos(), p, "interception is started although it is on: the second start does nothing and the output of both is mixed")
					c.Check(k.St.Auto["out"] == "", short+" recorded before the next start", k.Pos(), p, "interception starts again before what was intercepted is in the record")
					k.St.Auto["on"] = "on"
					return k.Return(engine.Nil(k.T)), true
				case strings.HasSuffix(n, ".StopInterceptingAndReturnOutput"):
					stops++
					c.Check(k.St.Auto["on"] != "", short+" stops once", k.Pos(), p, "interception is stopped although it is off: what was intercepted before is returned again")
					if k.St.Auto["on"] == "dirty" {
						k.St.Auto["out"] = "owed"
					}
					k.St.Auto["on"] = ""
					return k.Return(engine.Sym("intercepted~", k.T)), true
				case strings.HasSuffix(n, "WriterInterface.Truncate") || strings.HasSuffix(n, "(*internal.Writer).Truncate"):
					c.Check(!in(k.St.Auto["gw"], []string{"dirty", "again", "twice", "owed"}), short+" recorded before truncation", k.Pos(), p, "the writer is emptied before what was written is in the record")
					k.St.Auto["gw"] = "clean"
					return k.Return(engine.Nil(k.T)), true
				case strings.HasSuffix(n, "WriterInterface.Bytes") || strings.HasSuffix(n, "(*internal.Writer).Bytes"):
					switch k.St.Auto["gw"] {
					case "dirty":
						k.St.Auto["gw"] = "owed"
					case "again":
						k.St.Auto["gw"] = "twice"
					}
					return k.Return(engine.Sym("written~", k.T)), true
				case n == "(*internal.Suite).runNode", n == "(*internal.group).attemptSpec":
					run(k)
					return k.Return(k.Fresh()), true
				case n == "(*internal.Suite).reportEach":
					c.Check(k.St.Auto["on"] == "", short+" off while reporting", k.Pos(), p, "reporting nodes run while the interception of another node is on")
					k.St.Auto["gw"] = map[string]string{"": "", "stored": "", "clean": ""}[k.St.Auto["gw"]]
					k.St.Auto["hasout"], k.St.Auto["hasgw"] = "1", "1"
					return k.Return(engine.Nil(k.T)), true
				case n == "(*internal.Suite).processCurrentSpecReport":
					done(k.St, k.Pos(), "when the record is processed")
					return k.Return(engine.Nil(k.T)), true
				}
				return nil, false
			}})
		c.Run(x)
		for _, e := range x.Exits {
			if e.Kind == engine.ExitStop {
				continue
			}
			done(e.St, e.Pos, "when it is left")
		}
		if starts == 0 || stops == 0 {
			c.Undecided("%s: no interception found", short)
		}
	}
}

// the interceptor and its operations
type o01op struct {
	name string
	fn   *ssa.Function
	fwd  bool
}

func o01ops(c *Ctx, v *engine.Val) []o01op {
	var out []o01op
	for _, n := range []string{"StartInterceptingOutput", "StartInterceptingOutputAndForwardTo", "PauseIntercepting", "ResumeIntercepting", "StopInterceptingAndReturnOutput", "Shutdown"} {
		f, _ := c.boxedMethod(v, n)
		if f == nil {
			c.Undecided("the interceptor has no %s", n)
			return nil
		}
		out = append(out, o01op{n, f, strings.HasSuffix(n, "ForwardTo")})
	}
	return out
}

// o01ref is the reference machine.
type o01ref struct {
	on, clones bool
	pipes      int
	acc        []string
	forward    string
	starts     int
}

func (r o01ref) next(op string) (o01ref, bool) {
	r.acc = append([]string{}, r.acc...)
	resume := func() {
		if !r.on {
			r.on, r.clones = true, true
			r.pipes++
		}
	}
	pause := func() {
		if r.on {
			r.on = false
			r.acc = append(r.acc, fmt.Sprintf("content~%d;", r.pipes))
		}
	}
	switch op {
	case "StartInterceptingOutput", "StartInterceptingOutputAndForwardTo":
		if !r.on {
			r.acc = nil
			r.forward = "discard"
			if r.starts++; strings.HasSuffix(op, "To") {
				r.forward = fmt.Sprintf("forward~%d;", r.starts)
			}
			resume()
		}
	case "PauseIntercepting":
		pause()
	case "ResumeIntercepting":
		if r.forward == "" {
			return r, false // never started
		}
		resume()
	case "StopInterceptingAndReturnOutput":
		pause()
	case "Shutdown":
		pause()
		r.clones = false
	}
	return r, true
}

func o01new(c *Ctx, ctor string) (*engine.Interp, *engine.Exit) {
	fn := c.Fn(ctor)
	if fn == nil {
		return nil, nil
	}
	x := engine.New(c.P, engine.Cfg{Root: fn, Linear: true, Budget: 2000})
	c.Run(x)
	if len(x.Exits) != 1 || x.Exits[0].Kind != engine.ExitReturn || x.Exits[0].Ret == nil {
		c.Undecided("%s does not give one interceptor", ctor)
		return nil, nil
	}
	return x, x.Exits[0]
}

func o01chan(ch *engine.Val) string {
	if ch == nil || ch.T == nil {
		return ""
	}
	t, ok := ch.T.Underlying().(*types.Chan)
	if !ok {
		return ""
	}
	switch n := engine.TypeStr(t.Elem()); {
	case n == "string":
		return "content"
	case strings.HasSuffix(n, "pipePair"):
		return "pipes"
	case strings.Contains(ch.Key(), "timer~"):
		return "timer"
	}
	return "signal"
}

// o01step runs one operation from a state the machine can be in.
func o01step(c *Ctx, prev *engine.Interp, from *engine.Exit, recv *engine.Val, op o01op, want o01ref) (*engine.Interp, []*engine.Exit) {
	args := []*engine.Val{recv.Unbox()}
	if op.fwd {
		args = append(args, engine.Sym(fmt.Sprintf("nonnil:forward~%d;", want.starts), op.fn.Params[1].Type()))
	}
	var x *engine.Interp
	hist := func(st *engine.State) string { return st.Auto["ops"] }
	wait := func(st *engine.State, pos token.Pos, ch *engine.Val) {
		if o01chan(ch) != "content" {
			return
		}
		p := st.Path(12)
		c.Check(st.Auto["collector"] == st.Auto["pipe"] && st.Auto["pipe"] != "", "content is awaited from a collector", pos, p, "after %s content is awaited although nothing collects it: the run hangs", hist(st))
		if st.Auto["bailed"] == "" {
			c.Check(st.Auto["writer"] == "" && st.Auto["conn"] == "", "pipe released before waiting", pos, p, "after %s content is awaited while the pipe is still written to: copying cannot end", hist(st))
		}
	}
	x = engine.New(c.P, engine.Cfg{Root: op.fn, Args: args, Linear: true, Budget: 4000,
		Init: func(st *engine.State) {
			st.CopyMem(from.St)
			for k, v := range from.St.Auto {
				st.Auto[k] = v
			}
			for k, v := range from.St.Vals {
				st.Vals[k] = v
			}
			st.Auto["ops"] += " " + op.name
			st.Auto["bailed"] = ""
		},
		OnGo: func(k *engine.Call) {
			f := k.Fn
			if f == nil && k.FnVal != nil {
				f = k.FnVal.Fn
			}
			if f == nil {
				c.Undecided("a goroutine of unknown function is started")
				return
			}
			switch {
			case o01reaches(c, f, "os.Pipe"):
				c.Check(k.St.Auto["factory"] == "", "one pipe factory", k.Pos(), k.St.Path(10), "after %s a second goroutine makes pipes: the first is leaked", hist(k.St))
				k.St.Auto["factory"] = "1"
				for _, a := range k.Args {
					if o01chan(a) == "signal" {
						k.St.Vals["stop"] = a
						c.Check(!strings.Contains(k.St.Auto["closed"], a.Key()), "factory not stopped at once", k.Pos(), k.St.Path(10), "after %s pipes are made until a channel is closed that is closed already", hist(k.St))
					}
				}
				k.St.Vals["factory"] = engine.Tuple(k.Args...)
			case o01reaches(c, f, "io.Copy"):
				k.St.Auto["collector"] = k.St.Auto["pipe"]
				k.St.Vals["collector"], k.St.Vals["collector args"] = o01started1(f, k)
			default:
				c.Undecided("a goroutine with no known purpose is started")
			}
		},
		RecvVal: func(x *engine.Interp, st *engine.State, in ssa.Instruction, ch *engine.Val) *engine.Val {
			switch o01chan(ch) {
			case "pipes":
				p := st.Path(10)
				c.Check(st.Auto["factory"] != "", "pipes are made", in.Pos(), p, "after %s a pipe is awaited although none are made: the run hangs", hist(st))
				c.Check(st.Auto["writer"] == "" && st.Auto["conn"] == "", "one pipe at a time", in.Pos(), p, "after %s a pipe is taken while another is in use: it is leaked", hist(st))
				n := len(st.Auto["pipes"]) + 1
				st.Auto["pipes"] += "p"
				st.Auto["pipe"] = fmt.Sprint(n)
				st.Auto["writer"] = fmt.Sprint(n)
				et := ch.T.Underlying().(*types.Chan).Elem()
				s := et.Underlying().(*types.Struct)
				f := map[string]*engine.Val{}
				for i := 0; i < s.NumFields(); i++ {
					f[s.Field(i).Name()] = engine.Sym(fmt.Sprintf("nonnil:%s~%d;", s.Field(i).Name(), n), s.Field(i).Type())
				}
				return engine.Agg(engine.Nil(et), f, et)
			case "content":
				st.Auto["collector"] = ""
				return engine.Sym("content~"+st.Auto["pipe"]+";", types.Typ[types.String])
			}
			return nil
		},
		OnRecv: func(x *engine.Interp, st *engine.State, in ssa.Instruction, ch *engine.Val) {
			wait(st, in.Pos(), ch)
			if o01chan(ch) == "content" {
				c.Check(st.Auto["bailed"] != "", "waiting is bounded", in.Pos(), st.Path(10), "content is awaited without a limit: a process that keeps the pipe open hangs the run")
			}
		},
		OnWait: func(x *engine.Interp, st *engine.State, in *ssa.Select, chs []*engine.Val) {
			timer := false
			for _, ch := range chs {
				wait(st, in.Pos(), ch)
				timer = timer || o01chan(ch) == "timer"
			}
			c.Check(timer, "waiting is bounded", in.Pos(), st.Path(10), "content is awaited without a limit: a process that keeps the pipe open hangs the run")
		},
		OnClose: func(x *engine.Interp, st *engine.State, in ssa.Instruction, ch *engine.Val) {
			if v := st.Vals["stop"]; v != nil && v.Key() == ch.Key() {
				c.Check(st.Auto["factory"] != "", "factory stopped once", in.Pos(), st.Path(10), "after %s the channel that stops the factory is closed twice", hist(st))
				st.Auto["factory"] = ""
				st.Auto["closed"] += ch.Key() + " "
				return
			}
			c.Check(!strings.Contains(st.Auto["closed"], ch.Key()), "closed once", in.Pos(), st.Path(10), "after %s %v is closed twice", hist(st), ch)
			st.Auto["closed"] += ch.Key() + " "
			st.Auto["bailed"] = "1"
			st.Vals["bail"] = ch
		},
		OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			key := func(i int) string {
				if i < len(k.Args) && k.Args[i] != nil {
					return k.Args[i].Key()
				}
				return ""
			}
			last := func(i int) string { return key(len(k.Args) - i) }
			p := k.St.Path(10)
			switch {
			case k.Name == "time.After" && k.T != nil:
				return k.Return(engine.Sym("nonnil:timer~", k.T)), true
			case strings.HasSuffix(k.Name, ".CreateStdoutStderrClones"):
				c.Check(k.St.Auto["clones"] == "", "clones made once", k.Pos(), p, "after %s the streams are copied again: the earlier copies are leaked", hist(k.St))
				c.Check(k.St.Auto["conn"] == "", "clones of the originals", k.Pos(), p, "after %s the streams are copied while they are redirected", hist(k.St))
				k.St.Auto["clones"] = "1"
				tup := k.T.(*types.Tuple)
				return k.Return(engine.Tuple(engine.Sym("nonnil:clone~out", tup.At(0).Type()), engine.Sym("nonnil:clone~err", tup.At(1).Type()))), true
			case strings.HasSuffix(k.Name, ".ConnectPipeToStdoutStderr"):
				c.Check(last(1) == "nonnil:writer~"+k.St.Auto["pipe"]+";" && k.St.Auto["writer"] != "", "connects the current pipe", k.Pos(), p, "after %s the streams are connected to %s", hist(k.St), last(1))
				c.Check(k.St.Auto["collector"] == k.St.Auto["pipe"], "collects before connecting", k.Pos(), p, "after %s the streams are connected to a pipe that nothing reads: writers block", hist(k.St))
				k.St.Auto["conn"] = k.St.Auto["pipe"]
				return k.Return(engine.Nil(k.T)), true
			case strings.HasSuffix(k.Name, ".RestoreStdoutStderrFromClones"):
				c.Check(last(2) == "nonnil:clone~out" && last(1) == "nonnil:clone~err" && k.St.Auto["clones"] != "", "restores from the clones", k.Pos(), p, "after %s the streams are restored from %s and %s", hist(k.St), last(2), last(1))
				k.St.Auto["conn"] = ""
				return k.Return(engine.Nil(k.T)), true
			case strings.HasSuffix(k.Name, ".ShutdownClones"):
				c.Check(last(2) == "nonnil:clone~out" && last(1) == "nonnil:clone~err" && k.St.Auto["clones"] != "", "closes the clones once", k.Pos(), p, "after %s the copies %s and %s are closed", hist(k.St), last(2), last(1))
				c.Check(k.St.Auto["conn"] == "", "restored before the clones go", k.Pos(), p, "after %s the copies of the streams are closed while they are redirected", hist(k.St))
				k.St.Auto["clones"] = ""
				return k.Return(engine.Nil(k.T)), true
			case k.Name == "(*os.File).Close":
				if w := "nonnil:writer~" + k.St.Auto["pipe"] + ";"; key(0) == w {
					c.Check(k.St.Auto["writer"] != "", "writer closed once", k.Pos(), p, "after %s the pipe is closed twice", hist(k.St))
					k.St.Auto["writer"] = ""
				}
				return k.Return(engine.Nil(k.T)), true
			}
			return nil, false
		}})
	x.ContinueTokens(prev)
	c.Run(x)
	prev.ContinueTokens(x)
	if len(x.Undec) > 0 {
		return x, nil
	}
	var out []*engine.Exit
	for _, e := range x.Exits {
		if e.Kind == engine.ExitStop {
			continue
		}
		a, p := e.St.Auto, e.St.Path(12)
		if e.Kind != engine.ExitReturn {
			c.Fail(op.name+" returns", e.Pos, p, "%s leaves by %s", a["ops"], e.Kind)
			continue
		}
		conn := ""
		if want.on {
			conn = fmt.Sprint(want.pipes)
		}
		c.Check(a["conn"] == conn, "streams after "+op.name, e.Pos, p, "after%s the streams go to %s instead of %s", a["ops"], orNone(a["conn"]), orNone(conn))
		c.Check(a["writer"] == conn, "pipe after "+op.name, e.Pos, p, "after%s the open pipe is %s instead of %s", a["ops"], orNone(a["writer"]), orNone(conn))
		c.Check((a["clones"] != "") == want.clones, "clones after "+op.name, e.Pos, p, "after%s there are copies of the streams: %v instead of %v", a["ops"], a["clones"] != "", want.clones)
		c.Check((a["factory"] != "") == want.clones, "factory after "+op.name, e.Pos, p, "after%s pipes are made: %v instead of %v", a["ops"], a["factory"] != "", want.clones)
		c.Check(a["collector"] == conn, "collector after "+op.name, e.Pos, p, "after%s output is collected from pipe %s instead of %s", a["ops"], orNone(a["collector"]), orNone(conn))
		if want.on {
			if col := e.St.Vals["collector"]; col != nil && col.Fn != nil {
				o01forwards(c, x, e, col, e.St.Vals["collector args"].Args, want.forward)
			}
		}
		if strings.HasPrefix(op.name, "Stop") {
			got := ""
			if e.Ret != nil {
				k := e.Ret.Key()
				for i := 1; i <= len(a["pipes"]); i++ {
					tok := fmt.Sprintf("content~%d;", i)
					for n := strings.Count(k, tok); n > 0; n-- {
						got += tok
					}
				}
				at := -1
				for _, t := range want.acc {
					if i := strings.Index(k, t); i < at {
						got = "out of order " + got
					} else {
						at = i
					}
				}
			}
			c.Check(got == strings.Join(want.acc, ""), "content of "+op.name, e.Pos, p, "after%s the content of [%s] is returned instead of that of [%s]", a["ops"], got, strings.Join(want.acc, ""))
		}
		out = append(out, e)
	}
	return x, out
}

// o01started1 is the function a goroutine runs, with what it captures, and the arguments it is given.
func o01started1(f *ssa.Function, k *engine.Call) (*engine.Val, *engine.Val) {
	fv := k.FnVal
	if fv == nil || fv.Fn == nil {
		fv = engine.Func(f)
	}
	return fv, engine.Tuple(k.Args...)
}

// o01forwards tells whether what is collected goes to the writer it should go to, and to no other.
func o01forwards(c *Ctx, x *engine.Interp, e *engine.Exit, col *engine.Val, args []*engine.Val, want string) {
	y := engine.New(c.P, engine.Cfg{Root: col.Fn, Bind: col.Args, Args: args, Linear: true, Budget: 2000,
		Init: func(st *engine.State) { st.CopyMem(e.St) },
		OnGo: func(k *engine.Call) {},
		OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			if k.Name != "io.MultiWriter" || len(k.Args) != 1 {
				return nil, false
			}
			es, ok := k.X.Elems(k.St, k.Args[0])
			if !ok {
				return nil, false
			}
			got := "discard"
			for _, el := range es {
				if i := strings.Index(el.Key(), "forward~"); i >= 0 {
					key := el.Key()[i:]
					got = key[:strings.Index(key, ";")+1]
				}
			}
			c.Check(got == want, "forwards to the writer of the start", k.Pos(), e.St.Path(8), "after%s what is collected is forwarded to %s instead of %s", e.St.Auto["ops"], got, want)
			k.St.Stop()
			return k.Return(engine.Sym("nonnil:both~", k.T)), true
		}})
	y.ContinueTokens(x)
	c.Run(y)
}

func o01reaches(c *Ctx, f *ssa.Function, callee string) bool {
	for _, g := range append([]*ssa.Function{f}, c.P.Reach(f, nil)...) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if t := call.Common().StaticCallee(); t != nil && c.P.CalleeName(t) == callee {
						return true
					}
				}
			}
		}
	}
	return false
}

func o01machine(c *Ctx) {
	depth := 4
	if c.Tier == "thorough" {
		depth = 5
	}
	for _, ctor := range []string{"internal.NewOutputInterceptor", "internal.NewOSGlobalReassigningOutputInterceptor"} {
		x, e := o01new(c, ctor)
		if x == nil {
			continue
		}
		ops := o01ops(c, e.Ret)
		recv := e.Ret
		var walk func(x *engine.Interp, e *engine.Exit, r o01ref, n int)
		walk = func(x *engine.Interp, e *engine.Exit, r o01ref, n int) {
			if n == 0 {
				return
			}
			for _, op := range ops {
				if n == 1 && ctor != "internal.NewOutputInterceptor" {
					continue // the two share their code: the shorter sequences do
				}
				w, ok := r.next(op.name)
				if !ok {
					continue
				}
				y, outs := o01step(c, x, e, recv, op, w)
				if outs == nil {
					c.Undecided("%s %s: no answer %v", e.St.Auto["ops"], op.name, y.Undec)
					return
				}
				for _, o := range outs {
					walk(y, o, w, n-1)
				}
			}
		}
		walk(x, e, o01ref{}, depth)
	}
}

func o01recv(c *Ctx) *engine.Val {
	_, e := o01new(c, "internal.NewOutputInterceptor")
	if e == nil {
		return nil
	}
	return e.Ret
}

// o01started is the interceptor right after it started with forwarding, with the goroutines it has.
func o01started(c *Ctx) (*engine.Interp, *engine.Exit) {
	x, e := o01new(c, "internal.NewOutputInterceptor")
	if x == nil {
		return nil, nil
	}
	for _, op := range o01ops(c, e.Ret) {
		if !op.fwd {
			continue
		}
		r, _ := o01ref{}.next(op.name)
		y, outs := o01step(c, x, e, e.Ret, op, r)
		if len(outs) == 1 {
			return y, outs[0]
		}
	}
	c.Undecided("starting the interceptor has no single outcome")
	return nil, nil
}

func o01helpers(c *Ctx) {
	x, e := o01started(c)
	if x == nil {
		return
	}
	col, fac := e.St.Vals["collector"], e.St.Vals["factory"]
	if col == nil || col.Fn == nil || fac == nil {
		c.Undecided("the goroutines of the interceptor not found")
		return
	}
	// the event that tells the collector to give up is the one raised when waiting for content takes too long
	var bail *engine.Val
	for _, op := range o01ops(c, o01recv(c)) {
		if op.name == "PauseIntercepting" {
			_, outs := o01step(c, x, e, o01recv(c), op, o01ref{clones: true, pipes: 1})
			for _, o := range outs {
				if v := o.St.Vals["bail"]; v != nil {
					bail = v
				}
			}
		}
	}
	if bail == nil {
		c.Undecided("what tells the collector to give up was not found")
		return
	}
	finish := map[string]bool{}
	// the collector
	var inner, innerArgs *engine.Val
	var innerSt *engine.State
	y := engine.New(c.P, engine.Cfg{Root: col.Fn, Bind: col.Args, Args: e.St.Vals["collector args"].Args, Linear: true, Budget: 4000,
		Init: func(st *engine.State) { st.CopyMem(e.St) },
		OnGo: func(k *engine.Call) {
			f := k.Fn
			if f == nil && k.FnVal != nil {
				f = k.FnVal.Fn
			}
			if f != nil {
				inner, innerArgs = o01started1(f, k)
				innerSt = k.St.Clone()
			}
		},
		OnSend: func(x *engine.Interp, st *engine.State, in ssa.Instruction, ch, v *engine.Val) {
			if o01chan(ch) == "content" {
				st.Auto["sent"] += "1"
				if st.Auto["bail"] == "" {
					c.Check(strings.Contains(v.Key(), "collected~"), "collector yields what it read", in.Pos(), st.Path(8), "the content is %v", v)
				}
			}
		},
		OnSelect: func(x *engine.Interp, st *engine.State, in *ssa.Select, i int, ch *engine.Val) {
			if ch != nil && ch.Key() == bail.Key() {
				st.Auto["bail"] = "1"
			}
		},
		OnWait: func(x *engine.Interp, st *engine.State, in *ssa.Select, chs []*engine.Val) {
			gives := false
			for _, ch := range chs {
				if ch.Key() == bail.Key() {
					gives = true
				} else {
					finish[ch.Key()] = true
				}
			}
			c.Check(gives, "collector can be told to give up", in.Pos(), st.Path(8), "the collector does not wait for the event that tells it to give up")
		},
		OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			switch k.Name {
			case "io.MultiWriter":
				es, ok := []*engine.Val(nil), false
				if len(k.Args) == 1 {
					es, ok = k.X.Elems(k.St, k.Args[0])
				}
				fwd := false
				for _, el := range es {
					fwd = fwd || strings.Contains(el.Key(), "forward~")
				}
				c.Check(ok && fwd && len(es) >= 2, "collector forwards", k.Pos(), k.St.Path(8), "output is collected into %v", es)
				return k.Return(engine.Sym("nonnil:both~", k.T)), true
			case "(*bytes.Buffer).String":
				return k.Return(engine.Sym("collected~", k.T)), true
			}
			return nil, false
		}})
	y.ContinueTokens(x)
	c.Run(y)
	for _, o := range y.Exits {
		if o.Kind == engine.ExitStop {
			continue
		}
		c.Check(o.St.Auto["sent"] == "1", "collector yields once", o.Pos, o.St.Path(8), "the collector yields %d contents for one pipe", len(o.St.Auto["sent"]))
	}
	if inner == nil || inner.Fn == nil {
		c.Undecided("the collector starts no copying")
	} else {
		z := engine.New(c.P, engine.Cfg{Root: inner.Fn, Bind: inner.Args, Args: innerArgs.Args, Linear: true, Budget: 4000,
			Init: func(st *engine.State) { st.CopyMem(innerSt) },
			OnClose: func(x *engine.Interp, st *engine.State, in ssa.Instruction, ch *engine.Val) {
				c.Check(finish[ch.Key()], "the finish awaited", in.Pos(), st.Path(8), "the end of copying is told on %v, which the collector does not wait for", ch)
				c.Check(st.Auto["copied"] != "", "finished after copying", in.Pos(), st.Path(8), "copying is said to be finished before it is")
				st.Auto["finished"] += "1"
			},
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				switch k.Name {
				case "io.Copy", "io.CopyBuffer":
					k.St.Auto["copied"] = "1"
					c.Check(strings.Contains(k.Args[0].Key(), "both~") && strings.Contains(k.Args[1].Key(), "reader~1;"), "copies from the pipe", k.Pos(), k.St.Path(8), "%v is copied to %v", k.Args[1], k.Args[0])
				case "(*os.File).Close":
					if strings.Contains(k.Args[0].Key(), "reader~1;") {
						c.Check(k.St.Auto["copied"] != "", "read before closing", k.Pos(), k.St.Path(8), "the pipe is closed before it is read")
						k.St.Auto["closed"] += "1"
					}
				}
				return nil, false
			}})
		z.ContinueTokens(y)
		c.Run(z)
		for _, o := range z.Exits {
			if o.Kind == engine.ExitStop {
				continue
			}
			c.Check(o.St.Auto["closed"] == "1", "reader closed once", o.Pos, o.St.Path(8), "the reading end of the pipe is closed %d times", len(o.St.Auto["closed"]))
			c.Check(o.St.Auto["finished"] == "1", "finish is told", o.Pos, o.St.Path(8), "the end of copying is told %d times", len(o.St.Auto["finished"]))
		}
	}
	// the factory
	for _, f := range c.P.Funcs {
		if len(f.Blocks) == 0 || !strings.HasPrefix(c.P.CalleeName(f), "internal.") || !o01direct(c, f, "os.Pipe") {
			continue
		}
		w := engine.New(c.P, engine.Cfg{Root: f, Args: fac.Args, Budget: 4000,
			Track: func(l string) bool { return strings.HasPrefix(l, "alloc") },
			OnSend: func(x *engine.Interp, st *engine.State, in ssa.Instruction, ch, v *engine.Val) {
				if o01chan(ch) == "pipes" {
					c.Check(st.Auto["held"] == "rw", "pipe handed over", in.Pos(), st.Path(8), "a pipe is handed over that was not just made")
					st.Auto["held"] = ""
				}
			},
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				switch k.Name {
				case "os.Pipe":
					c.Check(k.St.Auto["held"] == "", "one pipe in stock", k.Pos(), k.St.Path(8), "a pipe is made while another one is held: it is leaked")
					k.St.Auto["held"] = "rw"
					tup := k.T.(*types.Tuple)
					return k.Return(engine.Tuple(engine.Sym("nonnil:end~r", tup.At(0).Type()), engine.Sym("nonnil:end~w", tup.At(1).Type()), engine.Nil(tup.At(2).Type()))), true
				case "(*os.File).Close":
					for _, end := range []string{"r", "w"} {
						if strings.HasSuffix(k.Args[0].Key(), "end~"+end) {
							k.St.Auto["held"] = strings.Replace(k.St.Auto["held"], end, "", 1)
						}
					}
				}
				return nil, false
			}})
		c.Run(w)
		n := 0
		for _, o := range w.Exits {
			if o.Kind == engine.ExitStop {
				continue
			}
			n++
			c.Check(o.St.Auto["held"] == "", "stock closed", o.Pos, o.St.Path(8), "the goroutine that makes pipes ends with the ends %q of one open", o.St.Auto["held"])
		}
		c.Check(n > 0, "factory ends", f.Pos(), nil, "the goroutine that makes pipes never ends")
	}
}

// o01orsOne tells whether v has the lowest bit, as far as its form says.
func o01orsOne(v *engine.Val) bool {
	if i, ok := v.Int(); ok {
		return i&1 == 1
	}
	if strings.HasPrefix(v.Key(), "flags~") {
		return false
	}
	for _, a := range v.Args {
		if a != nil && o01orsOne(a) {
			return true
		}
	}
	return false
}

func o01direct(c *Ctx, f *ssa.Function, callee string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok {
				if t := call.Common().StaticCallee(); t != nil && c.P.CalleeName(t) == callee {
					return true
				}
			}
		}
	}
	return false
}

// o01streams follows the two ways of redirecting the streams.
func o01streams(c *Ctx) {
	for _, ctor := range []string{"internal.NewOutputInterceptor", "internal.NewOSGlobalReassigningOutputInterceptor"} {
		x, e := o01new(c, ctor)
		if x == nil {
			continue
		}
		// the implementation the interceptor was made with
		recv := e.Ret.Unbox()
		pt, ok := recv.T.Underlying().(*types.Pointer)
		if !ok {
			c.Undecided("%s gives no pointer", ctor)
			continue
		}
		loc, _ := x.Deref(recv)
		obj := x.Load(e.St, loc, pt.Elem())
		var impl *engine.Val
		if s, ok := pt.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				v := engine.Field(obj, s.Field(i).Name(), s.Field(i).Type())
				if v == nil {
					continue
				}
				if f, _ := c.boxedMethod(v, "CreateStdoutStderrClones"); f != nil && len(f.Blocks) > 0 {
					impl = v
				}
			}
		}
		if impl == nil {
			c.Undecided("%s: how the streams are redirected was not found", ctor)
			continue
		}
		short := strings.TrimPrefix(ctor, "internal.")
		// where a descriptor points, and what the process variables hold
		hook := func(k *engine.Call) ([]engine.Outcome, bool) {
			num := func(i int) (string, bool) {
				if i >= len(k.Args) || k.Args[i] == nil {
					return "", false
				}
				if n, ok := k.Args[i].Int(); ok {
					return fmt.Sprint(n), true
				}
				key := k.Args[i].Key()
				for _, s := range []string{"fd~pipe", "fd~clone-out", "fd~clone-err", "fd~copy1", "fd~copy2"} {
					if strings.Contains(key, s) {
						return s, true
					}
				}
				return key, false
			}
			switch {
			case strings.HasSuffix(k.Name, "unix.Dup"):
				n, _ := num(0)
				k.St.Auto["dup"] += n + " "
				tup := k.T.(*types.Tuple)
				return k.Return(engine.Tuple(engine.Sym("fd~copy"+n, tup.At(0).Type()), engine.Nil(tup.At(1).Type()))), true
			case strings.HasSuffix(k.Name, "unix.Dup2"), strings.HasSuffix(k.Name, "unix.Dup3"):
				from, ok1 := num(0)
				to, ok2 := num(1)
				if !ok1 || !ok2 {
					c.Undecided("%s: %s is made of %s", short, to, from)
				}
				k.St.Auto["fd"+to] = from
				return k.Return(k.Fresh()), true
			case strings.HasSuffix(k.Name, "unix.FcntlInt"):
				n, _ := num(0)
				cmd, _ := num(1)
				tup := k.T.(*types.Tuple)
				switch cmd {
				case "1": // F_GETFD
					s2 := k.St.Clone()
					s2.Auto["noflags"+n] = "1"
					return []engine.Outcome{{St: k.St, Ret: engine.Tuple(engine.Sym("flags~"+n, tup.At(0).Type()), engine.Nil(tup.At(1).Type()))}, {St: s2, Ret: engine.Tuple(engine.Sym("flags~"+n, tup.At(0).Type()), engine.Sym("nonnil:err:fcntl", tup.At(1).Type()))}}, true
				case "2": // F_SETFD
					k.St.Auto["cloexec"+n] = "1"
					v := k.Args[2]
					i, isInt := v.Int()
					c.Check(isInt && i&1 == 1 || o01orsOne(v) || !strings.Contains(v.Key(), "flags~"), short+" close on exec flag", k.Pos(), k.St.Path(8), "the flags of %s are set to %v", n, v)
					return k.Return(k.Fresh()), true
				}
			case strings.HasSuffix(k.Name, "unix.CloseOnExec"), strings.HasSuffix(k.Name, "syscall.CloseOnExec"):
				n, _ := num(0)
				k.St.Auto["cloexec"+n] = "1"
				return k.Return(k.Fresh()), true
			case k.Name == "os.NewFile":
				n, _ := num(0)
				return k.Return(engine.Sym("nonnil:file("+n+")", k.T)), true
			case k.Name == "(*os.File).Fd":
				key := k.Args[0].Key()
				for _, f := range []string{"pipe", "clone-out", "clone-err"} {
					if strings.HasSuffix(key, "~"+f) {
						return k.Return(engine.Sym("fd~"+f, k.T)), true
					}
				}
			case k.Name == "(*os.File).Close":
				k.St.Auto["closed"] += k.Args[0].Key()[strings.LastIndex(k.Args[0].Key(), "~")+1:] + " "
				return k.Return(engine.Nil(k.T)), true
			}
			return nil, false
		}
		run := func(method string, args ...string) *engine.Interp {
			f, v := c.boxedMethod(impl, method)
			if f == nil || len(f.Blocks) == 0 {
				c.Undecided("%s: no %s", short, method)
				return nil
			}
			full := []*engine.Val{v}
			for i, a := range args {
				full = append(full, engine.Sym("nonnil:in~"+a, f.Params[i+1].Type()))
			}
			var y *engine.Interp
			y = engine.New(c.P, engine.Cfg{Root: f, Args: full, Linear: true, Budget: 2000, OnCall: hook, Init: func(st *engine.State) {
				st.Auto["fd1"], st.Auto["fd2"] = "original1", "original2"
				for _, n := range []string{"Stdout", "Stderr"} {
					pt := o01file(c)
					x.Store(st, "os::"+n, engine.Sym("nonnil:original~"+n, pt))
				}
			}})
			c.Run(y)
			return y
		}
		global := func(y *engine.Interp, e *engine.Exit, n string) string {
			v := y.Load(e.St, "os::"+n, o01file(c))
			return v.Key()[strings.LastIndex(v.Key(), "~")+1:]
		}
		swaps := false
		if y := run("CreateStdoutStderrClones"); y != nil {
			for _, e := range y.Exits {
				if e.Kind != engine.ExitReturn || e.Ret == nil || len(e.Ret.Args) != 2 {
					c.Undecided("%s: what is kept of the streams is not known", short)
					continue
				}
				a, b := e.Ret.Args[0].Key(), e.Ret.Args[1].Key()
				swaps = strings.HasSuffix(a, "~Stdout") || strings.HasSuffix(a, "~Stderr")
				ok := strings.HasSuffix(a, "original~Stdout") && strings.HasSuffix(b, "original~Stderr") || strings.Contains(a, "file(fd~copy1)") && strings.Contains(b, "file(fd~copy2)")
				c.Check(ok, short+" keeps each stream", e.Pos, e.St.Path(8), "what is kept of standard output and standard error is %s and %s", a, b)
				if !swaps {
					for _, n := range []string{"fd~copy1", "fd~copy2"} {
						if e.St.Auto["noflags"+n] == "" {
							c.Check(e.St.Auto["cloexec"+n] != "", short+" copy not inherited", e.Pos, e.St.Path(8), "%s is inherited by the processes that are started", n)
						}
					}
				}
			}
		}
		if y := run("ConnectPipeToStdoutStderr", "pipe"); y != nil {
			for _, e := range y.Exits {
				a, b := e.St.Auto["fd1"], e.St.Auto["fd2"]
				if swaps {
					a, b = "fd~"+global(y, e, "Stdout"), "fd~"+global(y, e, "Stderr")
				}
				c.Check(a == "fd~pipe" && b == "fd~pipe", short+" redirects both", e.Pos, e.St.Path(8), "after connecting, standard output goes to %s and standard error to %s", a, b)
			}
		}
		if y := run("RestoreStdoutStderrFromClones", "clone-out", "clone-err"); y != nil {
			for _, e := range y.Exits {
				a, b := e.St.Auto["fd1"], e.St.Auto["fd2"]
				if swaps {
					a, b = "fd~"+global(y, e, "Stdout"), "fd~"+global(y, e, "Stderr")
				}
				c.Check(a == "fd~clone-out" && b == "fd~clone-err", short+" restores both", e.Pos, e.St.Path(8), "after restoring, standard output goes to %s and standard error to %s", a, b)
			}
		}
		if y := run("ShutdownClones", "clone-out", "clone-err"); y != nil {
			for _, e := range y.Exits {
				n := e.St.Auto["closed"]
				if swaps {
					c.Check(n == "", short+" leaves the originals open", e.Pos, e.St.Path(8), "the original streams are closed: %s", n)
				} else {
					c.Check(strings.Count(n, "clone-out") == 1 && strings.Count(n, "clone-err") == 1, short+" closes the copies", e.Pos, e.St.Path(8), "of the copies of the streams those closed are [%s]", n)
				}
			}
		}
	}
}

func o01entry(c *Ctx) {
	for name, method := range map[string]string{"ginkgo.PauseOutputInterception": "PauseIntercepting", "ginkgo.ResumeOutputInterception": "ResumeIntercepting"} {
		fn := c.Fn(name)
		if fn == nil {
			continue
		}
		g := fn.Pkg.Var("outputInterceptor")
		if g == nil {
			c.Undecided("the interceptor in use not found")
			continue
		}
		for _, set := range []bool{false, true} {
			var x *engine.Interp
			x = engine.New(c.P, engine.Cfg{Root: fn, Linear: true, Budget: 1000,
				Init: func(st *engine.State) {
					v := engine.Nil(g.Type().Underlying().(*types.Pointer).Elem())
					if set {
						v = engine.Sym("nonnil:the interceptor", g.Type().Underlying().(*types.Pointer).Elem())
					}
					x.Store(st, x.GlobalLoc(g), v)
				},
				OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
					if k.Com != nil && k.Com.IsInvoke() && k.Recv != nil && strings.Contains(k.Recv.Key(), "the interceptor") {
						k.St.Auto["calls"] += k.Com.Method.Name() + " "
						return k.Return(engine.Nil(k.T)), true
					}
					return nil, false
				}})
			c.Run(x)
			for _, e := range x.Exits {
				if !set {
					c.Check(e.Kind == engine.ExitReturn && e.St.Auto["calls"] == "", name+" without interception", e.Pos, e.St.Path(6), "%s before the run leaves by %s", name, e.Kind)
					continue
				}
				c.Check(e.Kind == engine.ExitReturn && strings.TrimSpace(e.St.Auto["calls"]) == method, name+" acts", e.Pos, e.St.Path(6), "%s calls [%s]", name, e.St.Auto["calls"])
			}
		}
	}
	fn := c.Fn("ginkgo.RunSpecs")
	if fn == nil {
		return
	}
	pkg := fn.Pkg.Pkg.Name()
	for _, parallel := range []int64{1, 2} {
		var x *engine.Interp
		x = engine.New(c.P, engine.Cfg{Root: fn,
			Init: func(st *engine.State) {
				x.Store(st, pkg+"::suiteDidRun", engine.BoolVal(false))
				x.Store(st, pkg+"::suiteConfig.ParallelTotal", engine.IntVal(parallel, types.Typ[types.Int]))
			},
			Track: func(l string) bool {
				return strings.HasPrefix(l, pkg+"::suiteDidRun") || strings.HasPrefix(l, pkg+"::suiteConfig.Parallel") || strings.HasPrefix(l, "alloc") || strings.HasSuffix(l, "::client") || strings.HasSuffix(l, "::outputInterceptor")
			},
			Opaque: func(f *ssa.Function) bool {
				n := c.P.CalleeName(f)
				return strings.HasPrefix(n, "internal.New") || strings.HasPrefix(n, "reporters.") || strings.Contains(n, "registerReport") || strings.Contains(n, "DeprecationTracker") || strings.HasPrefix(n, "types.") || strings.Contains(n, "extractSuiteConfiguration") || strings.HasPrefix(n, "(*internal.generic") || strings.HasPrefix(n, "(internal.Noop")
			},
			OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				switch {
				case k.Name == "(*internal.Suite).Run":
					k.St.Auto["ran"] = "1"
					same := false
					in := x.Load(k.St, pkg+"::outputInterceptor", fn.Pkg.Var("outputInterceptor").Type().Underlying().(*types.Pointer).Elem())
					for _, a := range k.Args {
						same = same || a != nil && a.Key() == in.Key()
					}
					c.Check(same, "the run intercepts with the interceptor in use", k.Pos(), k.St.Path(8), "the run is not given the interceptor that pausing acts on (%v)", in)
					return k.Return(k.Fresh()), true
				case strings.HasSuffix(k.Name, ".Shutdown"):
					k.St.Auto["shutdown"] += "1"
					return k.Return(engine.Nil(k.T)), true
				case k.Name == "(*internal.Suite).BuildTree", strings.HasSuffix(k.Name, "global.PushClone"):
					return k.Return(engine.Nil(k.T)), true
				case strings.HasSuffix(k.Name, "Client.Connect"):
					return k.Return(engine.BoolVal(true)), true
				case k.Name == "os.Getwd", k.Name == "path/filepath.Abs":
					o, _ := forkErr(k)
					return o[:1], true
				}
				return nil, false
			}})
		c.Run(x)
		for _, e := range x.Exits {
			if e.Kind == engine.ExitStop || e.St.Auto["ran"] == "" {
				continue
			}
			c.Check(e.St.Auto["shutdown"] == "1", fmt.Sprintf("shut down after a run with %d processes", parallel), e.Pos, e.St.Path(10), "after the run the interceptor is shut down %d times when leaving by %s", len(e.St.Auto["shutdown"]), e.Kind)
		}
	}
}

// o01file is *os.File.
func o01file(c *Ctx) types.Type {
	if p := c.P.SSA.ImportedPackage("os"); p != nil && p.Type("File") != nil {
		return types.NewPointer(p.Type("File").Type())
	}
	return types.Typ[types.UnsafePointer]
}
