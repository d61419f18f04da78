package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{ID: "O07", Technique: "abstract interpretation of the writer over sequences of writes, attachments and resets, against a model of its four destinations",
		Note: "The writer is constructed and driven through every pair of a set of texts that cover line ends, empty lines and unfinished lines, and through sequences that attach, detach, reset and change mode in between. What an attached writer does with its bytes is its own affair.",
		Run:  o07})
}

func o07(c *Ctx) {
	c.Rule("destinations", "each write reaches the buffer and every attached writer whole, once and in order, and, while streaming, the output, where each line that is not empty is indented once; a reset empties the buffer and nothing else")
	o07destinations(c)
	c.Floor(300)
	c.Rule("printing", "the print methods format into the writer itself, the way their names say, once")
	o07printing(c)
	c.Floor(3)
}

type wsim struct {
	c    *Ctx
	mem  *engine.State
	w    *engine.Val
	auto map[string]string
	bad  string
	exit *engine.Exit
	seq  int
	x    *engine.Interp
}

func o07bytes(x *engine.Interp, st *engine.State, v *engine.Val) (string, bool) {
	if v == nil {
		return "", false
	}
	if s, ok := v.Unbox().Str(); ok {
		return s, true
	}
	if v.K == engine.VExpr && v.S == "empty" {
		return "", true
	}
	es, ok := x.Elems(st, v)
	if !ok {
		return "", false
	}
	var b []byte
	for _, e := range es {
		n, ok := e.Int()
		if !ok {
			return "", false
		}
		b = append(b, byte(n))
	}
	return string(b), true
}

// slice makes a slice of known bytes in memory of its own.
func (w *wsim) slice(x *engine.Interp, st *engine.State, s string, t types.Type) *engine.Val {
	w.seq++
	loc := fmt.Sprintf("*bytes~%d", w.seq)
	et := t.Underlying().(*types.Slice).Elem()
	for i := 0; i < len(s); i++ {
		x.Store(st, fmt.Sprintf("%s[%d]", loc, i), engine.Const(constant.MakeInt64(int64(s[i])), et))
	}
	return engine.SliceAt(loc, len(s), t)
}

// call runs one function on the writer as the calls before left it.
func (w *wsim) call(fn *ssa.Function, args []*engine.Val, init func(x *engine.Interp, st *engine.State)) *engine.Val {
	if w.bad != "" {
		return nil
	}
	c := w.c
	var x *engine.Interp
	intT := types.Typ[types.Int]
	wrote := func(k *engine.Call, to string, b string) ([]engine.Outcome, bool) {
		k.St.Auto["to:"+to] += b
		if os.Getenv("DBG") != "" {
			println(k.Name, to, b)
		}
		if tt, ok := k.T.(*types.Tuple); ok && tt.Len() == 2 {
			return k.Return(engine.Tuple(engine.IntVal(int64(len(b)), intT), engine.Nil(tt.At(1).Type()))), true
		}
		if k.T != nil {
			return k.Return(engine.Nil(k.T)), true
		}
		return k.Return(nil), true
	}
	unknown := func(k *engine.Call, why string) ([]engine.Outcome, bool) {
		if k.St.Auto["unknown"] == "" {
			k.St.Auto["unknown"] = why
		}
		return nil, false
	}
	x = engine.New(c.P, engine.Cfg{Root: fn, Args: args, Linear: true, Lists: 256, Budget: 60000,
		Concrete: func(*ssa.Phi) bool { return true },
		Init: func(st *engine.State) {
			if pk := c.P.PkgBySuffix("internal"); pk != nil {
				constTables(c, x, st, c.P.SSA.Package(pk.Types))
				w.texts(x, st, c.P.SSA.Package(pk.Types))
			}
			if w.mem != nil {
				st.CopyMem(w.mem)
			}
			for k, v := range w.auto {
				st.Auto[k] = v
			}
			if init != nil {
				init(x, st)
			}
		},
		OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			text := func(i int) (string, bool) {
				if i >= len(k.Args) {
					return "", false
				}
				return o07bytes(k.X, k.St, k.Args[i])
			}
			switch {
			case strings.HasSuffix(k.Name, "Writer.Write") && strings.HasPrefix(k.Name, "invoke "):
				b, ok := text(len(k.Args) - 1)
				if !ok {
					return unknown(k, "a writer is given bytes the analysis does not know")
				}
				return wrote(k, k.Recv.Unbox().Key(), b)
			case k.Name == "io.WriteString":
				b, ok := text(1)
				if !ok || !strings.HasPrefix(k.Args[0].Unbox().Key(), "nonnil:") {
					return unknown(k, k.Name)
				}
				return wrote(k, k.Args[0].Unbox().Key(), b)
			case k.Name == "(*bytes.Buffer).Write" || k.Name == "(*bytes.Buffer).WriteString":
				b, ok := text(1)
				if !ok {
					return unknown(k, "the buffer is given bytes the analysis does not know")
				}
				k.St.Auto["buf"] = k.Args[0].Key()
				return wrote(k, k.Args[0].Key(), b)
			case k.Name == "(*bytes.Buffer).WriteByte":
				n, ok := k.Args[1].Int()
				if !ok {
					return unknown(k, k.Name)
				}
				return wrote(k, k.Args[0].Key(), string([]byte{byte(n)}))
			case k.Name == "(*bytes.Buffer).Reset":
				delete(k.St.Auto, "to:"+k.Args[0].Key())
				return k.Return(nil), true
			case k.Name == "(*bytes.Buffer).Truncate":
				n, ok := k.Args[1].Int()
				s := k.St.Auto["to:"+k.Args[0].Key()]
				if !ok || n < 0 || int(n) > len(s) {
					return unknown(k, k.Name)
				}
				k.St.Auto["to:"+k.Args[0].Key()] = s[:n]
				return k.Return(nil), true
			case k.Name == "(*bytes.Buffer).Len":
				return k.Return(engine.IntVal(int64(len(k.St.Auto["to:"+k.Args[0].Key()])), intT)), true
			case k.Name == "(*bytes.Buffer).Bytes":
				return k.Return(w.slice(k.X, k.St, k.St.Auto["to:"+k.Args[0].Key()], k.T)), true
			case k.Name == "(*bytes.Buffer).String":
				return k.Return(strVal(k.St.Auto["to:"+k.Args[0].Key()])), true
			case k.Name == "bytes.Cut":
				a, ok1 := text(0)
				sep, ok2 := text(1)
				tt, ok3 := k.T.(*types.Tuple)
				if !ok1 || !ok2 || !ok3 {
					return unknown(k, k.Name)
				}
				before, after, found := strings.Cut(a, sep)
				f := engine.BoolVal(found)
				av := engine.Nil(tt.At(1).Type())
				bt := tt.At(0).Type()
				bv := w.slice(k.X, k.St, before, bt)
				if found {
					// a second list of its own
					av = w.slice(k.X, k.St, after, tt.At(1).Type())
				}
				return k.Return(engine.Tuple(bv, av, f)), true
			case k.Name == "bytes.IndexByte":
				a, ok1 := text(0)
				n, ok2 := k.Args[1].Int()
				if !ok1 || !ok2 {
					return unknown(k, k.Name)
				}
				return k.Return(engine.IntVal(int64(strings.IndexByte(a, byte(n))), intT)), true
			case k.Name == "bytes.Index" || k.Name == "bytes.HasSuffix" || k.Name == "bytes.HasPrefix" || k.Name == "bytes.Equal" || k.Name == "bytes.Contains":
				a, ok1 := text(0)
				b, ok2 := text(1)
				if !ok1 || !ok2 {
					return unknown(k, k.Name)
				}
				switch k.Name {
				case "bytes.Index":
					return k.Return(engine.IntVal(int64(strings.Index(a, b)), intT)), true
				case "bytes.HasSuffix":
					return k.Return(engine.BoolVal(strings.HasSuffix(a, b))), true
				case "bytes.HasPrefix":
					return k.Return(engine.BoolVal(strings.HasPrefix(a, b))), true
				case "bytes.Equal":
					return k.Return(engine.BoolVal(a == b)), true
				}
				return k.Return(engine.BoolVal(strings.Contains(a, b))), true
			case k.Name == "bytes.Clone" || k.Name == "slices.Clone":
				a, ok := text(0)
				if !ok {
					return unknown(k, k.Name)
				}
				return k.Return(w.slice(k.X, k.St, a, k.T)), true
			case k.Name == "bytes.TrimRight" || k.Name == "bytes.TrimSuffix" || k.Name == "bytes.TrimLeft" || k.Name == "bytes.TrimPrefix" || k.Name == "bytes.Trim" || k.Name == "bytes.TrimSpace":
				a, ok1 := text(0)
				b, ok2 := "", true
				if len(k.Args) > 1 {
					b, ok2 = text(1)
				}
				if !ok1 || !ok2 {
					return unknown(k, k.Name)
				}
				r := a
				switch k.Name {
				case "bytes.TrimRight":
					r = strings.TrimRight(a, b)
				case "bytes.TrimLeft":
					r = strings.TrimLeft(a, b)
				case "bytes.Trim":
					r = strings.Trim(a, b)
				case "bytes.TrimSuffix":
					r = strings.TrimSuffix(a, b)
				case "bytes.TrimPrefix":
					r = strings.TrimPrefix(a, b)
				case "bytes.TrimSpace":
					r = strings.TrimSpace(a)
				}
				return k.Return(w.slice(k.X, k.St, r, k.T)), true
			case strings.HasPrefix(k.Name, "(*sync."):
				return nil, false
			case k.Fn != nil && len(k.Fn.Blocks) > 0 && k.Fn.Pkg != nil && strings.HasSuffix(k.Fn.Pkg.Pkg.Path(), "/internal"):
				return nil, false
			}
			if _, builtin := k.Com.Value.(*ssa.Builtin); builtin {
				return nil, false
			}
			return unknown(k, k.Name)
		}})
	if w.x != nil {
		x.ContinueTokens(w.x)
	}
	c.Run(x)
	var out *engine.Exit
	for _, e := range x.Exits {
		if e.Kind == engine.ExitStop {
			continue
		}
		if out != nil {
			w.bad = "no single way through " + c.P.CalleeName(fn)
			return nil
		}
		out = e
	}
	switch {
	case out == nil:
		w.bad = "no way through " + c.P.CalleeName(fn)
		return nil
	case out.Kind == engine.ExitPanic:
		w.bad = c.P.CalleeName(fn) + " panics"
		if out.St.Auto["unknown"] == "" {
			c.Fail(w.bad, out.Pos, out.St.Path(8), "%s panics", c.P.CalleeName(fn))
		}
		return nil
	case out.Kind != engine.ExitReturn:
		w.bad = c.P.CalleeName(fn) + " leaves by " + string(out.Kind)
		return nil
	case out.St.Auto["unknown"] != "":
		w.bad = c.P.CalleeName(fn) + " uses " + out.St.Auto["unknown"]
		return nil
	}
	w.mem, w.exit, w.x = out.St, out, x
	w.auto = map[string]string{}
	for k, v := range out.St.Auto {
		if strings.HasPrefix(k, "to:") || k == "buf" {
			w.auto[k] = v
		}
	}
	return out.Ret
}

// texts stores the package variables that are byte texts and never change.
func (w *wsim) texts(x *engine.Interp, st *engine.State, pk *ssa.Package) {
	if pk.Func("init") == nil {
		return
	}
	for _, b := range pk.Func("init").Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			g, ok1 := s.Addr.(*ssa.Global)
			cv, ok2 := s.Val.(*ssa.Convert)
			if !ok1 || !ok2 || globalChanges(w.c, g) {
				continue
			}
			k, ok := cv.X.(*ssa.Const)
			if !ok || k.Value == nil || k.Value.Kind() != constant.String {
				continue
			}
			if _, ok := cv.Type().Underlying().(*types.Slice); ok {
				x.Store(st, x.GlobalLoc(g), w.slice(x, st, constant.StringVal(k.Value), cv.Type()))
			}
		}
	}
}

func o07method(c *Ctx, name string) *ssa.Function { return c.Fn("(*internal.Writer)." + name) }

func o07destinations(c *Ctx) {
	mk := c.Fn("internal.NewWriter")
	fns := map[string]*ssa.Function{}
	for _, n := range []string{"Write", "TeeTo", "ClearTeeWriters", "Truncate", "SetMode", "Len", "Bytes"} {
		if fns[n] = o07method(c, n); fns[n] == nil {
			return
		}
	}
	if mk == nil || len(mk.Params) != 1 || len(fns["SetMode"].Params) != 2 {
		c.Undecided("the writer is constructed or switched in an unknown way")
		return
	}
	stream, buffer := c.ConstVal("internal", "WriterModeStreamAndBuffer"), c.ConstVal("internal", "WriterModeBufferOnly")
	if stream == nil || buffer == nil {
		c.Undecided("the writer's modes are not known")
		return
	}
	bsT := fns["Write"].Params[1].Type()
	ioT := fns["TeeTo"].Params[1].Type()
	indent := ""
	run := func(ops []string) {
		w := &wsim{c: c}
		w.w = w.call(mk, []*engine.Val{engine.Sym("nonnil:out", mk.Params[0].Type())}, nil)
		if w.bad == "" && w.w == nil {
			w.bad = "nothing is constructed"
		}
		out, buf, tees := "", "", map[string]string{}
		attached := []string{}
		fresh, streaming := true, true
		desc := []string{}
		for _, op := range ops {
			if w.bad != "" {
				break
			}
			switch op[0] {
			case 'W':
				text := op[1:]
				desc = append(desc, fmt.Sprintf("write %q", text))
				var arg *engine.Val
				w.seq++
				loc := fmt.Sprintf("*given~%d", w.seq)
				arg = engine.SliceAt(loc, len(text), bsT)
				ret := w.call(fns["Write"], []*engine.Val{w.w, arg}, func(x *engine.Interp, st *engine.State) {
					for i := 0; i < len(text); i++ {
						x.Store(st, fmt.Sprintf("%s[%d]", loc, i), engine.Const(constant.MakeInt64(int64(text[i])), bsT.Underlying().(*types.Slice).Elem()))
					}
				})
				if w.bad != "" {
					break
				}
				if ret != nil && ret.K == engine.VTuple && len(ret.Args) == 2 {
					n, known := ret.Args[0].Int()
					c.Check(known && int(n) == len(text) && ret.Args[1].IsNil(), fmt.Sprintf("answer to writing %q", text), w.exit.Pos, w.exit.St.Path(8), "writing %q is answered %v, want %d and no error", text, ret, len(text))
				}
				buf += text
				for _, t := range attached {
					tees[t] += text
				}
				if streaming {
					for _, r := range []byte(text) {
						if r == '\n' {
							fresh = true
						} else if fresh {
							out += indent
							fresh = false
						}
						out += string([]byte{r})
					}
				}
			case 'T':
				desc = append(desc, "attach "+op[1:])
				w.call(fns["TeeTo"], []*engine.Val{w.w, engine.Sym("nonnil:"+op[1:], ioT)}, nil)
				attached = append(attached, "nonnil:"+op[1:])
			case 'C':
				desc = append(desc, "detach")
				w.call(fns["ClearTeeWriters"], []*engine.Val{w.w}, nil)
				attached = nil
			case 'X':
				desc = append(desc, "reset")
				w.call(fns["Truncate"], []*engine.Val{w.w}, nil)
				buf = ""
			case 'S':
				desc = append(desc, "stream")
				w.call(fns["SetMode"], []*engine.Val{w.w, stream}, nil)
				streaming = true
			case 'B':
				desc = append(desc, "buffer only")
				w.call(fns["SetMode"], []*engine.Val{w.w, buffer}, nil)
				streaming = false
			}
		}
		d := strings.Join(desc, ", ")
		if w.bad != "" {
			c.Undecided("after %s: %s", d, w.bad)
			return
		}
		pos, path := fns["Write"].Pos(), []string(nil)
		if w.exit != nil {
			pos, path = w.exit.Pos, w.exit.St.Path(8)
		}
		if indent == "" && len(ops) == 1 && ops[0] == "Wa" {
			// how lines are indented is measured once
			got := w.auto["to:nonnil:out"]
			if strings.HasSuffix(got, "a") && strings.TrimSpace(got) == "a" {
				indent = got[:len(got)-1]
				out = got
			}
		}
		c.Check(w.auto["to:nonnil:out"] == out, "streamed after "+d, pos, path, "after %s the output got %q, want %q", d, w.auto["to:nonnil:out"], out)
		for _, t := range []string{"nonnil:tee1", "nonnil:tee2"} {
			c.Check(w.auto["to:"+t] == tees[t], "attached writer after "+d, pos, path, "after %s the attached writer %s got %q, want %q", d, strings.TrimPrefix(t, "nonnil:"), w.auto["to:"+t], tees[t])
		}
		n := w.call(fns["Len"], []*engine.Val{w.w}, nil)
		bs := w.call(fns["Bytes"], []*engine.Val{w.w}, nil)
		if w.bad != "" {
			c.Undecided("after %s: %s", d, w.bad)
			return
		}
		if l, ok := n.Int(); !ok {
			c.Undecided("the length after %s is not known", d)
		} else {
			c.Check(int(l) == len(buf), "length after "+d, fns["Len"].Pos(), nil, "after %s the buffer's length is %d, want %d", d, l, len(buf))
		}
		if got, ok := o07bytes(w.x, w.exit.St, bs); !ok {
			c.Undecided("the bytes after %s are not known", d)
		} else {
			c.Check(got == buf, "buffered after "+d, fns["Bytes"].Pos(), nil, "after %s the buffer holds %q, want %q", d, got, buf)
		}
	}
	texts := []string{"", "a", "a\n", "\n", "a\nb", "\n\n", "a\n\nb\n", "\na", " a\r\n", "a\r", "\t\x00\xff "}
	run([]string{"Wa"})
	for _, a := range texts {
		run([]string{"W" + a})
		for _, b := range texts {
			run([]string{"W" + a, "W" + b})
			run([]string{"Ttee1", "W" + a, "X", "W" + b})
			run([]string{"W" + a, "B", "Ttee1", "Ttee2", "W" + b, "S", "Wc"})
		}
	}
	for _, s := range []string{"Ttee1;Wa;Ttee2;Wb\n;C;Wc", "Ttee1;Ttee1;Wa", "Wa;X;X;Wb", "B;Wa;Wb;S;Wc\n", "Ttee1;B;Wa;X;Wb;C;Ttee2;Wc", "Wa\n;B;Wb;S;Wc;X", "Ttee1;C;Wa;Ttee2;Wb;Ttee1;Wc", "S;Wa;S;Wb", "X;Wa\n;X;Wb"} {
		run(strings.Split(s, ";"))
	}
}

func o07printing(c *Ctx) {
	for _, name := range []string{"Print", "Printf", "Println"} {
		fn := o07method(c, name)
		if fn == nil {
			continue
		}
		args := []*engine.Val{engine.ParamSym(fn.Params[0])}
		for _, p := range fn.Params[1:] {
			args = append(args, engine.ParamSym(p))
		}
		x := c.Run(engine.New(c.P, engine.Cfg{Root: fn, Args: args, OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			switch {
			case strings.HasPrefix(k.Name, "fmt.Fprint") && len(k.Args) > 1:
				as := []string{}
				for _, a := range k.Args {
					as = append(as, a.Unbox().Key())
				}
				k.St.Auto["tr"] += k.Name + "(" + strings.Join(as, ",") + ");"
			case k.Name == "(*internal.Writer).Write", strings.HasPrefix(k.Name, "fmt.Sprint"), strings.HasPrefix(k.Name, "fmt.Append"), k.Name == "io.WriteString":
				k.St.Auto["other"] = k.Name
			}
			return nil, false
		}}))
		as := []string{}
		for _, a := range args {
			as = append(as, a.Unbox().Key())
		}
		want := "fmt.F" + strings.ToLower(name) + "(" + strings.Join(as, ",") + ");"
		for _, e := range x.Exits {
			if e.Kind == engine.ExitStop {
				continue
			}
			if e.St.Auto["other"] != "" {
				c.Undecided("%s formats by %s", name, e.St.Auto["other"])
				continue
			}
			c.Check(e.St.Auto["tr"] == want, name, fn.Pos(), e.St.Path(6), "%s does [%s], want [%s]", name, e.St.Auto["tr"], want)
		}
	}
}
