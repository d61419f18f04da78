package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Def{ID: "C06", Technique: "cross-artifact extraction by path-sensitive simulation: routes, client requests and server answers of both transports, composed per operation and answer and compared",
		Note: "For every operation of the client interface both clients are simulated against the answers their own server gives for every handler result; JSON and gob are assumed to carry a value to an equal type unchanged (O03 covers custom encodings).",
		Run:  c06})
}

// request is what a client operation asks for.
type request struct {
	verb, path string // http: verb and route; rpc: "" and method
	payload    string // key of the payload
	typ        types.Type
	pos        string
	async      bool
}

// httpAnswer is one way a route handler ends.
type httpAnswer struct {
	op     string // handler operation called, "" if none
	arg    string // key of its payload argument
	argT   types.Type
	result string // error answered by the operation, or its boolean result
	code   int64
	sent   *engine.Val
	path   []string
	mem    *engine.State
}

func c06(c *Ctx) {
	P := c.P
	iface := c.Type(psPkg, "Client")
	if iface == nil {
		return
	}
	it, ok := iface.Underlying().(*types.Interface)
	if !ok {
		return
	}
	c.Rule("distinct-answers", "the three dedicated answers have distinct texts, which is how they are told apart over rpc")
	c06texts(c)

	c.Rule("routes", "every route is served, and the rpc server exposes the handler under the name the client uses")
	routes, allRoutes := c06routes(c)
	name := c06rpcName(c)
	c.Floor(2)

	c.Rule("same-operation", "for every client operation both transports reach the same handler operation with the same payload")
	ops := map[string]string{}
	type pair struct{ h, r []request }
	reqs := map[string]*pair{}
	answersOf := map[string][]httpAnswer{}
	var names []string
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i).Name()
		hf, rf := c.Fn("(*"+psPkg+".httpClient)."+m), c.Fn("(*"+psPkg+".rpcClient)."+m)
		if hf == nil || rf == nil || m == "Connect" || m == "Close" {
			continue
		}
		pr := &pair{c06requests(c, hf), c06requests(c, rf)}
		if len(pr.h) == 0 || len(pr.r) == 0 {
			c.Undecided("no request found in %s of both clients", m)
			continue
		}
		reqs[m] = pr
		names = append(names, m)
	}
	sort.Strings(names)
	for _, m := range names {
		pr := reqs[m]
		hset, rset := map[string]bool{}, map[string]bool{}
		for _, r := range pr.h {
			fn := routes[r.path]
			if fn == nil && !allRoutes {
				c.Undecided("route %s may be among those not known", r.path)
				continue
			}
			if !c.Check(fn != nil, m+" route "+r.path, 0, nil, "httpClient.%s (%s) asks for %s, which the server does not serve", m, r.pos, r.path) {
				continue
			}
			as := c06serve(c, fn, r.verb)
			answersOf[m] = append(answersOf[m], as...)
			for _, a := range as {
				if a.op == "" {
					continue
				}
				hset[a.op] = true
				want, got := "payload", a.arg
				if r.payload == "" {
					want = "void"
				}
				c.Check(strings.Contains(got, want), m+" http payload", fn.Pos(), a.path, "the handler of %s passes %s to %s instead of what was sent", r.path, got, a.op)
				if r.payload != "" && r.typ != nil && a.argT != nil {
					c.Check(types.Identical(r.typ, a.argT), m+" http payload type", fn.Pos(), a.path, "httpClient.%s sends %s but %s takes %s", m, engine.TypeStr(r.typ), a.op, engine.TypeStr(a.argT))
				}
			}
		}
		for _, r := range pr.r {
			parts := strings.SplitN(r.path, ".", 2)
			if !c.Check(len(parts) == 2 && (name == "" || parts[0] == name), m+" rpc method "+r.path, 0, nil, "rpcClient.%s (%s) calls %q; the handler is registered as %q", m, r.pos, r.path, name) {
				continue
			}
			op := c.methodOf(psPkg, "ServerHandler", parts[1])
			if !c.Check(op != nil && op.Object() != nil && op.Object().Exported(), m+" rpc method "+r.path, 0, nil, "rpcClient.%s (%s) calls %q, which the handler does not have", m, r.pos, r.path) {
				continue
			}
			rset[parts[1]] = true
			if r.payload != "" && r.typ != nil && len(op.Params) > 1 {
				c.Check(types.Identical(r.typ, op.Params[1].Type()), m+" rpc payload type", op.Pos(), nil, "rpcClient.%s sends %s but %s takes %s", m, engine.TypeStr(r.typ), parts[1], engine.TypeStr(op.Params[1].Type()))
			}
		}
		if len(hset) == 0 && !allRoutes {
			continue
		}
		hs, rs := strings.Join(sortedKeys(hset), ","), strings.Join(sortedKeys(rset), ",")
		if c.Check(hs == rs && len(hset) == 1, m+" operation", 0, nil, "%s reaches %s over http and %s over rpc", m, hs, rs) {
			ops[m] = hs
		}
		for _, h := range pr.h {
			for _, r := range pr.r {
				c.Check(h.payload == r.payload, m+" payload", 0, nil, "%s sends %s over http (%s) and %s over rpc (%s)", m, h.payload, h.pos, r.payload, r.pos)
			}
		}
	}
	// no two operations of the client reach the same one of the handler
	rev := map[string]string{}
	for _, m := range names {
		if o := ops[m]; o != "" {
			c.Check(rev[o] == "", m+" own operation", 0, nil, "%s and %s both reach %s", rev[o], m, o)
			rev[o] = m
		}
	}
	c.Floor(60)

	c.Rule("same-results", "for every handler result both clients return the same value and class of error")
	for _, m := range names {
		if ops[m] == "" {
			continue
		}
		async := false
		for _, r := range reqs[m].r {
			async = async || r.async
		}
		if async {
			c.Undecided("rpcClient.%s does not wait for its answer in one call", m)
			continue
		}
		c06compare(c, m, reqs[m].r, answersOf[m])
	}
	c.Floor(25)

	c.Rule("bad-payload", "a payload that cannot be read is answered with an error and never reaches the handler")
	for _, m := range names {
		for _, a := range answersOf[m] {
			if a.op == "" {
				c.Check(a.code >= 400, m+" unreadable payload", 0, a.path, "%s: an unreadable payload is answered with code %d", m, a.code)
			}
		}
	}

	c.Rule("failed-request", "no operation reports success when its request failed")
	for _, cl := range []string{"httpClient", "rpcClient"} {
		for _, m := range names {
			fn := P.Func("(*" + psPkg + "." + cl + ")." + m)
			waits := false
			for _, f := range P.Reach(fn, nil) {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
							waits = true
						}
						if _, ok := in.(*ssa.Select); ok {
							waits = true
						}
					}
				}
			}
			x := c.Run(engine.New(P, engine.Cfg{Root: fn, Args: c06args(fn), Concrete: offNetwork, OnCall: clientTransport(c, []string{"", "neterr", "other", "Failed"}, nil)}))
			for _, e := range x.Exits {
				if e.Kind != engine.ExitReturn || e.Ret == nil {
					continue
				}
				err := e.Ret
				if err.K == engine.VTuple {
					err = err.Args[len(err.Args)-1]
				}
				if err.T != nil && engine.TypeStr(err.T) == "bool" || fn.Signature.Results().At(fn.Signature.Results().Len()-1).Type().String() != "error" {
					continue
				}
				if waits && e.St.Auto["unawaited"] != "" {
					c.Undecided("%s.%s waits for its answer itself", cl, m)
					continue
				}
				c.Check(e.St.Auto["bad"] == "" || !err.IsNil(), cl+"."+m+" unsendable", e.Pos, e.St.Path(10), "%s.%s returns no error although its payload could not be encoded", cl, m)
				c.Check(e.St.Auto["last"] == "" || !err.IsNil(), cl+"."+m+" fails", e.Pos, e.St.Path(10), "%s.%s returns no error although its request ended with %s", cl, m, orOK(e.St.Auto["last"]))
			}
		}
		// connecting
		if fn := c.Fn("(*" + psPkg + "." + cl + ").Connect"); fn != nil {
			hook := clientTransport(c, []string{"", "neterr", "other"}, nil)
			x := c.Run(engine.New(P, engine.Cfg{Root: fn, OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
				if strings.HasPrefix(k.Name, "net/rpc.Dial") {
					tt := k.T.(*types.Tuple)
					bad := k.St.Clone()
					bad.Auto["last"] = "neterr"
					return []engine.Outcome{
						{St: k.St, Ret: engine.Tuple(engine.Sym("nonnil:conn", tt.At(0).Type()), engine.Nil(c.P.ErrorType())), Kind: engine.ExitReturn},
						{St: bad, Ret: engine.Tuple(engine.Nil(tt.At(0).Type()), engine.Sym("nonnil:neterr", c.P.ErrorType())), Kind: engine.ExitReturn}}, true
				}
				return hook(k)
			}}))
			for _, e := range x.Exits {
				if e.Ret == nil {
					continue
				}
				b, known := e.Ret.Bool()
				if !known {
					b, known = e.St.FactBool(e.Ret.Key())
				}
				if !known {
					c.Undecided("%s.Connect returns %v", cl, e.Ret)
					continue
				}
				c.Check(b == (e.St.Auto["last"] == ""), cl+".Connect", e.Pos, e.St.Path(8), "%s.Connect answers %v after %s", cl, b, orOK(e.St.Auto["last"]))
			}
		}
	}
	c.Floor(60)
}

// methodOf finds a method of a named type.
func (c *Ctx) methodOf(pkg, typ, m string) *ssa.Function {
	for _, n := range []string{"(*" + pkg + "." + typ + ")." + m, "(" + pkg + "." + typ + ")." + m} {
		if f := c.P.Func(n); f != nil {
			return f
		}
	}
	return nil
}

func c06texts(c *Ctx) {
	pk := c.P.PkgBySuffix(psPkg)
	if pk == nil {
		return
	}
	var init *ssa.Function
	for _, p := range c.P.SSA.AllPackages() {
		if strings.HasSuffix(p.Pkg.Path(), psPkg) {
			init = p.Func("init")
		}
	}
	if init == nil {
		return
	}
	texts := map[string]string{}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			g, ok := st.Addr.(*ssa.Global)
			call, ok2 := st.Val.(*ssa.Call)
			if !ok || !ok2 || len(call.Call.Args) == 0 || !strings.HasPrefix(g.Name(), "Error") {
				continue
			}
			k, ok := call.Call.Args[0].(*ssa.Const)
			if !ok {
				c.Undecided("text of %s not constant", g.Name())
				continue
			}
			t := k.Value.ExactString()
			c.Check(texts[t] == "", "text of "+g.Name(), st.Pos(), nil, "%s and %s have the same text %s: the rpc client cannot tell them apart", g.Name(), texts[t], t)
			texts[t] = g.Name()
		}
	}
	c.Floor(3)
}

func c06routes(c *Ctx) (out map[string]*ssa.Function, all bool) {
	out, all = map[string]*ssa.Function{}, true
	fn := c.Fn("(*" + psPkg + ".httpServer).Start")
	if fn == nil {
		return out, false
	}
	dup := map[string]string{}
	c.Run(engine.New(c.P, engine.Cfg{Root: fn, Concrete: func(*ssa.Phi) bool { return true }, OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
		if strings.HasSuffix(k.Name, "ServeMux).HandleFunc") || strings.HasSuffix(k.Name, "ServeMux).Handle") {
			p, ok := k.Args[1].Str()
			h := k.Args[2].Unbox()
			if !ok || h == nil || h.Fn == nil {
				c.Undecided("route %s is not a known path and handler", k.Args[1].Key())
				all = false
				return nil, false
			}
			c.Check(dup[p] == "" || dup[p] == h.Fn.Name(), "route "+p, k.Pos(), k.St.Path(5), "route %s is registered twice", p)
			dup[p] = h.Fn.Name()
			f := unbound(c, h.Fn)
			out[p] = f
			c.Ok("route %s", p)
		}
		return nil, false
	}}))
	return out, all
}

// unbound is the method behind a method value's wrapper.
func unbound(c *Ctx, f *ssa.Function) *ssa.Function {
	if f.Synthetic == "" {
		return f
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok {
				if t := call.Common().StaticCallee(); t != nil && c.P.InModule(t) {
					return t
				}
			}
		}
	}
	return f
}

func c06rpcName(c *Ctx) string {
	fn := c.Fn("(*" + psPkg + ".RPCServer).Start")
	if fn == nil {
		return ""
	}
	name := ""
	c.Run(engine.New(c.P, engine.Cfg{Root: fn, OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
		switch k.Name {
		case "(*net/rpc.Server).RegisterName":
			if s, ok := k.Args[1].Str(); ok {
				name = s
			}
			c.Check(strings.Contains(k.Args[2].Unbox().Key(), ".handler"), "registered object", k.Pos(), nil, "the rpc server exposes %s instead of the handler", k.Args[2].Key())
		case "(*net/rpc.Server).Register":
			name = "ServerHandler"
		}
		return nil, false
	}}))
	if name == "" {
		c.Undecided("rpc registration not found")
	} else {
		c.Ok("handler registered as %s", name)
	}
	return name
}

func c06args(fn *ssa.Function) []*engine.Val {
	var out []*engine.Val
	for i, p := range fn.Params {
		if i == 0 {
			out = append(out, engine.ParamSym(p))
			continue
		}
		out = append(out, engine.Sym(fmt.Sprintf("arg%d", i), p.Type()))
	}
	return out
}

// payloadKey names a payload independently of how it was put together.
func payloadKey(k *engine.Call, v *engine.Val) (string, types.Type) {
	v = v.Unbox()
	if v == nil || v.IsNil() {
		return "", nil
	}
	if v.K == engine.VPtr {
		if pt, ok := v.T.Underlying().(*types.Pointer); ok {
			return payloadKey(k, k.X.Load(k.St, v.S, pt.Elem()))
		}
	}
	t := v.T
	if t != nil && strings.HasSuffix(engine.TypeStr(t), "Void") {
		return "", nil
	}
	if t != nil {
		if s, ok := t.Underlying().(*types.Struct); ok && !strings.HasPrefix(v.Key(), "arg") {
			var fs []string
			for i := 0; i < s.NumFields(); i++ {
				f := k.X.FieldOf(k.St, v, s.Field(i).Name())
				key := "?"
				if f != nil {
					key = f.Key()
				}
				fs = append(fs, s.Field(i).Name()+"="+key)
			}
			return "{" + strings.Join(fs, ",") + "}", t
		}
	}
	return v.Key(), t
}

// trailing constant of a string built by concatenation
func tailStr(v *engine.Val) string {
	if s, ok := v.Str(); ok {
		return s
	}
	if v.K == engine.VExpr && v.S == "+" && len(v.Args) == 2 {
		if s, ok := v.Args[1].Str(); ok {
			if p := tailStr(v.Args[0]); p != "" {
				return p + s
			}
			return s
		}
	}
	return ""
}

func c06requests(c *Ctx, fn *ssa.Function) []request {
	var out []request
	seen := map[string]bool{}
	inner := clientTransport(c, answers, nil)
	typs := map[string]types.Type{}
	c.Run(engine.New(c.P, engine.Cfg{Root: fn, Args: c06args(fn), Concrete: offNetwork, OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
		add := func(r request) {
			r.pos = c.P.RelPos(k.Pos())
			key := r.verb + r.path + "|" + r.payload
			if !seen[key] {
				seen[key] = true
				out = append(out, r)
			}
		}
		switch k.Name {
		case "encoding/json.Marshal":
			p, t := payloadKey(k, k.Args[0])
			k.St.Auto["payload"] = p
			typs[p] = t
		case "bytes.NewReader", "bytes.NewBuffer":
			if k.St.Auto["payload"] == "" {
				p, t := payloadKey(k, k.Args[0])
				k.St.Auto["payload"] = p
				typs[p] = t
			}
		case "(*net/rpc.Client).Call", "(*net/rpc.Client).Go":
			m, ok := k.Args[1].Str()
			if !ok {
				c.Undecided("rpc method %s is not constant", k.Args[1].Key())
				break
			}
			p, t := payloadKey(k, k.Args[2])
			add(request{path: m, payload: p, typ: t, async: strings.HasSuffix(k.Name, ".Go")})
		case "net/http.Get":
			if p := tailStr(k.Args[0]); p != "" {
				add(request{verb: "GET", path: p})
			} else {
				c.Undecided("http path %s is not constant", k.Args[0].Key())
			}
		case "net/http.Post":
			if p := tailStr(k.Args[0]); p != "" {
				pl := k.St.Auto["payload"]
				add(request{verb: "POST", path: p, payload: pl, typ: typs[pl]})
			} else {
				c.Undecided("http path %s is not constant", k.Args[0].Key())
			}
		}
		return inner(k)
	}}))
	return out
}

// c06serve simulates a route's handler for every result of the operation it calls.
func c06serve(c *Ctx, fn *ssa.Function, verb string) []httpAnswer {
	P := c.P
	if len(fn.Params) < 3 {
		c.Undecided("%s is not a method taking a response and a request", fn.Name())
		return nil
	}
	rq := fn.Params[2].Name()
	argTs := map[string]types.Type{}
	sent := map[string]*engine.Val{}
	var x *engine.Interp
	x = engine.New(P, engine.Cfg{Root: fn,
		Init: func(st *engine.State) { x.Store(st, "*"+rq+".Method", strVal(verb)) },
		OnCall: func(k *engine.Call) ([]engine.Outcome, bool) {
			switch {
			case strings.HasPrefix(k.Name, "(*"+psPkg+".ServerHandler).") && k.Fn != nil && k.Fn.Object() != nil && k.Fn.Object().Exported() && len(k.Args) == 3:
				op := k.Fn.Name()
				k.St.Auto["op"] += op
				p, t := payloadKey(k, k.Args[1])
				if p == "" {
					p = "void"
				}
				k.St.Auto["arg"] = p
				if t == nil {
					t = k.Args[1].T
				}
				argTs[p] = k.Fn.Params[1].Type()
				return handlerResults(c, k, k.Args[2], func(s *engine.State, label string) *engine.Val {
					switch label {
					case "", "true", "false":
						return engine.Nil(P.ErrorType())
					case "Early", "Gone", "Failed":
						return engine.Sym("nonnil:errvar:parallel_support::Error"+label, P.ErrorType())
					}
					return engine.Sym("nonnil:something else", P.ErrorType())
				}), true
			case k.Name == "(*encoding/json.Decoder).Decode":
				bad := k.St.Clone()
				if p := k.Args[1].Unbox(); p.K == engine.VPtr {
					if pt, ok := p.T.Underlying().(*types.Pointer); ok {
						k.X.Store(k.St, p.S, engine.Sym("payload", pt.Elem()))
					}
				}
				return []engine.Outcome{{St: k.St, Ret: engine.Nil(P.ErrorType()), Kind: engine.ExitReturn}, {St: bad, Ret: engine.Sym("nonnil:decode", P.ErrorType()), Kind: engine.ExitReturn}}, true
			case k.Name == "io.ReadAll":
				tt := k.T.(*types.Tuple)
				bad := k.St.Clone()
				return []engine.Outcome{{St: k.St, Ret: engine.Tuple(engine.Sym("payload", tt.At(0).Type()), engine.Nil(P.ErrorType())), Kind: engine.ExitReturn},
					{St: bad, Ret: engine.Tuple(engine.Sym("partial", tt.At(0).Type()), engine.Sym("nonnil:read", P.ErrorType())), Kind: engine.ExitReturn}}, true
			case strings.HasSuffix(k.Name, "http.ResponseWriter.WriteHeader"):
				if n, ok := k.Args[len(k.Args)-1].Int(); ok && k.St.Auto["code"] == "" {
					k.St.Auto["code"] = fmt.Sprint(n)
				} else if !ok {
					k.St.Auto["code"] = "-1"
				}
			case k.Name == "(*encoding/json.Encoder).Encode":
				v := k.Args[1].Unbox()
				key := v.Key()
				sent[key] = materialize(k, v)
				k.St.Auto["sent"] = key
			}
			return nil, false
		}})
	c.Run(x)
	var out []httpAnswer
	for _, e := range x.Exits {
		if e.Kind != engine.ExitReturn {
			c.Fail(fn.Name()+" leaves by "+string(e.Kind), fn.Pos(), e.St.Path(8), "the handler of a route leaves by %s", e.Kind)
			continue
		}
		a := httpAnswer{op: e.St.Auto["op"], arg: e.St.Auto["arg"], result: e.St.Auto["result"], path: e.St.Path(10), code: 200}
		a.argT = argTs[a.arg]
		if s := e.St.Auto["code"]; s != "" {
			fmt.Sscan(s, &a.code)
		}
		if s := e.St.Auto["sent"]; s != "" {
			a.sent = sent[s]
		}
		out = append(out, a)
	}
	return out
}

// materialize reads a value's fields out of the state it lives in.
func materialize(k *engine.Call, v *engine.Val) *engine.Val {
	if v.K == engine.VPtr {
		if pt, ok := v.T.Underlying().(*types.Pointer); ok {
			return materialize(k, k.X.Load(k.St, v.S, pt.Elem()))
		}
	}
	return v
}

// handlerResults forks the results an operation of the handler can give: its errors, and what it writes to its reply.
func handlerResults(c *Ctx, k *engine.Call, reply *engine.Val, mk func(*engine.State, string) *engine.Val) []engine.Outcome {
	labels := c06possible(c, k.Fn)
	var rt types.Type
	r := reply.Unbox()
	if r.K == engine.VPtr {
		if pt, ok := r.T.Underlying().(*types.Pointer); ok {
			rt = pt.Elem()
		}
	}
	if rt != nil && engine.TypeStr(rt) == "bool" {
		labels = []string{"true", "false"}
	}
	var outs []engine.Outcome
	for _, l := range labels {
		s := k.St.Clone()
		s.Auto["result"] = l
		s.Note("%s: the operation gives %s", c.P.RelPos(k.Pos()), orOK(l))
		switch {
		case l == "true" || l == "false":
			k.X.Store(s, r.S, engine.BoolVal(l == "true"))
		case l == "" && rt != nil:
			k.X.Store(s, r.S, engine.Sym("out", rt))
		}
		outs = append(outs, engine.Outcome{St: s, Ret: mk(s, l), Kind: engine.ExitReturn})
	}
	return outs
}

// c06possible lists the errors an operation of the handler can give.
func c06possible(c *Ctx, fn *ssa.Function) []string {
	seen := map[string]bool{}
	x := c.Run(engine.New(c.P, engine.Cfg{Root: fn}))
	for _, e := range x.Exits {
		if e.Kind != engine.ExitReturn || e.Ret == nil {
			continue
		}
		n := errName(e.Ret)
		if n == "other" && !e.Ret.Mentions("nonnil:") {
			seen[""] = true // an error of unknown origin may be none
		}
		seen[n] = true
	}
	if seen["Early"] { // polled: the transports must map every answer, given today or not
		seen["Gone"], seen["Failed"], seen["other"] = true, true, true
	}
	var out []string
	for _, n := range []string{"", "Early", "Gone", "Failed", "other"} {
		if seen[n] {
			out = append(out, n)
		}
	}
	return out
}

// c06compare: the results of one operation over both transports, for every result of the handler.
func c06compare(c *Ctx, m string, rr []request, as []httpAnswer) {
	hf, rf := c.P.Func("(*"+psPkg+".httpClient)."+m), c.P.Func("(*"+psPkg+".rpcClient)."+m)
	byResult := map[string][]httpAnswer{}
	for _, a := range as {
		if a.op != "" {
			byResult[a.result] = append(byResult[a.result], a)
		}
	}
	valueMatters := m != "Write" // how many bytes were taken is the operating system's answer
	outcome := func(x *engine.Interp) map[string][]string {
		out := map[string][]string{}
		for _, e := range x.Exits {
			if e.Kind != engine.ExitReturn || e.Ret == nil || e.St.Auto["last"] == "decode" || e.St.Auto["last"] == "encode" {
				continue
			}
			vals := []*engine.Val{e.Ret}
			if e.Ret.K == engine.VTuple {
				vals = e.Ret.Args
			}
			sig := x.Cfg.Root.Signature.Results()
			key := ""
			for i, v := range vals {
				if i < sig.Len() && sig.At(i).Type().String() == "error" {
					if n := errName(v); n == "other" && v.Mentions("nonnil:err:") {
						key += "err=" + v.Key() + ";"
					} else {
						key += "err=" + n + ";"
					}
					continue
				}
				if !valueMatters {
					continue
				}
				if b, ok := v.Bool(); ok {
					key += fmt.Sprint(b) + ";"
				} else if b, known := e.St.FactBool(v.Key()); known {
					key += fmt.Sprint(b) + ";"
				} else if n := x.DomNames(e.St, v); len(n) == 1 {
					key += n[0] + ";"
				} else {
					key += v.Key() + ";"
				}
			}
			if strings.Contains(key, "err=") && !strings.Contains(key, "err=;") && !strings.Contains(key, "SpecState") {
				// with an error the other results carry no meaning
				key = key[strings.Index(key, "err="):]
			}
			// a repeated request after not-yet is the same request
			out[key] = append(out[key], strings.Join(e.St.Path(10), " | "))
		}
		return out
	}
	byResult["neterr"] = []httpAnswer{{result: "neterr", code: -1}}
	for _, label := range sortedLabels(byResult) {
		hres := map[string][]string{}
		for _, a := range byResult[label] {
			x := c.Run(engine.New(c.P, engine.Cfg{Root: hf, Args: c06args(hf), Concrete: offNetwork, OnCall: c06http(c, a)}))
			for k, v := range outcome(x) {
				hres[k] = append(hres[k], v...)
			}
		}
		x := c.Run(engine.New(c.P, engine.Cfg{Root: rf, Args: c06args(rf), Concrete: offNetwork, OnCall: c06rpc(c, label)}))
		rres := outcome(x)
		hk, rk := fmt.Sprint(keysOf(hres)), fmt.Sprint(keysOf(rres))
		var path []string
		for _, v := range hres {
			path = append(path, v...)
			break
		}
		c.Check(hk == rk, m+" on "+orOK(label), hf.Pos(), path, "when the handler answers %s, %s returns %s over http and %s over rpc (http code %v)", orOK(label), m, hk, rk, codes(byResult[label]))
	}
}

func codes(as []httpAnswer) []int64 {
	var out []int64
	for _, a := range as {
		out = append(out, a.code)
	}
	return out
}

func sortedLabels(m map[string][]httpAnswer) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func keysOf(m map[string][]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// c06http: the http client against one answer of its server.
func c06http(c *Ctx, a httpAnswer) func(k *engine.Call) ([]engine.Outcome, bool) {
	base := clientTransport(c, nil, nil)
	errT := c.P.ErrorType()
	return func(k *engine.Call) ([]engine.Outcome, bool) {
		switch k.Name {
		case "net/http.Get", "net/http.Post":
			tt := k.T.(*types.Tuple)
			if a.code < 0 {
				return k.Return(engine.Tuple(engine.Nil(tt.At(0).Type()), engine.Sym("nonnil:neterr", errT))), true
			}
			k.X.Store(k.St, "resp~.StatusCode", engine.IntVal(a.code, types.Typ[types.Int]))
			return k.Return(engine.Tuple(engine.PtrTo("resp~", tt.At(0).Type()), engine.Nil(errT))), true
		case "encoding/json.Marshal":
			tt := k.T.(*types.Tuple)
			return k.Return(engine.Tuple(engine.Expr("json", tt.At(0).Type(), k.Args[0]), engine.Nil(errT))), true
		case "(*encoding/json.Decoder).Decode":
			p := k.Args[1].Unbox()
			pt, ok := p.T.Underlying().(*types.Pointer)
			if p.K != engine.VPtr || !ok {
				return nil, false
			}
			v := a.sent
			if v == nil || v.T == nil || !types.Identical(v.T, pt.Elem()) {
				got := "nothing"
				if v != nil && v.T != nil {
					got = engine.TypeStr(v.T)
				}
				c.Check(false, a.op+" reply type", k.Pos(), k.St.Path(6), "the client reads %s from the answer of %s, which sends %s", engine.TypeStr(pt.Elem()), a.op, got)
				return nil, false
			}
			k.X.Store(k.St, p.S, v)
			return k.Return(engine.Nil(errT)), true
		}
		return base(k)
	}
}

// c06rpc: the rpc client against one result of the handler.
func c06rpc(c *Ctx, label string) func(k *engine.Call) ([]engine.Outcome, bool) {
	base := clientTransport(c, nil, nil)
	errT := c.P.ErrorType()
	return func(k *engine.Call) ([]engine.Outcome, bool) {
		if k.Name == "(*net/rpc.Client).Call" {
			r := k.Args[3].Unbox()
			var rt types.Type
			if r.K == engine.VPtr {
				if pt, ok := r.T.Underlying().(*types.Pointer); ok {
					rt = pt.Elem()
				}
			}
			switch label {
			case "true", "false":
				if rt != nil {
					k.X.Store(k.St, r.S, engine.BoolVal(label == "true"))
				}
				return k.Return(engine.Nil(errT)), true
			case "":
				if rt != nil {
					k.X.Store(k.St, r.S, engine.Sym("out", rt))
				}
				return k.Return(engine.Nil(errT)), true
			}
			return k.Return(engine.Sym("nonnil:rpc:"+label, errT)), true
		}
		return base(k)
	}
}
