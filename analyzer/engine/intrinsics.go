package engine

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// intrinsic models the few external functions whose control effect matters.
func (x *Interp) intrinsic(c *Call) ([]Outcome, bool) {
	if strings.HasPrefix(c.Name, "(types.ginkgoErrors).") && !strings.HasPrefix(x.P.CalleeName(x.Cfg.Root), "(types.ginkgoErrors).") {
		// the dedicated errors: never nil (checked by K07), identified by their constructor
		return c.Return(Sym("nonnil:err:"+strings.TrimPrefix(c.Name, "(types.ginkgoErrors)."), c.T)), true
	}
	if c.Fn != nil && c.Fn.Pkg != nil && strings.HasSuffix(c.Fn.Pkg.Pkg.Path(), "/formatter") && c.Fn.Pkg != x.Cfg.Root.Pkg {
		return c.Return(x.fresh(c.St, c)), true // text formatting only
	}
	switch c.Name {
	case "os.Exit":
		var v *Val
		if len(c.Args) > 0 {
			v = c.Args[0]
		}
		return []Outcome{{St: c.St, Kind: ExitOS, Ret: v}}, true
	case "runtime.Goexit":
		return []Outcome{{St: c.St, Kind: ExitGoexit}}, true
	case "(*sync.Once).Do":
		// either the first call (runs the function) or a later one
		f := c.Args[1]
		if f.K == VFunc && f.Fn != nil {
			s2 := c.St.clone()
			outs := []Outcome{{St: s2, Kind: ExitReturn, Ret: Nil(types.Typ[types.UntypedNil])}}
			_ = outs
			c2 := *c
			c2.Fn, c2.Bind, c2.Args = f.Fn, f.Args, nil
			c2.Name = x.P.CalleeName(f.Fn)
			// continue the "already done" branch separately, inline the function on the other
			x.finish(&Call{X: x, St: s2, Instr: c.Instr, Com: c.Com, T: c.T, Name: c.Name}, outs, c.Instr != nil && isDefer(c))
			x.dispatch(&c2, isDefer(c))
			return nil, true
		}
	case "errors.New", "fmt.Errorf":
		e := x.fresh(c.St, c)
		v := Sym("nonnil:"+e.Key(), c.T)
		return c.Return(v), true
	}
	return nil, false
}

func isDefer(c *Call) bool {
	_, ok := c.Instr.(*ssa.Defer)
	return ok
}
