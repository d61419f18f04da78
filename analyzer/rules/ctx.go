// Package rules holds, per property, the rules that decide it.
package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"ginkgoverif/engine"

	"golang.org/x/tools/go/ssa"
)

// Violation is one broken obligation.
type Violation struct {
	Property  string   `json:"property"`
	Key       string   `json:"key"` // rule|construct: stable under line changes
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	Pos       string   `json:"pos"`
	Detail    string   `json:"detail"`
	Path      []string `json:"path,omitempty"`
}

// RuleStat counts what a rule looked at.
type RuleStat struct {
	Desc        string   `json:"rule"`
	Obligations int      `json:"obligations"`
	Discharged  int      `json:"discharged"`
	Floor       int      `json:"floor,omitempty"`
	States      int      `json:"states,omitempty"`
	Paths       int      `json:"exits,omitempty"`
	Distinct    int      `json:"distinct_obligations"`
	Samples     []string `json:"samples,omitempty"`

	distinct map[string]bool
}

// Ctx is handed to the rules of one property.
type Ctx struct {
	root    *ssa.Function // the function analysed last
	soft    bool          // failures are suspicions a concrete rule decides: recorded as undecided
	P       *engine.Prog
	Prop    string
	Tier    string
	Viol    []Violation
	Stats   map[string]*RuleStat
	Order   []string
	Funcs   map[string]bool
	seen    map[string]bool
	Assume  []string
	Undec   []string // obligations the analysis could not decide on this tree: reported, never an alarm
	cur     string
	gstores map[*ssa.Global][]*ssa.Store
}

// NewCtx makes a context.
func NewCtx(p *engine.Prog, prop, tier string) *Ctx {
	return &Ctx{P: p, Prop: prop, Tier: tier, Stats: map[string]*RuleStat{}, Funcs: map[string]bool{}, seen: map[string]bool{}}
}

// Rule starts a rule.
func (c *Ctx) Rule(id, desc string) {
	c.cur = id
	if c.Stats[id] == nil {
		c.Stats[id] = &RuleStat{Desc: desc}
		c.Order = append(c.Order, id)
	}
}

func (c *Ctx) stat() *RuleStat { return c.Stats[c.cur] }

// Ok records a discharged obligation.
func (c *Ctx) Ok(format string, a ...any) {
	s := c.stat()
	s.Obligations++
	s.Discharged++
	m := fmt.Sprintf(format, a...)
	if len(m) > 300 {
		m = m[:300] + "…"
	}
	if s.distinct == nil {
		s.distinct = map[string]bool{}
	}
	if !s.distinct[m] {
		s.distinct[m] = true
		s.Distinct++
		if len(s.Samples) < 12 {
			s.Samples = append(s.Samples, m)
		}
	}
}

// Fail records a violated obligation.
func (c *Ctx) Fail(construct string, pos token.Pos, path []string, format string, a ...any) {
	if c.soft {
		c.Undecided("%s: %s", construct, fmt.Sprintf(format, a...))
		return
	}
	s := c.stat()
	key := c.cur + "|" + construct
	if c.seen[key] {
		return
	}
	c.seen[key] = true
	s.Obligations++
	if !pos.IsValid() && c.root != nil {
		// an end of an analysed function without a position of its own: the function is what is at fault
		pos = c.root.Pos()
	}
	c.Viol = append(c.Viol, Violation{Property: c.Prop, Key: key, Rule: c.cur, Construct: construct, Pos: c.P.RelPos(pos), Detail: fmt.Sprintf(format, a...), Path: path})
}

// Undecided records that the rule could not be decided for something on this tree.
func (c *Ctx) Undecided(format string, a ...any) {
	m := c.cur + ": " + fmt.Sprintf(format, a...)
	for _, u := range c.Undec {
		if u == m {
			return
		}
	}
	c.Undec = append(c.Undec, m)
}

// Check records an obligation either way.
func (c *Ctx) Check(ok bool, construct string, pos token.Pos, path []string, format string, a ...any) bool {
	if ok {
		c.Ok("%s", construct)
	} else {
		c.Fail(construct, pos, path, format, a...)
	}
	return ok
}

// Floor fails the rule when it matched fewer instances than were confirmed by hand.
func (c *Ctx) Floor(n int) {
	s := c.stat()
	s.Floor = n
	if s.Obligations < n {
		c.Undecided("%d instances, fewer than the %d confirmed by hand: an anchor has moved", s.Obligations, n)
	}
}

// Fn resolves an anchor function.
func (c *Ctx) Fn(name string) *ssa.Function {
	f := c.P.Func(name)
	if f == nil {
		c.Undecided("anchor function %s not found in the current tree", name)
		return nil
	}
	c.Funcs[name] = true
	return f
}

// Run explores and accounts for it; undecided analyses are violations.
func (c *Ctx) Run(x *engine.Interp) *engine.Interp {
	x.Run()
	c.root = x.Cfg.Root
	s := c.stat()
	s.States += x.NStates
	s.Paths += len(x.Exits)
	for f := range x.Inlined {
		c.Funcs[c.P.CalleeName(f)] = true
	}
	for _, u := range x.Undec {
		c.Undecided("analysis of %s is incomplete: %s", c.P.CalleeName(x.Cfg.Root), u)
	}
	return x
}

// Type resolves a named type "pkgsuffix.Name".
func (c *Ctx) Type(pkg, name string) types.Type {
	p := c.P.PkgBySuffix(pkg)
	if p == nil {
		c.Undecided("package %s not found", pkg)
		return nil
	}
	o := p.Types.Scope().Lookup(name)
	if o == nil {
		c.Undecided("type %s.%s not found", pkg, name)
		return nil
	}
	return o.Type()
}

// ConstVal resolves a declared integer constant.
func (c *Ctx) ConstVal(pkg, name string) *engine.Val {
	p := c.P.PkgBySuffix(pkg)
	if p != nil {
		if k, ok := p.Types.Scope().Lookup(name).(*types.Const); ok {
			return engine.ConstOf(k)
		}
	}
	c.Undecided("constant %s.%s not found", pkg, name)
	return engine.IntVal(-999, types.Typ[types.Int])
}

func setOf(xs []string) map[string]bool {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	return m
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func hasAny(s string, subs ...string) bool {
	for _, x := range subs {
		if strings.Contains(s, x) {
			return true
		}
	}
	return false
}

// Def is a property's decision procedure.
type Def struct {
	ID        string
	Technique string
	Note      string // level_note
	Run       func(*Ctx)
}

// All registered properties.
var All = map[string]*Def{}

func register(d *Def) { All[d.ID] = d }
