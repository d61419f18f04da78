package rules

import (
	"strings"

	"ginkgoverif/engine"
)

// lockGuard checks that every access to the guarded fields holds the lock. exempt maps a function name to the reason it may access without.
func lockGuard(c *Ctx, lock string, fields []string, exempt map[string]string) {
	li := c.P.Locks()
	for _, f := range fields {
		n := 0
		for _, a := range c.P.Accesses(f) {
			if a.Fresh {
				continue
			}
			n++
			fn := c.P.CalleeName(topFn(a.Fn))
			c.Funcs[fn] = true
			if why, ok := exempt[fn]; ok {
				c.Ok("%s in %s: exempt, %s", f, fn, why)
				continue
			}
			if why, ok := exempt[fn+" "+f]; ok {
				c.Ok("%s in %s: exempt, %s", f, fn, why)
				continue
			}
			must := li.Must[a.In]
			kind := "read"
			if a.Write {
				kind = "write"
			}
			if must[lock] {
				c.Ok("%s of %s in %s holds %s", kind, f, fn, lock)
				continue
			}
			if entry, ok := li.Entry[a.Fn]; !ok {
				c.Ok("%s of %s in %s: unreachable function", kind, f, fn)
				continue
			} else {
				_ = entry
			}
			c.Fail(kind+" of "+f+" in "+fn, a.In.Pos(), nil, "%s of %s in %s without holding %s (locks certainly held: %s)", kind, f, fn, lock, must)
		}
		if n == 0 {
			c.Undecided("no access to guarded field %s found", f)
		}
	}
}

// lockDiscipline checks balance and non-reentrancy for the given lock (or, with a trailing *, all locks with that prefix).
func lockDiscipline(c *Ctx, lock string) {
	li := c.P.Locks()
	match := func(id string) bool {
		if strings.HasSuffix(lock, "*") {
			return strings.HasPrefix(id, strings.TrimSuffix(lock, "*"))
		}
		return id == lock
	}
	bad := 0
	rep := func(kind string, is []engine.LockIssue) {
		for _, i := range is {
			if match(i.Lock) {
				bad++
				c.Fail(kind+" "+i.Lock+" in "+c.P.CalleeName(i.Fn), i.Pos, nil, "%s: %s", i.Lock, i.Msg)
			}
		}
	}
	rep("leak", li.Leaks)
	rep("double", li.Doubles)
	rep("extra-unlock", li.Extra)
	if bad == 0 {
		c.Ok("%s: balanced, never re-acquired by its holder (%d lock operations in the module)", lock, li.Ops)
	}
}
