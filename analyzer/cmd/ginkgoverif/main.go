// Command ginkgoverif decides one property of the tree at -repo.
package main

import (
	"runtime"
	"runtime/pprof"

	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"ginkgoverif/engine"
	"ginkgoverif/rules"
)

type known struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	Status   string `json:"status"` // "known" or "fixed"
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

func main() {
	prop := flag.String("property", "", "property id, or 'all'")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "tree under analysis")
	verif := flag.String("verif", "/verif", "framework directory")
	list := flag.Bool("list", false, "list properties as JSON")
	verbose := flag.Bool("v", false, "print obligations")
	noev := flag.Bool("noevidence", false, "do not write evidence")
	flag.Parse()
	if p := os.Getenv("GV_PROF"); p != "" {
		if f, err := os.Create(p); err == nil {
			pprof.StartCPUProfile(f)
			time.AfterFunc(20*time.Second, pprof.StopCPUProfile)
		}
	}
	if *list {
		type e struct{ ID, Technique, Note string }
		var out []e
		for _, d := range rules.All {
			out = append(out, e{d.ID, d.Technique, d.Note})
		}
		sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
		json.NewEncoder(os.Stdout).Encode(out)
		return
	}
	ids := []string{*prop}
	if *prop == "all" {
		ids = nil
		for id := range rules.All {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	var p *engine.Prog
	var lerr error
	func() {
		defer func() {
			if e := recover(); e != nil {
				lerr = fmt.Errorf("panic while loading: %v\n%s", e, debug.Stack())
			}
		}()
		p, lerr = engine.Load(*repo)
	}()
	rc := 0
	for _, id := range ids {
		if r := one(p, lerr, id, *tier, *verif, *verbose, *noev); r > rc {
			rc = r
		}
	}
	os.Exit(rc)
}

// watch ends the analyses of a property that take too long or too much memory: what they leave open is reported as undecided.
func watch(id, tier string, done chan bool) {
	limit := 240 * time.Second
	if tier == "thorough" {
		limit = 500 * time.Second
	}
	engine.Halt.Store("")
	start, tick := time.Now(), time.NewTicker(2*time.Second)
	defer tick.Stop()
	for {
		select {
		case <-done:
			return
		case <-tick.C:
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > 14<<30 {
			engine.Halt.Store("out of memory")
		}
		if time.Since(start) > limit {
			engine.Halt.Store("out of time")
		}
		if time.Since(start) > limit+200*time.Second {
			fmt.Printf("UNDECIDED property=%s: the analysis did not end in time\n", id)
			os.Exit(0)
		}
	}
}

func one(p *engine.Prog, lerr error, id, tier, verif string, verbose, noev bool) int {
	start := time.Now()
	done := make(chan bool)
	defer close(done)
	go watch(id, tier, done)
	d := rules.All[id]
	if d == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", id)
		return 2
	}
	var c *rules.Ctx
	if lerr != nil {
		// A tree that does not type-check is not judged: there is no answer.
		fmt.Fprintf(os.Stderr, "NO ANSWER property=%s: the tree could not be loaded: %v\n", id, lerr)
		return 2
	} else {
		c = rules.NewCtx(p, id, tier)
		func() {
			defer func() {
				if e := recover(); e != nil {
					c.Undecided("analyser panic: %v\n%s", e, debug.Stack())
				}
			}()
			d.Run(c)
		}()
	}
	// known findings
	var ks []known
	if b, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		json.Unmarshal(b, &ks)
	}
	var open []rules.Violation
	for _, v := range c.Viol {
		listed := false
		for _, k := range ks {
			if k.Property == id && k.Key == v.Key && k.Status == "known" {
				listed = true
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", id, k.What, v.Pos)
				break
			}
		}
		if !listed {
			open = append(open, v)
		}
	}
	ob, di, states, exits := 0, 0, 0, 0
	for _, s := range c.Stats {
		ob += s.Obligations
		di += s.Discharged
		states += s.States
		exits += s.Paths
	}
	nf, npk := 0, 0
	if p != nil {
		nf, npk = len(p.Funcs), len(p.Pkgs)
	}
	var ruleList []any
	for _, r := range c.Order {
		s := c.Stats[r]
		ruleList = append(ruleList, map[string]any{"id": r, "rule": s.Desc, "obligations": s.Obligations, "discharged": s.Discharged, "floor": s.Floor, "states": s.States, "exits": s.Paths, "samples": s.Samples})
	}
	var fns []string
	for f := range c.Funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation": d.Technique + ". " + d.Note + " Decided from the type-checked SSA of the current tree; nothing is executed. Analysed functions, rules, obligations and samples are listed.",
			"obligations": ob, "discharged": di, "abstract_states": states, "path_exits": exits,
			"packages_loaded": npk, "functions_loaded": nf, "functions_analysed": fns, "rules": ruleList,
			"violations_open": open, "violations_known": len(c.Viol) - len(open),
		},
		"undecided":   append([]string{}, c.Undec...),
		"assumptions": c.Assume,
		"violations":  len(open),
		"wall_s":      time.Since(start).Seconds(),
	}
	if c.Assume == nil {
		ev["assumptions"] = []string{}
	}
	if !noev {
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if verbose {
		for _, r := range c.Order {
			s := c.Stats[r]
			fmt.Printf("  rule %-34s obligations=%d discharged=%d states=%d exits=%d\n", r, s.Obligations, s.Discharged, s.States, s.Paths)
			for _, x := range s.Samples {
				fmt.Printf("      %s\n", x)
			}
		}
	}
	fmt.Printf("%s: %d rules, %d/%d obligations discharged, %d abstract states, %d functions analysed of %d, %.2fs\n", id, len(c.Order), di, ob, states, len(fns), nf, time.Since(start).Seconds())
	for _, u := range c.Undec {
		fmt.Printf("UNDECIDED property=%s %s\n", id, u)
	}
	if len(open) > 0 {
		rp := filepath.Join(verif, "evidence", id+".violation.txt")
		var b strings.Builder
		for _, v := range open {
			fmt.Fprintf(&b, "%s rule=%s construct=%s at %s\n  %s\n", id, v.Rule, v.Construct, v.Pos, v.Detail)
			for _, s := range v.Path {
				fmt.Fprintf(&b, "    path: %s\n", s)
			}
		}
		if !noev {
			os.WriteFile(rp, []byte(b.String()), 0o644)
		}
		fmt.Print(b.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	return 0
}
