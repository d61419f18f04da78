package rules

import (
	"fmt"

	"ginkgoverif/engine"
)

func init() {
	register(&Def{ID: "V03", Technique: "path-sensitive typestate of the spec verdict over every node-outcome sequence (ESP-style property simulation)",
		Note: "Every path through an attempt, the report-each nodes and the suite-level nodes, forking over every outcome of every node; judges how each outcome is absorbed into the record. Assumes node IDs are non-zero and that only the runner's goroutine writes the verdict.",
		Run:  v03})
}

func v03(c *Ctx) {
	c.Rule("attempt-verdict", "setup stops at the first non-passing node; a later node replaces the verdict only when it was passing or the later node aborts; otherwise a failing later node becomes an additional failure")
	const fnn = "attemptSpec"
	w := &attemptWalk{}
	*w = attemptWalk{
		run: func(k *engine.Call, l nlist) {
			lo, _ := listRanks(l)
			if lo <= 3 && k.St.Auto["ph"] != "" {
				c.Check(k.St.Auto["ph"] == "setup", fnn+" setup after teardown", k.Pos(), k.St.Path(10), "a setup or subject node runs after the teardown phase began")
				c.Check(k.St.Auto["last"] == "SpecStatePassed", fmt.Sprintf("%s setup continues after %s", fnn, k.St.Auto["last"]), k.Pos(), k.St.Path(10), "a setup or subject node runs although an earlier one ended %s", k.St.Auto["last"])
			}
		},
		settle: func(x *engine.Interp, st *engine.State) {
			a := st.Auto
			cur, f := w.cur(x, st), w.curFailure(x, st)
			last, prev := a["last"], a["prev"]
			id := fmt.Sprintf("%s %s %s then %s", fnn, a["ph"], prev, last)
			if a["ph"] == "setup" || prev == "SpecStatePassed" || last == "SpecStateAborted" || (!failStates[prev] && failStates[last]) {
				c.Check(cur == last && f == "failure-of-"+last, id, w.fn.Pos(), st.Path(12), "verdict %s, a %s node ends %s: the verdict becomes %s with details %s, want %s with its own details", prev, a["ph"], last, cur, f, last)
				return
			}
			c.Check(cur == prev && f == a["prevf"], id, w.fn.Pos(), st.Path(12), "verdict %s, a later node ends %s: the verdict becomes %s (details %s)", prev, last, cur, f)
			if failStates[last] {
				c.Check(a["addl"] == last, id+" kept", w.fn.Pos(), st.Path(12), "verdict %s, a later node ends %s: that failure is not kept as an additional failure", prev, last)
			}
		},
	}
	attempt(c, w)
	c.Floor(100)

	c.Rule("report-each-verdict", "a report-each node changes the verdict exactly when the spec was not failing and the node fails, or when the node aborts; then with the node's own details")
	for _, s0 := range reportStates(c) {
		w := &attemptWalk{entry: s0.Name}
		w.settle = func(x *engine.Interp, st *engine.State) {
			cur, f := w.cur(x, st), w.curFailure(x, st)
			last, prev := st.Auto["last"], st.Auto["prev"]
			id := fmt.Sprintf("reportEach %s then %s", prev, last)
			if (!failStates[prev] && failStates[last]) || last == "SpecStateAborted" {
				c.Check(cur == last && f == "failure-of-"+last, id, w.fn.Pos(), st.Path(12), "verdict %s, a report-each node ends %s: the verdict becomes %s with details %s", prev, last, cur, f)
				return
			}
			c.Check(cur == prev && f == st.Auto["prevf"], id, w.fn.Pos(), st.Path(12), "verdict %s, a report-each node ends %s: the verdict becomes %s with details %s", prev, last, cur, f)
		}
		nodeWalk(c, "(*internal.Suite).reportEach", w)
	}
	c.Floor(60)

	c.Rule("suite-node-verdict", "a suite-level node ends with the first failing outcome of its parts, else with that of its last part or with the failure of its coordination")
	for _, root := range []string{"(*internal.Suite).runSuiteNode", "(*internal.Suite).runReportSuiteNode"} {
		w := &attemptWalk{single: true}
		short := root[len("(*internal.Suite)."):]
		w.run = func(k *engine.Call, l nlist) {
			if l := k.St.Auto["last"]; failStates[l] && k.St.Auto["firstfail"] == "" {
				k.St.Auto["firstfail"] = l
			}
		}
		w.exit = func(x *engine.Interp, e *engine.Exit) {
			if e.Kind != engine.ExitReturn {
				return
			}
			a := e.St.Auto
			cur, f := w.cur(x, e.St), w.curFailure(x, e.St)
			want := a["firstfail"]
			if want == "" && failStates[a["last"]] {
				want = a["last"]
			}
			if want != "" {
				c.Check(cur == want && f == "failure-of-"+want, short+" first failing part "+want, w.fn.Pos(), e.St.Path(14), "a part of the node ended %s but its verdict is %s with details %s", want, cur, f)
				return
			}
			if a["last"] != "" {
				c.Check(cur == a["last"] || cur == "SpecStateFailed" || (a["prev"] == "SpecStateSkipped" && cur == "SpecStateSkipped"), short+" last part "+a["last"], w.fn.Pos(), e.St.Path(14), "the last part ended %s but the verdict is %s", a["last"], cur)
			}
		}
		nodeWalk(c, root, w)
	}
	c.Floor(10)
}
