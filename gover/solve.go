package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

type solverCfg struct {
	name string
	args []string
}

var solvers = []solverCfg{
	{"z3-5.3", []string{"z3-new", "-smt2", "-in"}},
	{"cvc5-1.1", []string{"cvc5", "--lang=smt2", "--incremental"}},
	{"z3-4.8", []string{"z3", "-smt2", "-in"}},
	{"cvc5-1.1-enum", []string{"cvc5", "--lang=smt2", "--enum-inst"}},
}

func runSolver(cfg solverCfg, script string, timeout time.Duration) (string, string, time.Duration) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout+2*time.Second)
	defer cancel()
	args := append([]string{}, cfg.args[1:]...)
	if strings.HasPrefix(cfg.args[0], "z3") {
		args = append(args, fmt.Sprintf("-T:%d", int(timeout/time.Second)+1))
	} else {
		args = append(args, fmt.Sprintf("--tlimit=%d", timeout/time.Millisecond))
	}
	cmd := exec.CommandContext(ctx, cfg.args[0], args...)
	cmd.Stdin = strings.NewReader(script)
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	t := time.Now()
	cmd.Run()
	d := time.Since(t)
	full := out.String()
	first := full
	if i := strings.IndexByte(first, '\n'); i >= 0 {
		first = first[:i]
	}
	first = strings.TrimSpace(first)
	switch first {
	case "sat", "unsat", "unknown":
		return first, full, d
	}
	if strings.Contains(full, "error") || strings.Contains(errb.String(), "rror") {
		return "error", full + errb.String(), d
	}
	return "timeout", full + errb.String(), d
}

// ---- script generation ----

var scriptMu sync.Mutex

func (x *Exec) script(facts []fact, goal *Term, cover bool) string {
	scriptMu.Lock()
	defer scriptMu.Unlock()
	need := map[string]bool{}
	var syms []string
	addSyms := func(t *Term) {
		for _, s := range t.symbols() {
			if !need[s] {
				need[s] = true
				syms = append(syms, s)
			}
		}
	}
	addSyms(goal)
	inc := make([]bool, len(facts))
	defs := map[string]int{}
	for i, f := range facts {
		if f.def != nil {
			defs[f.def.op] = i
		} else {
			inc[i] = true
			addSyms(f.t)
		}
	}
	for k := 0; k < len(syms); k++ {
		if i, ok := defs[syms[k]]; ok && !inc[i] {
			inc[i] = true
			addSyms(facts[i].t)
		}
	}
	funs := map[string]bool{}
	seen := map[*Term]bool{}
	goal.funs(funs, seen)
	for i, f := range facts {
		if inc[i] {
			f.t.funs(funs, seen)
		}
	}
	var ax []string
	ax = x.axiomsFor(funs, need, &syms, seen)
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n(declare-sort Flt 0)\n")
	sort.Strings(syms)
	for _, s := range syms {
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", s, constSorts[s])
	}
	var fl []string
	for f := range funs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	for _, f := range fl {
		d := funDecls[f]
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", f, strings.Join(d.args, " "), d.ret)
	}
	for _, a := range ax {
		sb.WriteString("(assert " + a + ")\n")
	}
	for i, f := range facts {
		if inc[i] {
			sb.WriteString("(assert ")
			f.t.write(&sb)
			sb.WriteString(")\n")
		}
	}
	if !cover {
		sb.WriteString("(assert (not ")
		goal.write(&sb)
		sb.WriteString("))\n")
	} else {
		sb.WriteString("(assert ")
		goal.write(&sb)
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

// axiomsFor collects background axioms for the functions used, to a fixpoint.
func (x *Exec) axiomsFor(funs map[string]bool, need map[string]bool, syms *[]string, seen map[*Term]bool) []string {
	var out []string
	done := map[string]bool{}
	addTerm := func(t *Term) {
		t.funs(funs, seen)
		for _, s := range t.symbols() {
			if !need[s] {
				need[s] = true
				*syms = append(*syms, s)
			}
		}
		out = append(out, t.String())
	}
	v := func(n string) *Term { return mk(n, sInt) }
	for changed := true; changed; {
		changed = false
		var fl []string
		for f := range funs {
			if !done[f] {
				fl = append(fl, f)
			}
		}
		sort.Strings(fl)
		for _, f := range fl {
			done[f] = true
			changed = true
			switch {
			case f == "ix":
				t := app("ix", sInt, v("a!q"), v("b!q"))
				addTerm(mkQuant("forall", []string{"a!q Int", "b!q Int"}, eqRaw(t, add(v("a!q"), v("b!q"))), [][]*Term{{t}}))
			case strings.HasPrefix(f, "emb$") && !strings.HasSuffix(f, "$inv"):
				t := app(f, sInt, v("a!q"))
				id := embId(f)
				addTerm(mkQuant("forall", []string{"a!q Int"}, and(lt(t, num(0)), eqRaw(app(f+"$inv", sInt, t), v("a!q")), eqRaw(app("embtag", sInt, t), num(id)),
					eqRaw(app("embroot", sInt, t), ite(le(num(0), v("a!q")), v("a!q"), app("embroot", sInt, v("a!q"))))), [][]*Term{{t}}))
			case strings.HasPrefix(f, "embarr$") && !strings.HasSuffix(f, "$inv1") && !strings.HasSuffix(f, "$inv2"):
				t := app(f, sInt, v("a!q"), v("b!q"))
				id := embId(f)
				addTerm(mkQuant("forall", []string{"a!q Int", "b!q Int"}, and(lt(t, num(0)), eqRaw(app(f+"$inv1", sInt, t), v("a!q")), eqRaw(app(f+"$inv2", sInt, t), v("b!q")), eqRaw(app("embtag", sInt, t), num(id)),
					eqRaw(app("embroot", sInt, t), ite(le(num(0), v("a!q")), v("a!q"), app("embroot", sInt, v("a!q"))))), [][]*Term{{t}}))
			case f == "strof":
				A := mk("A!q", arrSort(sInt))
				t := app("strof", sInt, A, v("o!q"), v("n!q"))
				at := app("strat", sInt, t, v("i!q"))
				addTerm(mkQuant("forall", []string{"A!q " + arrSort(sInt), "o!q Int", "n!q Int", "i!q Int"}, implies(and(le(num(0), v("i!q")), lt(v("i!q"), v("n!q"))), eqRaw(at, mk("select", sInt, A, add(v("o!q"), v("i!q"))))), [][]*Term{{at}}))
			case f == "strsub":
				t := app("strsub", sInt, v("s!q"), v("l!q"), v("h!q"))
				at := app("strat", sInt, t, v("i!q"))
				addTerm(mkQuant("forall", []string{"s!q Int", "l!q Int", "h!q Int", "i!q Int"}, implies(and(le(num(0), v("i!q")), lt(v("i!q"), sub(v("h!q"), v("l!q")))), eqRaw(at, app("strat", sInt, v("s!q"), add(v("l!q"), v("i!q"))))), [][]*Term{{at}}))
			case f == "strcat":
				t := app("strcat", sInt, v("s!q"), v("l!q"))
				at := app("strat", sInt, t, v("i!q"))
				n := app("strlen", sInt, v("s!q"))
				addTerm(mkQuant("forall", []string{"s!q Int", "l!q Int", "i!q Int"}, eqRaw(at, ite(lt(v("i!q"), n), app("strat", sInt, v("s!q"), v("i!q")), app("strat", sInt, v("l!q"), sub(v("i!q"), n)))), [][]*Term{{at}}))
			case f == "strat":
				t := app("strat", sInt, v("s!q"), v("i!q"))
				addTerm(mkQuant("forall", []string{"s!q Int", "i!q Int"}, and(le(num(0), t), le(t, num(255))), [][]*Term{{t}}))
			case strings.HasPrefix(f, "spec$"):
				n := strings.TrimSuffix(f[5:], "$0")
				sf := x.cs.specs[n]
				if sf == nil {
					break
				}
				if sf.rec && !strings.HasSuffix(f, "$0") {
					// one-step unfolding
					vars := map[string]Val{}
					var bs []string
					var ps []*Term
					for i, p := range sf.params {
						t := mk(p+"!r", sf.args[i])
						bs = append(bs, p+"!r "+sf.args[i])
						ps = append(ps, t)
						vars[p] = intV(t)
					}
					x.noWF++
					body := x.eval(&specEnv{x: x, state: x.dummyState(), vars: vars, noLocals: true}, sf.body).L[0]
					x.noWF--
					body = renameFun(body, f, f+"$0", map[*Term]*Term{})
					t := app(f, sf.ret, ps...)
					t0 := app(f+"$0", sf.ret, ps...)
					addTerm(mkQuant("forall", bs, eqRaw(t, body), [][]*Term{{t}}))
					addTerm(mkQuant("forall", bs, eqRaw(t, t0), [][]*Term{{t}}))
				}
				for an, ae := range x.cs.axioms {
					if done["axiom:"+an] || !mentions(ae, n) {
						continue
					}
					done["axiom:"+an] = true
					x.assumed["axiom: "+an] = true
					t := x.evalBool(&specEnv{x: x, state: x.dummyState(), vars: map[string]Val{}, noLocals: true}, ae)
					addTerm(t)
				}
			}
		}
	}
	// string literals
	var lits []*Term
	for _, s := range strLitList {
		if t := strLits[s]; need[t.op] {
			lits = append(lits, t)
			if funs["strlen"] {
				out = append(out, fmt.Sprintf("(= (strlen %s) %d)", t.op, len(s)))
			}
			if funs["strat"] && len(s) <= 64 {
				for i := 0; i < len(s); i++ {
					out = append(out, fmt.Sprintf("(= (strat %s %d) %d)", t.op, i, s[i]))
				}
			}
		}
	}
	if len(lits) > 1 {
		var ns []string
		for _, t := range lits {
			ns = append(ns, t.op)
		}
		out = append(out, "(distinct "+strings.Join(ns, " ")+")")
	}
	return out
}

func (x *Exec) dummyState() *State {
	return &State{pc: tTrue, locals: map[localKey]Val{}, heap: map[string]*Term{}, next: num(0)}
}

func mentions(e *Expr, n string) bool {
	if e.op == "call" && e.s == n {
		return true
	}
	for _, a := range e.args {
		if mentions(a, n) {
			return true
		}
	}
	return false
}

func renameFun(t *Term, from, to string, memo map[*Term]*Term) *Term {
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = renameFun(a, from, to, memo)
	}
	var r *Term
	if t.op == from {
		r = app(to, t.sort, args...)
	} else if len(t.bound) > 0 {
		var pats [][]*Term
		for _, p := range t.pats {
			var np []*Term
			for _, q := range p {
				np = append(np, renameFun(q, from, to, memo))
			}
			pats = append(pats, np)
		}
		r = mkQuant(t.op, t.bound, args[0], pats)
	} else {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

var embIds = map[string]int64{}

func embId(f string) int64 {
	if id, ok := embIds[f]; ok {
		return id
	}
	embIds[f] = int64(len(embIds) + 1)
	return embIds[f]
}

// ---- parallel solving ----

type job struct {
	o    *Obl
	x    *Exec
	auto bool
}

type solveStats struct {
	mu     sync.Mutex
	bySolv map[string]int
	secs   map[string]float64
	n      int
}

var stats = solveStats{bySolv: map[string]int{}, secs: map[string]float64{}}

var autoCache sync.Map

func solveAll(jobs []job, budget time.Duration, autoMode bool, deadline time.Time) {
	nw := 8
	ch := make(chan job)
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				solveOne(j, budget, autoMode, deadline)
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
}

var shortObl func(*Obl) bool

func solveOne(j job, budget time.Duration, autoMode bool, deadline time.Time) {
	o := j.o
	if o.goal == tTrue && !o.cover {
		o.Status, o.Solver = "proved", "simplifier"
		return
	}
	sc := j.x.script(o.facts[:o.nfacts], o.goal, o.cover)
	record := func(name string, d time.Duration) {
		stats.mu.Lock()
		stats.bySolv[name]++
		stats.secs[name] += d.Seconds()
		stats.mu.Unlock()
	}
	if autoMode {
		if r, ok := autoCache.Load(sc); ok {
			o.Status = r.(string)
			return
		}
		r, _, d := runSolver(solvers[0], sc, 3*time.Second)
		o.Secs = d.Seconds()
		if r == "unsat" {
			o.Status, o.Solver = "proved", solvers[0].name
		} else {
			o.Status = "failed"
		}
		autoCache.Store(sc, o.Status)
		record(solvers[0].name, d)
		return
	}
	if o.cover {
		// a satisfiability check: "unsat" means vacuous
		r, full, d := runSolver(solvers[0], sc, 4*time.Second)
		record(solvers[0].name+" (vacuity)", d)
		o.Secs = d.Seconds()
		o.Solver = solvers[0].name
		switch r {
		case "unsat":
			o.Status = "vacuous"
		case "error":
			o.Status = "failed"
			o.Detail = full
			o.script = sc
		default:
			o.Status = "proved"
			o.Detail = r
		}
		return
	}
	var last string
	type att struct {
		k int
		t time.Duration
	}
	try := func(sc string, sched []att) string {
		for _, sd := range sched {
			if time.Now().After(deadline) && sd.k > 0 {
				last = "time budget exhausted"
				break
			}
			cfg := solvers[sd.k]
			r, full, d := runSolver(cfg, sc, sd.t)
			o.Secs += d.Seconds()
			record(cfg.name, d)
			if r == "unsat" {
				o.Solver = cfg.name
				return "unsat"
			}
			last = cfg.name + ": " + r
			if r == "error" {
				o.Detail += cfg.name + ": " + trunc(full, 2000) + "\n"
				if os.Getenv("GOVER_DEBUG") != "" {
					os.WriteFile("/tmp/bad.smt2", []byte(sc), 0644)
				}
				continue
			}
			if r == "sat" {
				return "sat"
			}
		}
		return "unknown"
	}
	first := []att{{1, budget / 8}, {0, budget / 4}, {2, budget / 8}, {1, budget / 2}}
	rest := []att{{2, budget / 2}, {0, budget}, {3, budget}}
	if len(o.cases) > 0 {
		first = []att{{0, budget / 8}}
		rest = []att{{1, budget / 2}, {0, budget}, {2, budget / 2}, {3, budget}}
	}
	if shortObl != nil && shortObl(o) {
		first, rest, o.cases = []att{{0, 3 * time.Second}}, nil, nil
	}
	r := "unknown"
	if n := o.nfacts; n > 30 && (shortObl == nil || !shortObl(o)) {
		// what was established last often suffices: fewer facts are always sound
		if r = try(sc, []att{{0, 1500 * time.Millisecond}}); r == "unknown" {
			for _, k := range []int{16, 40} {
				if try(noIx.ReplaceAllString(j.x.script(lastFacts(o.facts[:n], k), o.goal, false), ""), []att{{0, 1200 * time.Millisecond}}) == "unsat" {
					r = "unsat"
					o.Solver += " (last facts)"
					break
				}
			}
		}
	}
	if r == "unknown" {
		r = try(sc, first)
	}
	if r == "unsat" {
		o.Status = "proved"
		return
	}
	if r != "sat" {
		for g := len(o.cases) - 1; g >= 0; g-- {
			ok := true
			var neg []*Term
			o.Detail = ""
			for k := 0; k <= len(o.cases[g]); k++ {
				var c *Term
				scriptMu.Lock()
				if k < len(o.cases[g]) {
					c = o.cases[g][k]
					neg = append(neg, not(c))
				} else {
					c = and(neg...)
				}
				goal := implies(c, o.goal)
				scriptMu.Unlock()
				if goal == tTrue {
					continue
				}
				if try(j.x.script(o.facts[:o.nfacts], goal, false), []att{{0, budget / 4}, {1, budget / 2}, {0, budget}}) != "unsat" {
					ok = false
					last += fmt.Sprintf(" (case %d)", k)
					break
				}
			}
			if ok {
				o.Status = "proved"
				o.Solver += " by cases"
				return
			}
		}
		af, ag := absFacts(o.facts[:o.nfacts], o.goal)
		if d := os.Getenv("GOVER_DUMP"); d != "" {
			os.WriteFile(d+"/"+sanitize(o.Name)+".smt2", []byte(sc), 0644)
			os.WriteFile(d+"/"+sanitize(o.Name)+".abs.smt2", []byte(j.x.script(af, ag, false)), 0644)
		}
		if r = try(j.x.script(af, ag, false), []att{{0, budget / 4}, {1, budget / 2}}); r == "unsat" {
			o.Status = "proved"
			return
		}
		r = try(sc, rest)
		if r == "unsat" {
			o.Status = "proved"
			return
		}
	}
	o.Status = "failed"
	o.Detail += last
	o.script = sc
}

var noIx = regexp.MustCompile(`(?m)^\(assert \(forall \(\(a!q Int\)\(b!q Int\)\) \(! \(= \(ix a!q b!q\).*$`)

// lastFacts keeps all definitions and the last k other facts.
func lastFacts(fs []fact, k int) []fact {
	var out []fact
	for i := len(fs) - 1; i >= 0; i-- {
		if fs[i].def == nil {
			if k == 0 {
				continue
			}
			k--
		}
		out = append(out, fs[i])
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func modelOf(o *Obl) string {
	if o.script == "" {
		return ""
	}
	sc := o.script + "(get-model)\n"
	_, full, _ := runSolver(solvers[0], sc, 10*time.Second)
	if !strings.Contains(full, "define-fun") {
		_, full, _ = runSolver(solvers[2], sc, 10*time.Second)
	}
	return full
}
