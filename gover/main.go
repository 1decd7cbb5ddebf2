package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"go/types"
)

func (p *Program) newExec(cs *Contracts, fn *ssa.Function, con *Contract, drop map[string]bool) *Exec {
	x := &Exec{p: p, cs: cs, fn: fn, con: con, heap0: map[string]*Term{}, keySorts: map[string]string{}, named: map[*Term]*Term{}, defOf: map[*Term]*Term{},
		wfSeen: map[*Term]*Term{}, embs: map[string]bool{}, freshObjs: map[*Term]bool{}, oblCount: map[string]int{}, dropAuto: drop, assumed: map[string]bool{},
		inlined: map[string]bool{}, callees: map[string]bool{}, litSeen: map[string]bool{}, fnIds: map[*ssa.Function]int{}, fnById: map[int64]closureRec{},
		usedLemmas: map[string]bool{}, usedRec: map[string]bool{}}
	return x
}

// unit is one thing to verify: a function contract or a lemma.
type unit struct {
	name  string
	x     *Exec
	obls  []*Obl
	err   string
	drop  map[string]bool
	lemma *Lemma
	con   *Contract
	fn    *ssa.Function
	dirty bool
	secs  float64
}

func (u *unit) generate(p *Program, cs *Contracts) {
	u.dirty = false
	t0 := time.Now()
	defer func() {
		u.secs += time.Since(t0).Seconds()
		if e := recover(); e != nil {
			if v, ok := e.(verifyErr); ok {
				u.err = v.msg
				u.obls = nil
				return
			}
			panic(e)
		}
	}()
	freshN = 0
	u.err = ""
	if u.lemma != nil {
		u.genLemma(p, cs)
		return
	}
	x := p.newExec(cs, u.fn, u.con, u.drop)
	u.x = x
	s := &State{pc: tTrue, locals: map[localKey]Val{}, heap: map[string]*Term{}}
	s.next = freshConst("next0", sInt)
	x.assume(tTrue, le(num(100000), s.next))
	fr := &Frame{fn: u.fn, vals: map[ssa.Value]Val{}, con: u.con, tag: ""}
	x.root = fr
	x.entry = s.clone()
	for _, prm := range u.fn.Params {
		fr.params = append(fr.params, x.freshVal(s, "p$"+prm.Name(), prm.Type()))
	}
	for _, fv := range u.fn.FreeVars {
		fr.binds = append(fr.binds, x.freshVal(s, "fv$"+fv.Name(), fv.Type()))
	}
	fr.entry = s.clone()
	env := &specEnv{x: x, fr: fr, state: s, old: s.clone(), con: u.con, vars: map[string]Val{}, sig: u.fn.Signature, inOld: true}
	for _, r := range u.con.requires {
		x.assume(tTrue, x.evalBool(env, r))
	}
	for _, r := range u.con.assumes {
		x.assume(tTrue, x.evalBool(env, r))
		x.assumed["assumed in "+u.name+": "+r.src] = true
	}
	x.modAny = u.con.modAny
	if !x.modAny {
		for _, m := range u.con.modifies {
			x.modset = append(x.modset, x.modTargets(env, m)...)
		}
	}
	x.obls = append(x.obls, &Obl{Name: "vacuity-pre", Kind: "vacuity", goal: tTrue, cover: true, nfacts: len(x.facts), Fn: u.name, Expr: "preconditions are satisfiable"})
	for _, h := range u.con.hints {
		x.evalHint(env, h, tTrue)
	}
	x.entry = s.clone()
	fr.entry = s.clone()
	if len(u.con.cases) > 0 {
		var g []*Term
		for _, c := range u.con.cases {
			g = append(g, x.evalBool(env, c))
		}
		x.caseGroups = append(x.caseGroups, g)
	}
	rets := x.runBody(fr, s)
	var pcs []*Term
	for _, r := range rets {
		x.curRet = r.blk
		re := &specEnv{x: x, fr: fr, blk: r.blk, state: r.s, old: fr.entry, con: u.con, vars: map[string]Val{}, results: r.vals, sig: u.fn.Signature}
		if re.results == nil {
			re.results = []Val{}
		}
		for _, h := range u.con.exitHints {
			// a hint about locals only speaks of the exits where they are in scope
			if x.namesInScope(re, h) {
				x.evalHint(re, h, r.s.pc)
			}
		}
		// parameters in postconditions denote their entry values
		pe := *re
		pe.inOld = true
		pos := p.pos(r.blk.Instrs[len(r.blk.Instrs)-1].Pos())
		for i, e := range u.con.ensures {
			c := x.evalBool(&pe, e)
			x.oblige(r.s.pc, "ensures", pos, fmt.Sprintf("postcondition %d: %s", i, e.src), c)
		}
		pcs = append(pcs, r.s.pc)
	}
	if len(rets) > 0 {
		x.obls = append(x.obls, &Obl{Name: "vacuity-exit", Kind: "vacuity", goal: or(pcs...), cover: true, nfacts: len(x.facts), Fn: u.name, Expr: "some exit is reachable"})
	} else if !u.con.noreturn {
		panic(verr("%s: no reachable return", u.name))
	}
	for _, o := range x.obls {
		o.facts = x.facts
	}
	u.obls = x.obls
}

func (u *unit) genLemma(p *Program, cs *Contracts) {
	x := p.newExec(cs, nil, nil, u.drop)
	u.x = x
	x.noFrame = true
	s := x.dummyState()
	x.entry = s
	lm := u.lemma
	vars := map[string]Val{}
	mkVars := func(suffix string) (map[string]Val, []*Term, []string) {
		vs := map[string]Val{}
		var ts []*Term
		var bs []string
		for _, prm := range lm.params {
			f := strings.Fields(prm)
			so := sInt
			if len(f) > 1 {
				so = sortName(f[1])
			}
			var t *Term
			if suffix == "" {
				t = freshConst("l$"+f[0], so)
			} else {
				t = mk(f[0]+suffix, so)
			}
			ts = append(ts, t)
			bs = append(bs, f[0]+suffix+" "+so)
			vs[f[0]] = intV(t)
		}
		return vs, ts, bs
	}
	vars, _, _ = mkVars("")
	env := &specEnv{x: x, state: s, old: s, vars: vars, noLocals: true}
	for _, r := range lm.requires {
		x.assume(tTrue, x.evalBool(env, r))
	}
	x.obls = append(x.obls, &Obl{Name: "vacuity-pre", Kind: "vacuity", goal: tTrue, cover: true, nfacts: len(x.facts), Fn: u.name, Expr: "hypotheses are satisfiable"})
	if lm.induct != "" {
		v2, _, bs := mkVars("!ih")
		e2 := &specEnv{x: x, state: s, old: s, vars: v2, noLocals: true}
		x.noWF++
		var rs, es []*Term
		ind := lm.induct
		iv, ok := v2[ind]
		if !ok {
			panic(verr("lemma %s: unknown induction variable", lm.name))
		}
		rs = append(rs, le(num(0), iv.L[0]), lt(iv.L[0], vars[ind].L[0]))
		for _, r := range lm.requires {
			rs = append(rs, x.evalBool(e2, r))
		}
		for _, r := range lm.ensures {
			es = append(es, x.evalBool(e2, r))
		}
		x.noWF--
		x.assume(tTrue, mkQuant("forall", bs, implies(and(rs...), and(es...)), nil))
	}
	for _, h := range lm.hints {
		// an inductive hypothesis instance: lemma(args) with smaller induction variable
		if h.op == "call" && h.s == lm.name {
			if lm.induct == "" {
				panic(verr("lemma %s: recursive hint without induct", lm.name))
			}
			hv := map[string]Val{}
			for i, prm := range lm.params {
				f := strings.Fields(prm)
				hv[f[0]] = x.eval(env, h.args[i])
			}
			he := &specEnv{x: x, state: s, old: s, vars: hv, noLocals: true}
			var rs, es []*Term
			iv := hv[lm.induct].L[0]
			rs = append(rs, le(num(0), iv), lt(iv, vars[lm.induct].L[0]))
			for _, r := range lm.requires {
				rs = append(rs, x.evalBool(he, r))
			}
			for _, r := range lm.ensures {
				es = append(es, x.evalBool(he, r))
			}
			x.assume(tTrue, implies(and(rs...), and(es...)))
			continue
		}
		if containsLemma(cs, h) {
			if mentions(h, lm.name) {
				panic(verr("lemma %s: recursive use under quantifier", lm.name))
			}
		}
		x.evalHint(env, h, tTrue)
	}
	if len(lm.cases) > 0 {
		var g []*Term
		for _, c := range lm.cases {
			g = append(g, x.evalBool(env, c))
		}
		x.caseGroups = append(x.caseGroups, g)
	}
	for i, e := range lm.ensures {
		x.oblige(tTrue, "lemma", "", fmt.Sprintf("conclusion %d: %s", i, e.src), x.evalBool(env, e))
	}
	for n := range x.usedLemmas {
		if l2 := cs.lemmas[n]; l2.seq >= lm.seq {
			panic(verr("lemma %s uses %s, which is not declared before it", lm.name, n))
		}
	}
	for _, o := range x.obls {
		o.facts = x.facts
		o.Fn = u.name
	}
	u.obls = x.obls
}

var _ = types.Typ

// closure computes the units needed for a list of roots.
func closureUnits(p *Program, cs *Contracts, roots []string) []*unit {
	var us []*unit
	seen := map[string]bool{}
	work := append([]string{}, roots...)
	for len(work) > 0 {
		n := work[0]
		work = work[1:]
		if seen[n] {
			continue
		}
		seen[n] = true
		u := &unit{name: n, drop: map[string]bool{}}
		us = append(us, u)
		if strings.HasPrefix(n, "lemma:") {
			u.lemma = cs.lemmas[n[6:]]
			if u.lemma == nil {
				u.err = "unknown lemma " + n
				continue
			}
		} else {
			u.con = cs.funcs[n]
			if u.con == nil {
				u.err = "no contract for " + n
				continue
			}
			u.fn = p.funcs[n]
			if u.fn == nil {
				u.err = "function " + n + " is not in the source any more"
				continue
			}
			if len(u.fn.Blocks) == 0 {
				u.err = "function " + n + " has no body"
				continue
			}
		}
		u.generate(p, cs)
		if u.x != nil {
			var ns []string
			for c := range u.x.callees {
				if k := cs.funcs[c]; k != nil && k.kind == "func" {
					ns = append(ns, c)
				}
			}
			for l := range u.x.usedLemmas {
				ns = append(ns, "lemma:"+l)
			}
			sort.Strings(ns)
			work = append(work, ns...)
		}
	}
	return us
}

// solveUnits runs the Houdini rounds for auto invariants, then everything.
func solveUnits(p *Program, cs *Contracts, us []*unit, budget time.Duration, total time.Duration) {
	deadline := time.Now().Add(total)
	for round := 0; round < 8; round++ {
		var jobs []job
		for _, u := range us {
			for _, o := range u.obls {
				if o.auto != nil {
					jobs = append(jobs, job{o: o, x: u.x})
				}
			}
		}
		solveAll(jobs, budget, true, deadline)
		again := false
		for _, u := range us {
			for _, o := range u.obls {
				if o.auto != nil && o.Status != "proved" {
					u.drop[o.auto.id] = true
					u.dirty = true
				}
			}
			if u.dirty {
				again = true
				u.generate(p, cs)
			}
		}
		if !again {
			break
		}
	}
	var jobs []job
	for _, u := range us {
		for _, o := range u.obls {
			if o.auto == nil {
				jobs = append(jobs, job{o: o, x: u.x})
			}
		}
	}
	solveAll(jobs, budget, false, deadline)
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gover verify|check|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "verify":
		cmdVerify(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	case "locals":
		cmdLocals(os.Args[2:])
	case "ssa":
		p, err := loadProgram(repoDir())
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, n := range os.Args[2:] {
			if f := p.funcs[n]; f != nil {
				f.WriteTo(os.Stdout)
			} else {
				for k := range p.funcs {
					if strings.Contains(k, n) {
						fmt.Println(k)
					}
				}
			}
		}
	}
}

func repoDir() string {
	if d := os.Getenv("GOVER_REPO"); d != "" {
		return d
	}
	return "/repo"
}
func contractsDir() string {
	if d := os.Getenv("GOVER_CONTRACTS"); d != "" {
		return d
	}
	return "/verif/contracts"
}

func cmdVerify(args []string) {
	verbose := false
	only := false
	budget := 10 * time.Second
	var names []string
	dump := ""
	for _, a := range args {
		switch {
		case a == "-v":
			verbose = true
		case a == "-only":
			only = true
		case strings.HasPrefix(a, "-t="):
			budget, _ = time.ParseDuration(a[3:])
		case strings.HasPrefix(a, "-dump="):
			dump = a[6:]
		default:
			names = append(names, a)
		}
	}
	t0 := time.Now()
	p, err := loadProgram(repoDir())
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	cs, err := loadContracts(contractsDir())
	if err != nil {
		fmt.Println("contracts:", err)
		os.Exit(2)
	}
	t1 := time.Now()
	var roots []string
	for _, n := range names {
		if fs, ok := cs.props[n]; ok {
			roots = append(roots, fs...)
		} else {
			roots = append(roots, n)
		}
	}
	if len(names) == 0 {
		roots = cs.order
	}
	us := closureUnits(p, cs, roots)
	if only {
		var k []*unit
		for _, u := range us {
			for _, r := range roots {
				if r == u.name {
					k = append(k, u)
				}
			}
		}
		us = k
	}
	t2 := time.Now()
	solveUnits(p, cs, us, budget, 20*time.Minute)
	bad := 0
	for _, u := range us {
		n, ok := 0, 0
		secs := 0.0
		for _, o := range u.obls {
			if o.auto != nil {
				continue
			}
			n++
			secs += o.Secs
			if o.Status == "proved" {
				ok++
			}
			if verbose || o.Status != "proved" {
				fmt.Printf("   %-8s %-16s %-22s %.2fs %s %s %s\n", o.Status, o.Name, o.Pos, o.Secs, o.Solver, o.Expr, o.Detail)
			}
			if dump != "" && o.Name == dump {
				fmt.Println("dumped to /tmp/dump.smt2")
				os.WriteFile("/tmp/dump.smt2", []byte(u.x.script(o.facts[:o.nfacts], o.goal, o.cover)), 0644)
			}
		}
		st := "OK"
		if u.err != "" {
			st = "ERROR " + u.err
			bad++
		} else if ok != n {
			st = "FAIL"
			bad++
		}
		fmt.Printf("%-40s %d/%d  %.1fs gen %.1fs %s\n", u.name, ok, n, secs, u.secs, st)
		if verbose && u.x != nil {
			for a := range u.x.assumed {
				fmt.Println("      assumes:", a)
			}
			for a := range u.x.inlined {
				fmt.Println("      inlined:", a)
			}
			for a := range u.drop {
				fmt.Println("      dropped auto:", a)
			}
		}
	}
	fmt.Printf("load %.1fs gen %.1fs solve %.1fs; %d units, %d bad\n", t1.Sub(t0).Seconds(), t2.Sub(t1).Seconds(), time.Since(t2).Seconds(), len(us), bad)
	if bad > 0 {
		os.Exit(1)
	}
}

