package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type knownFinding struct {
	Property   string `json:"property"`
	Kind       string `json:"kind"`       // "finding" or "fixed"
	Unit       string `json:"unit"`       // function under contract
	Obligation string `json:"obligation"` // substring of the obligation's text
	Input      string `json:"input"`      // harness case key
	What       string `json:"what"`
	Commit     string `json:"commit"`
}

func loadKnown(root string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.json"))
	if err != nil {
		return nil
	}
	var k []knownFinding
	if err := json.Unmarshal(b, &k); err != nil {
		fmt.Println("known_findings.json:", err)
		os.Exit(2)
	}
	return k
}

type harnessResult struct {
	Ran      bool                   `json:"ran"`
	Err      string                 `json:"err,omitempty"`
	Cases    int64                  `json:"cases"`
	Distinct int64                  `json:"distinct_nontrivial"`
	Rule     string                 `json:"rule,omitempty"`
	Failures []harnessFailure       `json:"failures"`
	Samples  []interface{}          `json:"samples"`
	Known    []string               `json:"known,omitempty"`
	Secs     float64                `json:"secs"`
	Output   string                 `json:"output,omitempty"`
	Extra    map[string]interface{} `json:"extra,omitempty"`
}

type harnessFailure struct {
	Case string      `json:"case"`
	Key  string      `json:"key"`
	Why  string      `json:"why"`
	In   interface{} `json:"input"`
}

// runHarness executes /verif/replay/<prop>_test.go inside package main of the
// checked tree through an overlay.
func runHarness(root, prop, mode string, limit time.Duration, hints, known []string, seed int64) *harnessResult {
	res := &harnessResult{}
	src := filepath.Join(root, "replay", strings.ToLower(prop)+"_test.go")
	if _, err := os.Stat(src); err != nil {
		res.Err = "no harness for this property"
		return res
	}
	t0 := time.Now()
	dir, err := os.MkdirTemp("", "gover-"+prop+"-")
	if err != nil {
		res.Err = err.Error()
		return res
	}
	defer os.RemoveAll(dir)
	ov := map[string]map[string]string{"Replace": {
		filepath.Join(repoDir(), "zz_verif_common_test.go"): filepath.Join(root, "replay", "common_test.go"),
		filepath.Join(repoDir(), "zz_verif_prop_test.go"):   src,
	}}
	// further files it names
	hsrc, _ := os.ReadFile(src)
	for i, l := range strings.Split(string(hsrc), "\n") {
		if f, ok := strings.CutPrefix(l, "//use: "); ok {
			ov["Replace"][filepath.Join(repoDir(), fmt.Sprintf("zz_verif_use%d_test.go", i))] = filepath.Join(root, "replay", strings.TrimSpace(f))
		}
	}
	// the repository's own tests are not needed for a replay and are left out
	old, _ := filepath.Glob(filepath.Join(repoDir(), "*_test.go"))
	for _, f := range old {
		if !strings.Contains(f, "zz_verif_") {
			ov["Replace"][f] = ""
		}
	}
	ob, _ := json.Marshal(ov)
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, ob, 0644)
	out := filepath.Join(dir, "out.json")
	hf := filepath.Join(dir, "hints.json")
	hb, _ := json.Marshal(hints)
	os.WriteFile(hf, hb, 0644)
	scratch := filepath.Join(dir, "scratch")
	os.Mkdir(scratch, 0755)
	ctx, cancel := context.WithTimeout(context.Background(), limit+240*time.Second)
	defer cancel()
	bin := filepath.Join(dir, "replay.test")
	run := func(c *exec.Cmd, keepOut bool) (string, error) {
		var ob limBuf
		if keepOut {
			c.Stdout = &ob
		}
		c.Stderr = &ob
		c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		c.Cancel = func() error { return syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
		err := c.Run()
		return ob.String(), err
	}
	bc := exec.CommandContext(ctx, "go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", bin, ".")
	bc.Dir = repoDir()
	bc.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "GOTOOLCHAIN=local")
	if o, err := run(bc, true); err != nil {
		res.Err = "harness does not build: " + trunc(o, 3000)
		res.Secs = time.Since(t0).Seconds()
		return res
	}
	rctx, rcancel := context.WithTimeout(context.Background(), limit+30*time.Second)
	defer rcancel()
	rc := exec.CommandContext(rctx, bin, "-test.run", "^TestVerif$", "-test.timeout", (limit + 60*time.Second).String())
	rc.Dir = scratch
	rc.Env = append(os.Environ(), "VF_OUT="+out, "VF_HINTS="+hf, "VF_MODE="+mode, "VF_KNOWN="+strings.Join(known, ","), fmt.Sprintf("VF_SECS=%d", int(limit.Seconds())),
		fmt.Sprintf("VF_SEED=%d", seed), "VF_SCRATCH="+scratch, "GOMEMLIMIT=6GiB")
	o, rerr := run(rc, false)
	if b, err := os.ReadFile(out); err == nil {
		json.Unmarshal(b, res)
	}
	res.Ran = true
	res.Secs = time.Since(t0).Seconds()
	res.Output = trunc(o, 4000)
	if rerr != nil && len(res.Failures) == 0 {
		// the process died: the code under test crashed, or hung
		if b, err := os.ReadFile(out + ".cur"); err == nil && len(b) > 0 {
			why := "the code under test crashed or hung on this case"
			tail := o
			if len(tail) > 1500 {
				tail = tail[:1500]
			}
			res.Failures = append(res.Failures, harnessFailure{Case: string(b), Why: why + ": " + tail})
		} else {
			res.Err = "harness ended abnormally: " + rerr.Error() + "\n" + trunc(o, 2000)
		}
	}
	return res
}

// limBuf keeps the first part of what is written to it
type limBuf struct{ b bytes.Buffer }

func (l *limBuf) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}
func (l *limBuf) String() string { return l.b.String() }

var intRe = regexp.MustCompile(`\(- (\d+)\)|\b(\d+)\b`)

func hintInts(models []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, m := range models {
		for _, g := range intRe.FindAllStringSubmatch(m, -1) {
			v := g[2]
			if g[1] != "" {
				v = "-" + g[1]
			}
			if len(v) < 19 && !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
			if len(out) > 3000 {
				return out
			}
		}
	}
	return out
}

func cmdCheck(args []string) {
	prop, tier := "", os.Getenv("VERIF_TIER")
	root := "/verif"
	for i := 0; i+1 < len(args); i += 2 {
		switch args[i] {
		case "-prop":
			prop = args[i+1]
		case "-tier":
			tier = args[i+1]
		case "-root":
			root = args[i+1]
		}
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	t0 := time.Now()
	p, err := loadProgram(repoDir())
	if err != nil {
		fmt.Println("cannot load the program:", err)
		os.Exit(2)
	}
	os.Setenv("GOVER_CONTRACTS", filepath.Join(root, "contracts"))
	cs, err := loadContracts(filepath.Join(root, "contracts"))
	if err != nil {
		fmt.Println("contracts:", err)
		os.Exit(2)
	}
	roots, ok := cs.props[prop]
	if !ok {
		fmt.Println("no property", prop)
		os.Exit(2)
	}
	known := []knownFinding{}
	for _, k := range loadKnown(root) {
		if k.Property == prop && k.Kind == "finding" {
			known = append(known, k)
		}
	}
	budget, total := 24*time.Second, 420*time.Second
	if tier == "thorough" {
		budget, total = 90*time.Second, 40*time.Minute
	}
	us := closureUnits(p, cs, roots)
	isKnown := func(unit, text string) *knownFinding {
		for i := range known {
			k := &known[i]
			if k.Unit == unit && k.Obligation != "" && strings.Contains(text, k.Obligation) {
				return k
			}
		}
		return nil
	}
	// obligations listed as findings get a short attempt only
	shortObl = func(o *Obl) bool { return isKnown(o.Fn, o.Kind+": "+o.Expr) != nil }
	solveUnits(p, cs, us, budget, total)

	type fail struct {
		unit, name, kind, pos, expr, status, detail string
		o                                           *Obl
	}
	var fails []fail
	var knownHit []string
	khSeen := map[string]bool{}
	nObl, nOK, nVac := 0, 0, 0
	var fnames, lnames []string
	assumed := map[string]bool{}
	inl := map[string]bool{}
	perUnit := map[string]interface{}{}
	slow := 0.0
	for _, u := range us {
		if u.lemma != nil {
			lnames = append(lnames, u.lemma.name)
		} else {
			fnames = append(fnames, u.name)
		}
		if u.err != "" {
			nObl++
			fails = append(fails, fail{unit: u.name, name: "contract-applies", kind: "contract", expr: "the contract can be checked against the function", status: "error", detail: u.err})
			continue
		}
		n, k := 0, 0
		for _, o := range u.obls {
			if o.auto != nil {
				continue
			}
			if o.cover {
				nVac++
				if o.Status != "proved" {
					fails = append(fails, fail{u.name, o.Name, o.Kind, o.Pos, o.Expr, o.Status, "the hypotheses are contradictory: " + o.Detail, o})
				}
				continue
			}
			n++
			nObl++
			if o.Secs > slow {
				slow = o.Secs
			}
			if o.Status == "proved" {
				nOK++
				k++
				continue
			}
			if kf := isKnown(u.name, o.Kind+": "+o.Expr); kf != nil {
				if !khSeen[kf.What] {
					khSeen[kf.What] = true
					knownHit = append(knownHit, kf.What)
				}
				continue
			}
			fails = append(fails, fail{u.name, o.Name, o.Kind, o.Pos, o.Expr, o.Status, o.Detail, o})
		}
		perUnit[u.name] = fmt.Sprintf("%d/%d", k, n)
		for a := range u.x.assumed {
			assumed[a] = true
		}
		for a := range u.x.inlined {
			inl[a] = true
		}
	}

	// bounded stand-ins and replay
	boundText, bounded := cs.bounded[prop]
	var hr *harnessResult
	mode := ""
	limit := 20 * time.Second
	switch {
	case len(fails) > 0:
		mode, limit = "replay", 150*time.Second
	case tier == "thorough":
		mode, limit = "thorough", 240*time.Second
	case bounded:
		mode = "bounded"
	}
	var models []string
	if len(fails) > 0 {
		// shortest-named obligations first; a few models are enough
		got := 0
		for _, f := range fails {
			if f.o != nil && f.o.script != "" && got < 4 {
				m := modelOf(f.o)
				if m != "" {
					models = append(models, m)
					got++
				}
			}
		}
	}
	if mode != "" {
		var kk []string
		for _, k := range known {
			if k.Input != "" {
				kk = append(kk, k.Input)
			}
		}
		hr = runHarness(root, prop, mode, limit, hintInts(models), kk, seed)
	}
	violation := false
	replay := ""
	var newFail []harnessFailure
	if hr != nil {
		for _, f := range hr.Failures {
			k := false
			for _, kf := range known {
				if kf.Input != "" && f.Key == kf.Input {
					k = true
					if !khSeen[kf.What] {
						khSeen[kf.What] = true
						knownHit = append(knownHit, kf.What)
					}
				}
			}
			if !k {
				newFail = append(newFail, f)
			}
		}
	}
	if mode == "bounded" && hr != nil && !hr.Ran {
		// the bounded stand-in cannot be built against this tree
		fails = append(fails, fail{unit: "bounded stand-in", name: "harness", kind: "bounded", expr: boundText, status: "error", detail: hr.Err})
	}
	if len(fails) > 0 || len(newFail) > 0 {
		violation = true
		dir := filepath.Join(root, "evidence", "replay")
		os.MkdirAll(dir, 0755)
		replay = filepath.Join(dir, prop+".json")
		rep := map[string]interface{}{"property": prop, "tier": tier, "repo": repoDir()}
		var fo []map[string]interface{}
		for _, f := range fails {
			fo = append(fo, map[string]interface{}{"function": f.unit, "obligation": f.name, "kind": f.kind, "at": f.pos, "statement": f.expr, "status": f.status, "solver_output": trunc(f.detail, 3000)})
		}
		rep["failed_obligations"] = fo
		for i := range models {
			models[i] = trunc(models[i], 20000)
		}
		rep["solver_models"] = models
		if len(newFail) > 0 {
			rep["failing_inputs"] = newFail
			rep["how_to_replay"] = "sh /verif/check.sh " + prop + " quick (the harness in /verif/replay runs the real code on the inputs above)"
		} else if hr != nil {
			rep["replay_attempt"] = map[string]interface{}{"cases": hr.Cases, "error": hr.Err, "output": hr.Output}
		}
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(replay, b, 0644)
	}

	// evidence
	var tb []string
	tb = append(tb, "gover: this repository's verification-condition generator over golang.org/x/tools/go/ssa (naive form), and the Go compiler front end it uses",
		"SMT solvers z3 5.3.2, cvc5 1.1.2, z3 4.8.12 (an obligation is discharged when one of them answers unsat)")
	var as []string
	for a := range assumed {
		as = append(as, a)
	}
	as = append(as, "pointer dereferences of nil are not an obligation unless the contract says 'check nil'; termination is not proved unless a 'decreases' clause is given",
		"callers outside the listed functions are assumed to establish the stated preconditions")
	sort.Strings(as)
	var il []string
	for a := range inl {
		il = append(il, a)
	}
	sort.Strings(il)
	sort.Strings(fnames)
	sort.Strings(lnames)
	backends := map[string]interface{}{}
	tot := 0.0
	for k, v := range stats.bySolv {
		backends[k] = map[string]interface{}{"queries": v, "seconds": round2(stats.secs[k])}
		tot += stats.secs[k]
	}
	cov := map[string]interface{}{
		"obligations": nObl, "discharged": nOK,
		"checker_cmd":              fmt.Sprintf("sh /verif/check.sh %s %s", prop, tier),
		"trusted_base":             tb,
		"functions_under_contract": fnames, "lemmas": lnames, "functions_inlined": il,
		"per_function": perUnit, "vacuity_checks": nVac, "back_ends": backends, "solver_seconds": round2(tot), "slowest_obligation_seconds": round2(slow),
		"known_findings": knownHit,
	}
	if hr != nil {
		h := map[string]interface{}{"mode": mode, "cases": hr.Cases, "distinct_nontrivial": hr.Distinct, "rule": hr.Rule, "samples": hr.Samples, "seconds": round2(hr.Secs), "error": hr.Err}
		if bounded {
			h["bound"] = boundText
			cov["bounded_stand_in"] = h
		} else {
			cov["harness"] = h
		}
		if hr.Cases > 0 {
			cov["evaluations"] = hr.Cases
		}
	}
	nv := 0
	if violation {
		nv = len(fails) + len(newFail)
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": as, "wall_s": round2(time.Since(t0).Seconds()), "violations": nv}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for _, k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	fmt.Printf("property %s (%s): %d of %d obligations discharged over %d functions and %d lemmas, %.0f s\n", prop, tier, nOK, nObl, len(fnames), len(lnames), time.Since(t0).Seconds())
	if hr != nil {
		fmt.Printf("harness (%s): %d cases, %d failing %s\n", mode, hr.Cases, len(hr.Failures), trunc(hr.Err, 300))
	}
	if !violation {
		return
	}
	for i, f := range fails {
		if i > 20 {
			fmt.Println("  ...")
			break
		}
		fmt.Printf("  failed obligation %s %s at %s: %s [%s] %s\n", f.unit, f.name, f.pos, f.expr, f.status, trunc(f.detail, 200))
	}
	for i, f := range newFail {
		if i > 5 {
			break
		}
		fmt.Printf("  failing input: %s: %s\n", trunc(f.Case, 400), trunc(f.Why, 400))
	}
	if len(newFail) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replay)
	}
	os.Exit(1)
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }
