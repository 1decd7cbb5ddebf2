package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fact struct {
	t   *Term
	def *Term // non-nil: definition of this constant
}

// Obl is one proof obligation: facts[:nfacts] => cond
type Obl struct {
	Name   string
	Kind   string
	Pos    string
	Expr   string
	goal   *Term // to be proved
	nfacts int
	auto   *autoInv // candidate invariant obligations (droppable)
	cover  bool     // vacuity: must be satisfiable
	Status string
	Solver string
	Secs   float64
	Detail string
	facts  []fact
	Fn     string
	script string
	cases  [][]*Term
}

type writeRec struct {
	keys   map[string]map[*Term]bool // key -> objs (nil obj set entry = whole)
	whole  map[string]bool
	locals map[localKey]bool
	alloc  bool
	all    bool
}

func newWriteRec() *writeRec {
	return &writeRec{keys: map[string]map[*Term]bool{}, whole: map[string]bool{}, locals: map[localKey]bool{}}
}

type Frame struct {
	fn     *ssa.Function
	vals   map[ssa.Value]Val
	params []Val
	binds  []Val
	parent *Frame
	depth  int
	con    *Contract
	loops  map[*ssa.BasicBlock]*loopInfo
	rets   []retState
	defers []deferRec
	tag    string
	renamed map[*ssa.Alloc]string
	entry  *State
	cur    *ssa.BasicBlock
}

type deferRec struct {
	in *ssa.Defer
	pc *Term
	fn ssa.CallCommon
	st []Val
	cl Val
}

type retState struct {
	s    *State
	vals []Val
	blk  *ssa.BasicBlock
}

func kName(ord int) string { return fmt.Sprintf("$k%d", ord) }

type loopInfo struct {
	header  *ssa.BasicBlock
	blocks  map[*ssa.BasicBlock]bool
	latches []*ssa.BasicBlock
	ord     int
	pos     token.Pos
	end     token.Pos
	parent  *loopInfo
}

// Exec generates the obligations of one function.
type Exec struct {
	caseGroups [][]*Term
	p         *Program
	cs        *Contracts
	fn        *ssa.Function
	con       *Contract
	facts     []fact
	obls      []*Obl
	heap0     map[string]*Term
	keySorts  map[string]string
	epochN    int
	noWF      int
	usedLemmas map[string]bool
	usedRec   map[string]bool
	named     map[*Term]*Term
	defOf     map[*Term]*Term
	wfSeen    map[*Term]*Term
	embs      map[string]bool
	embList   []string
	freshObjs map[*Term]bool
	allocated bool
	rec       []*writeRec // active write recorders
	dry       int
	entry     *State
	oblCount  map[string]int
	dropAuto  map[string]bool
	modset    []modTarget
	modAny    bool
	assumed   map[string]bool // assumptions relied on (trusted contracts, etc.)
	inlined   map[string]bool
	callees   map[string]bool
	root      *Frame
	litSeen   map[string]bool
	fnIds     map[*ssa.Function]int
	fnById    map[int64]closureRec
	axioms    []*Term
	callStack []string
	qn        int
	loopCtr   int
	specDepth int
	noFrame   bool
	curRet    *ssa.BasicBlock
}

type closureRec struct {
	fn   *ssa.Function
	bind []Val
}

type modTarget struct {
	key string // heap key, or prefix ending in '*'
	obj *Term  // nil: any
	off *Term  // nil: any
	lo, hi *Term // offset range, when off is nil
	leafSort string
}

func (x *Exec) assume(pc, f *Term) {
	g := implies(pc, f)
	if g == tTrue {
		return
	}
	x.facts = append(x.facts, fact{t: g})
}

func (x *Exec) oblige(pc *Term, kind, pos, expr string, cond *Term) {
	if x.dry > 0 {
		return
	}
	if cond.op == "and" && len(cond.args) > 1 && len(cond.bound) == 0 && (kind == "ensures" || kind == "inv-entry" || kind == "inv-keep" || kind == "requires" || kind == "lemma") {
		for i, c := range cond.args {
			x.oblige(pc, kind, pos, fmt.Sprintf("%s [conjunct %d]", expr, i), c)
		}
		return
	}
	g := implies(pc, cond)
	if g == tTrue && kind != "ensures" && kind != "inv-entry" && kind != "inv-keep" && kind != "requires" {
		return
	}
	base := kind
	x.oblCount[base]++
	o := &Obl{Name: fmt.Sprintf("%s#%d", base, x.oblCount[base]), Kind: kind, Pos: pos, Expr: expr, goal: g, nfacts: len(x.facts), Fn: x.fnName(), cases: append([][]*Term{}, x.caseGroups...)}
	x.obls = append(x.obls, o)
	x.assume(pc, cond)
}

func (x *Exec) fnName() string {
	if x.fn == nil {
		return "lemma"
	}
	return funcName(x.fn)
}

func sortLocalKeys(m map[localKey]bool) []localKey {
	var r []localKey
	for k := range m {
		r = append(r, k)
	}
	nm := func(k localKey) string {
		s := k.aux
		if k.fr != nil {
			s = k.fr.tag + "/" + k.fr.fn.Name() + "/" + s
		}
		if k.a != nil {
			s += "/" + k.a.Name()
		}
		return s
	}
	sort.Slice(r, func(i, j int) bool { return nm(r[i]) < nm(r[j]) })
	return r
}

func localKeysOf(s *State) []localKey {
	m := map[localKey]bool{}
	for k := range s.locals {
		m[k] = true
	}
	return sortLocalKeys(m)
}

func (x *Exec) recordLocal(k localKey) {
	for _, r := range x.rec {
		r.locals[k] = true
	}
}

// recordWrite notes a heap write (for loop havoc) and emits the frame obligation.
func (x *Exec) recordWrite(s *State, key string, obj, off *Term) {
	for _, o := range splitIte(obj) {
		for _, r := range x.rec {
			if r.keys[key] == nil {
				r.keys[key] = map[*Term]bool{}
			}
			r.keys[key][o] = true
		}
	}
	x.checkFrame(s, key, obj, off)
}

func splitIte(t *Term) []*Term {
	if t.op == "ite" {
		return append(splitIte(t.args[1]), splitIte(t.args[2])...)
	}
	return []*Term{t}
}

func (x *Exec) resolveDef(t *Term) *Term {
	for i := 0; i < 50; i++ {
		d, ok := x.defOf[t]
		if !ok || x.freshObjs[t] {
			return t
		}
		t = d
	}
	return t
}

func (x *Exec) rootObj(t *Term) *Term {
	for strings.HasPrefix(t.op, "emb$") || strings.HasPrefix(t.op, "embarr$") {
		t = t.args[0]
	}
	if t.op == "ite" {
		return ite(t.args[0], x.rootObj(t.args[1]), x.rootObj(t.args[2]))
	}
	return t
}

// frameOK: condition under which writing key at (obj,off) is allowed by the
// function's modifies clause (objects allocated since entry are always free).
func (x *Exec) frameOK(key string, obj, off *Term) *Term {
	r := x.rootObj(obj)
	if x.isFresh(r) {
		return tTrue
	}
	conds := []*Term{ge(r, x.entry.next)}
	for _, m := range x.modset {
		if !keyMatch(m.key, key) {
			continue
		}
		if m.obj == nil {
			return tTrue
		}
		c := eq(m.obj, obj)
		if m.off != nil && off != nil {
			c = and(c, eq(m.off, off))
		} else if m.off != nil {
			c = tFalse
		} else if m.lo != nil && off != nil {
			c = and(c, le(m.lo, off), lt(off, m.hi))
		} else if m.lo != nil {
			c = tFalse
		}
		if c == tTrue {
			return tTrue
		}
		conds = append(conds, c)
	}
	return or(conds...)
}

func (x *Exec) isFresh(r *Term) bool {
	r = x.resolveDef(r)
	if x.freshObjs[r] {
		return true
	}
	if r.op == "ite" {
		return x.isFresh(r.args[1]) && x.isFresh(r.args[2])
	}
	return false
}

func keyMatch(pat, key string) bool {
	if strings.HasSuffix(pat, "*") {
		return strings.HasPrefix(key, pat[:len(pat)-1])
	}
	return pat == key
}

func (x *Exec) checkFrame(s *State, key string, obj, off *Term) {
	if x.modAny || x.dry > 0 || x.noFrame {
		return
	}
	c := x.frameOK(key, obj, off)
	if c == tTrue {
		return
	}
	x.oblige(s.pc, "frame", "", "write to "+key+" within modifies", c)
}

func (x *Exec) merge(states []*State) *State {
	if len(states) == 1 {
		return states[0]
	}
	var pcs []*Term
	for _, s := range states {
		pcs = append(pcs, s.pc)
	}
	r := &State{locals: map[localKey]Val{}, heap: map[string]*Term{}}
	pick := func(ts []*Term) *Term {
		same := true
		for _, t := range ts[1:] {
			if t != ts[0] {
				same = false
			}
		}
		if same {
			return ts[0]
		}
		t := ts[len(ts)-1]
		for i := len(ts) - 2; i >= 0; i-- {
			t = ite(pcs[i], ts[i], t)
		}
		return x.name("m", t)
	}
	r.pc = x.nameBig("pc", or(pcs...))
	keys := map[string]bool{}
	for _, s := range states {
		for k := range s.heap {
			keys[k] = true
		}
	}
	r.epoch = states[0].epoch
	for _, s := range states[1:] {
		if s.epoch != r.epoch {
			x.epochN++
			r.epoch = x.epochN
			for k := range x.keySorts {
				keys[k] = true
			}
			break
		}
	}
	ks := make([]string, 0, len(keys))
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		var ts []*Term
		for _, s := range states {
			ts = append(ts, x.heapGet(s, k, x.keySorts[k]))
		}
		r.heap[k] = pick(ts)
	}
	var ns []*Term
	for _, s := range states {
		ns = append(ns, s.next)
	}
	r.next = pick(ns)
	if r.next != ns[0] {
		for i := range states {
			x.assume(tTrue, implies(pcs[i], le(x.entry.next, r.next)))
		}
	}
	// locals defined in all states
	for _, k := range localKeysOf(states[0]) {
		v := states[0].locals[k]
		ok := true
		vs := []Val{v}
		for _, s := range states[1:] {
			w, has := s.locals[k]
			if !has || len(w.L) != len(v.L) {
				ok = false
				break
			}
			vs = append(vs, w)
		}
		if !ok {
			continue
		}
		nv := Val{T: v.T, L: make([]*Term, len(v.L)), Fn: v.Fn, Bind: v.Bind, Addr: v.Addr}
		for _, w := range vs[1:] {
			if w.Fn != v.Fn {
				nv.Fn, nv.Bind = nil, nil
			}
		}
		for i := range v.L {
			var ts []*Term
			for _, w := range vs {
				ts = append(ts, w.L[i])
			}
			nv.L[i] = pick(ts)
		}
		r.locals[k] = nv
	}
	return r
}

// ---------- loops ----------

func findLoops(fn *ssa.Function) (map[*ssa.BasicBlock]*loopInfo, []*ssa.BasicBlock, error) {
	// RPO
	var rpo []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		rpo = append(rpo, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(rpo)-1; i < j; i, j = i+1, j-1 {
		rpo[i], rpo[j] = rpo[j], rpo[i]
	}
	num := map[*ssa.BasicBlock]int{}
	for i, b := range rpo {
		num[b] = i
	}
	loops := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range rpo {
		for _, s := range b.Succs {
			if num[s] <= num[b] {
				if !s.Dominates(b) {
					return nil, nil, verr("irreducible control flow in %s", fn.Name())
				}
				l := loops[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				l.latches = append(l.latches, b)
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					w := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[w] {
						continue
					}
					l.blocks[w] = true
					for _, pb := range w.Preds {
						if seen[pb] {
							work = append(work, pb)
						}
					}
				}
			}
		}
	}
	var ls []*loopInfo
	for _, l := range loops {
		for b := range l.blocks {
			for _, in := range b.Instrs {
				if p := in.Pos(); p.IsValid() {
					if !l.pos.IsValid() || p < l.pos {
						l.pos = p
					}
					if p > l.end {
						l.end = p
					}
				}
			}
		}
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		a, b := ls[i], ls[j]
		if len(a.blocks) != len(b.blocks) && a.blocks[b.header] {
			return true
		}
		if len(a.blocks) != len(b.blocks) && b.blocks[a.header] {
			return false
		}
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		return a.header.Index < b.header.Index
	})
	for i, l := range ls {
		l.ord = i
		for _, m := range ls {
			if m != l && m.blocks[l.header] && (l.parent == nil || len(m.blocks) < len(l.parent.blocks)) {
				l.parent = m
			}
		}
	}
	return loops, rpo, nil
}

type edgeState struct {
	from, to *ssa.BasicBlock
	s        *State
	vals     map[ssa.Value]Val // in paths mode: the SSA values along the path
}

// runPaths is runRegion without joining states that differ (loop-free bodies).
func (x *Exec) runPaths(fr *Frame, rpo []*ssa.BasicBlock, start *ssa.BasicBlock, st *State) {
	incoming := map[*ssa.BasicBlock][]edgeState{}
	for _, b := range rpo {
		if fr.loops[b] != nil {
			panic(verr("%s: paths needs a function without loops", fr.fn.Name()))
		}
		in := incoming[b]
		if b == start {
			in = []edgeState{{to: b, s: st, vals: fr.vals}}
		}
		var groups [][]edgeState
		for _, e := range in {
			k := 0
			for k < len(groups) && (hasPhi(b) || !x.sameState(groups[k][0].s, e.s)) {
				k++
			}
			if k == len(groups) {
				groups = append(groups, nil)
			}
			groups[k] = append(groups[k], e)
		}
		if len(groups) > 64 {
			panic(verr("%s: too many paths", fr.fn.Name()))
		}
		for _, g := range groups {
			vals := map[ssa.Value]Val{}
			for k, v := range g[0].vals {
				ok := true
				for _, e := range g[1:] {
					w, has := e.vals[k]
					if !has || len(w.L) != len(v.L) || w.Fn != v.Fn {
						ok = false
						break
					}
					for i := range v.L {
						ok = ok && v.L[i] == w.L[i]
					}
				}
				if ok {
					vals[k] = v
				}
			}
			fr.vals = vals
			s := g[0].s
			if b != start {
				s = x.mergeEdges(fr, b, g)
			}
			for _, e := range x.runBlock(fr, b, s) {
				if e.s.pc == tFalse {
					continue
				}
				e.vals = map[ssa.Value]Val{}
				for k, v := range fr.vals {
					e.vals[k] = v
				}
				incoming[e.to] = append(incoming[e.to], e)
			}
		}
	}
}

// hasPhi: the block chooses values by edge, so its edges are kept apart.
func hasPhi(b *ssa.BasicBlock) bool {
	_, ok := b.Instrs[0].(*ssa.Phi)
	return ok
}

func (x *Exec) sameState(a, b *State) bool {
	if a.epoch != b.epoch || a.next != b.next {
		return false
	}
	keys := map[string]bool{}
	for k := range a.heap {
		keys[k] = true
	}
	for k := range b.heap {
		keys[k] = true
	}
	for k := range keys {
		if x.heapGet(a, k, x.keySorts[k]) != x.heapGet(b, k, x.keySorts[k]) {
			return false
		}
	}
	for k, v := range a.locals {
		w, has := b.locals[k]
		if !has {
			continue
		}
		if len(w.L) != len(v.L) || w.Fn != v.Fn {
			return false
		}
		for i := range v.L {
			if v.L[i] != w.L[i] {
				return false
			}
		}
	}
	return true
}

// runRegion executes the blocks in set starting at start with state st.
// It returns the edges that leave the set or go back to start.
func (x *Exec) runRegion(fr *Frame, rpo []*ssa.BasicBlock, set map[*ssa.BasicBlock]bool, start *ssa.BasicBlock, st *State, startIsHeader bool) []edgeState {
	incoming := map[*ssa.BasicBlock][]edgeState{}
	var out []edgeState
	emit := func(e edgeState) {
		if e.s.pc == tFalse {
			return
		}
		if !set[e.to] || e.to == start {
			out = append(out, e)
		} else {
			incoming[e.to] = append(incoming[e.to], e)
		}
	}
	done := map[*ssa.BasicBlock]bool{}
	for _, b := range rpo {
		if !set[b] || done[b] {
			continue
		}
		var s *State
		if b == start {
			s = st
		} else {
			in := incoming[b]
			if len(in) == 0 {
				continue
			}
			s = x.mergeEdges(fr, b, in)
		}
		if l := fr.loops[b]; l != nil && !(b == start && startIsHeader) {
			for _, e := range x.runLoop(fr, rpo, l, s) {
				emit(e)
			}
			for bb := range l.blocks {
				done[bb] = true
			}
			continue
		}
		for _, e := range x.runBlock(fr, b, s) {
			emit(e)
		}
	}
	return out
}

func (x *Exec) mergeEdges(fr *Frame, b *ssa.BasicBlock, in []edgeState) *State {
	// evaluate phis per edge
	phis := map[*ssa.Phi][]Val{}
	for _, e := range in {
		for _, ins := range b.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				continue
			}
			for i, pb := range b.Preds {
				if pb == e.from {
					phis[ph] = append(phis[ph], x.val(fr, e.s, ph.Edges[i]))
					break
				}
			}
		}
	}
	var sts []*State
	for _, e := range in {
		sts = append(sts, e.s)
	}
	var ms *State
	if len(sts) == 1 {
		ms = sts[0].clone()
	} else {
		ms = x.merge(sts)
	}
	for ph, vs := range phis {
		v := Val{T: ph.Type(), Fn: vs[0].Fn, Bind: vs[0].Bind}
		for i := range vs[0].L {
			t := vs[len(vs)-1].L[i]
			for k := len(vs) - 2; k >= 0; k-- {
				t = ite(in[k].s.pc, vs[k].L[i], t)
			}
			v.L = append(v.L, x.nameBig("phi", t))
		}
		fr.vals[ph] = v
	}
	return ms
}

type savedGen struct {
	nf, no    int
	named     map[*Term]*Term
	rets      int
	defers    int
	wf        map[*Term]*Term
	allocated bool
	ocount    map[string]int
}

func (x *Exec) beginDry(fr *Frame) savedGen {
	sv := savedGen{nf: len(x.facts), no: len(x.obls), rets: len(fr.rets), defers: len(fr.defers), allocated: x.allocated}
	sv.named = map[*Term]*Term{}
	for k, v := range x.named {
		sv.named[k] = v
	}
	sv.wf = map[*Term]*Term{}
	for k, v := range x.wfSeen {
		sv.wf[k] = v
	}
	x.dry++
	return sv
}
func (x *Exec) endDry(fr *Frame, sv savedGen) {
	x.dry--
	x.facts = x.facts[:sv.nf]
	x.obls = x.obls[:sv.no]
	fr.rets = fr.rets[:sv.rets]
	fr.defers = fr.defers[:sv.defers]
	x.named = sv.named
	x.wfSeen = sv.wf
	x.allocated = sv.allocated
}

type autoInv struct {
	id string
}

func (x *Exec) runLoop(fr *Frame, rpo []*ssa.BasicBlock, l *loopInfo, s0 *State) []edgeState {
	spec := fr.loopSpec(l)
	kkey := localKey{fr: fr, a: nil, aux: fmt.Sprintf("$k%d", l.ord)}
	// clean up: locals of this frame allocated inside the loop are dead here
	mark := freshN
	dryrun := func(havocKeys map[string]bool, all bool, locs map[localKey]bool) *writeRec {
		sv := x.beginDry(fr)
		r := newWriteRec()
		svRec := x.rec
		x.rec = []*writeRec{r}
		s1 := s0.clone()
		s1.locals[kkey] = Val{T: types.Typ[types.Int], L: []*Term{freshConst("k", sInt)}}
		for k := range s1.locals {
			if k.fr == fr && k.a != nil && locs == nil || locs[k] {
				v := s1.locals[k]
				if v.Addr == nil {
					s1.locals[k] = x.freshVal(s1, "d", v.T)
				}
			}
		}
		for k, h := range s1.heap {
			if all || havocKeys[k] {
				s1.heap[k] = freshConst("dh", h.sort)
			}
		}
		s1.next = freshConst("dnext", sInt)
		x.runRegion(fr, rpo, l.blocks, l.header, s1, true)
		x.rec = svRec
		x.endDry(fr, sv)
		return r
	}
	var r1 *writeRec
	if x.dry > 0 {
		// inside a dry run: coarse havoc is enough
		r1 = dryrun(nil, true, nil)
	} else {
		r1 = dryrun(nil, true, nil)
		hk := map[string]bool{}
		for k := range r1.keys {
			hk[k] = true
		}
		for k := range r1.whole {
			hk[k] = true
		}
		for k := range hk {
			x.heapGet(s0, k, x.keySorts[k])
		}
		r1 = dryrun(hk, r1.all, r1.locals)
	}
	// classify
	s1 := s0.clone()
	for _, k := range sortLocalKeys(r1.locals) {
		if v, ok := s0.locals[k]; ok {
			nm := "v"
			if k.a != nil {
				if al, ok := k.a.(*ssa.Alloc); ok {
					nm = "v$" + al.Comment
				}
			}
			s1.locals[k] = x.freshVal(s1, nm, v.T)
		}
	}
	if r1.alloc || true {
		n := freshConst("lnext", sInt)
		x.assume(tTrue, le(s0.next, n))
		s1.next = n
	}
	keys := make([]string, 0)
	for k := range r1.keys {
		keys = append(keys, k)
	}
	for k := range r1.whole {
		if r1.keys[k] == nil {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	if r1.all {
		x.epochN++
		s1.epoch = x.epochN
		s1.heap = map[string]*Term{}
		keys = nil
	}
	for _, k := range keys {
		h0 := x.heapGet(s0, k, x.keySorts[k])
		if strings.HasPrefix(k, "G|") {
			s1.heap[k] = freshConst("lh$"+k, h0.sort)
			continue
		}
		inv, loopFresh, unknown := x.classify(r1.keys[k], mark)
		unknown = unknown || r1.whole[k]
		sort.Slice(inv, func(i, j int) bool { return inv[i].id < inv[j].id })
		if !unknown && !loopFresh {
			nh := h0
			for _, o := range inv {
				nh = sto(nh, o, freshConst("la$"+k, arrElem(h0.sort)))
			}
			s1.heap[k] = x.name("lh$"+k, nh)
			continue
		}
		nh := freshConst("lh$"+k, h0.sort)
		q := mk("o!q", sInt)
		var cond *Term
		base := h0
		if !unknown {
			// everything allocated before the loop and not in inv is unchanged
			var cs []*Term
			cs = append(cs, lt(x.rootTerm(q), s0.next))
			for _, o := range inv {
				cs = append(cs, not(eq(q, o)))
			}
			cond = and(cs...)
		} else if !x.modAny && !x.noFrame {
			cs := []*Term{lt(x.rootTerm(q), x.entry.next)}
			free := false
			for _, m := range x.modset {
				if keyMatch(m.key, k) {
					if m.obj == nil {
						free = true
						break
					}
					cs = append(cs, not(eq(q, m.obj)))
				}
			}
			if !free {
				cond = and(cs...)
			}
		}
		if cond != nil && !strings.HasPrefix(k, "M|") {
			x.assume(tTrue, mkQuant("forall", []string{"o!q Int"}, implies(cond, mk("=", sBool, mk("select", arrElem(h0.sort), nh, q), mk("select", arrElem(h0.sort), base, q))), [][]*Term{{mk("select", arrElem(h0.sort), nh, q)}}))
		} else if cond != nil {
			x.assume(tTrue, mkQuant("forall", []string{"o!q Int"}, implies(cond, mk("=", sBool, mk("select", arrElem(h0.sort), nh, q), mk("select", arrElem(h0.sort), base, q))), [][]*Term{{mk("select", arrElem(h0.sort), nh, q)}}))
		}
		s1.heap[k] = nh
	}
	k1 := freshConst(fmt.Sprintf("k%d", l.ord), sInt)
	sIn := s0.clone()
	sIn.locals[kkey] = Val{T: types.Typ[types.Int], L: []*Term{num(0)}}
	s1.locals[kkey] = Val{T: types.Typ[types.Int], L: []*Term{k1}}
	x.assume(tTrue, le(num(0), k1))

	posn := x.p.pos(l.pos)
	autos := x.autoInvs(fr, l, s0, s1, k1, r1)
	env := func(s *State) *specEnv {
		e := x.envFor(fr, s)
		e.loop = l
		e.loopEntry = sIn
		return e
	}
	if x.dry == 0 {
		for _, a := range autos {
			c := a.at(sIn)
			if c == nil {
				continue
			}
			x.obligeAuto(s0.pc, a.id, posn, c)
		}
		if spec != nil {
			for i, inv := range spec.invs {
				c := x.evalBool(env(sIn), inv)
				x.oblige(s0.pc, "inv-entry", posn, fmt.Sprintf("loop %d invariant %d: %s", l.ord, i, inv.src), c)
			}
		}
	}
	for _, a := range autos {
		if c := a.at(s1); c != nil {
			x.assume(s1.pc, c)
		}
	}
	var dec0 *Term
	if spec != nil {
		for _, inv := range spec.invs {
			x.assume(s1.pc, x.evalBool(env(s1), inv))
		}
		for _, h := range spec.hints {
			x.evalHint(env(s1), h, s1.pc)
		}
		if len(spec.cases) > 0 && x.dry == 0 {
			var g []*Term
			for _, c := range spec.cases {
				g = append(g, x.evalBool(env(s1), c))
			}
			x.caseGroups = append(x.caseGroups, g)
		}
		if spec.dec != nil {
			dec0 = x.evalInt(env(s1), spec.dec)
		}
	}
	fin := newWriteRec()
	x.rec = append(x.rec, fin)
	mark2 := freshN
	_ = mark2
	sHead := s1.clone()
	outs := x.runRegion(fr, rpo, l.blocks, l.header, s1, true)
	x.rec = x.rec[:len(x.rec)-1]
	for k := range fin.locals {
		if _, ok := s0.locals[k]; ok && !r1.locals[k] {
			panic(verr("internal: loop local set not stable"))
		}
	}
	if fin.all && !r1.all {
		panic(verr("internal: loop effect not stable"))
	}
	for k, os := range fin.keys {
		if r1.all {
			break
		}
		if strings.HasPrefix(k, "G|") || (r1.keys[k] == nil && !r1.whole[k]) {
			if r1.keys[k] == nil && !r1.whole[k] {
				panic(verr("internal: loop write set not stable (%s)", k))
			}
			continue
		}
		inv1, lf1, un1 := x.classify(r1.keys[k], mark)
		inv2, lf2, un2 := x.classify(os, mark)
		if un1 || r1.whole[k] {
			continue
		}
		in := map[*Term]bool{}
		for _, o := range inv1 {
			in[o] = true
		}
		for _, o := range inv2 {
			if !in[o] {
				panic(verr("internal: loop write objects not stable (%s)", k))
			}
		}
		if un2 || (lf2 && !lf1) {
			panic(verr("internal: loop write class not stable (%s)", k))
		}
	}
	var exits []edgeState
	var backs []edgeState
	for _, e := range outs {
		if e.to == l.header {
			backs = append(backs, e)
		} else {
			exits = append(exits, e)
		}
	}
	if x.dry == 0 && len(backs) > 0 {
		for _, e := range backs {
			ms := e.s.clone()
			kv := ms.locals[kkey]
			ms.locals[kkey] = Val{T: kv.T, L: []*Term{add(kv.L[0], num(1))}}
			for _, a := range autos {
				if c := a.at(ms); c != nil {
					x.obligeAuto(ms.pc, a.id, posn, c)
				}
			}
			if spec != nil {
				for _, h := range spec.endHints {
					he := env(ms)
					he.loopHead = sHead
					x.evalHint(he, h, ms.pc)
				}
				for i, inv := range spec.invs {
					c := x.evalBool(env(ms), inv)
					x.oblige(ms.pc, "inv-keep", posn, fmt.Sprintf("loop %d invariant %d: %s", l.ord, i, inv.src), c)
				}
				if spec.dec != nil {
					d1 := x.evalInt(env(ms), spec.dec)
					x.oblige(ms.pc, "decreases", posn, spec.dec.src, and(le(num(0), dec0), lt(d1, dec0)))
				}
			}
		}
	}
	return exits
}

// rootTerm maps an object id to the allocated object that contains it
// (embedded structs and arrays have negative ids).
func (x *Exec) rootTerm(q *Term) *Term {
	return ite(le(num(0), q), q, app("embroot", sInt, q))
}

// classify splits written objects into loop-invariant terms (rewritten over
// constants that existed before freshN==mark), objects allocated in the loop,
// and others.
func (x *Exec) classify(os map[*Term]bool, mark int) (inv []*Term, loopFresh, unknown bool) {
	seen := map[*Term]bool{}
	for o := range os {
		if t, ok := x.expandOld(o, mark); ok {
			if !seen[t] {
				seen[t] = true
				inv = append(inv, t)
			}
			continue
		}
		if x.freshObjs[x.resolveDef(x.rootObj(x.resolveDef(o)))] {
			loopFresh = true
			continue
		}
		unknown = true
	}
	sort.Slice(inv, func(i, j int) bool { return inv[i].id < inv[j].id })
	return
}

func constStamp(op string) int {
	i := strings.LastIndexByte(op, '!')
	if i < 0 {
		return 0
	}
	n := 0
	for _, c := range op[i+1:] {
		if c < '0' || c > '9' {
			return 0
		}
		n = n*10 + int(c-'0')
	}
	return n
}

func (x *Exec) expandOld(t *Term, mark int) (*Term, bool) {
	if len(t.args) == 0 {
		if t.num != nil || constStamp(t.op) <= mark {
			return t, true
		}
		if d, ok := x.defOf[t]; ok && !x.freshObjs[t] {
			return x.expandOld(d, mark)
		}
		return nil, false
	}
	if len(t.bound) > 0 {
		return nil, false
	}
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		r, ok := x.expandOld(a, mark)
		if !ok {
			// select over a store chain that misses: try simplification
			return nil, false
		}
		args[i] = r
	}
	return rebuild(t, args), true
}

func (x *Exec) obligeAuto(pc *Term, id, pos string, c *Term) {
	g := implies(pc, c)
	if g == tTrue {
		return
	}
	o := &Obl{Name: "auto:" + id, Kind: "auto", Pos: pos, goal: g, nfacts: len(x.facts), auto: &autoInv{id}, Fn: x.fnName()}
	x.obls = append(x.obls, o)
}

type autoCand struct {
	id string
	at func(s *State) *Term
}

// autoInvs proposes invariants about integer locals that step by a constant.
func (x *Exec) autoInvs(fr *Frame, l *loopInfo, s0, s1 *State, k1 *Term, r *writeRec) []autoCand {
	var res []autoCand
	kkey := localKey{fr: fr, a: nil, aux: fmt.Sprintf("$k%d", l.ord)}
	addc := func(id string, f func(s *State) *Term) {
		id = fmt.Sprintf("%s/%s/loop%d/%s", fr.tag, fr.fn.Name(), l.ord, id)
		if x.dropAuto[id] {
			return
		}
		res = append(res, autoCand{id, f})
	}
	type stepInfo struct {
		step int64
		key  localKey
		al   *ssa.Alloc
	}
	var keys []localKey
	for k := range r.locals {
		if k.fr == fr && k.a != nil {
			if _, ok := s0.locals[k]; ok {
				keys = append(keys, k)
			}
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].a.Name() < keys[j].a.Name() })
	for _, k := range keys {
		al, ok := k.a.(*ssa.Alloc)
		if !ok {
			continue
		}
		et := al.Type().Underlying().(*types.Pointer).Elem()
		if _, _, _, _, isInt := intRange(et); !isInt {
			continue
		}
		var stores []*ssa.Store
		bad := false
		for _, rf := range *al.Referrers() {
			if st, ok := rf.(*ssa.Store); ok && l.blocks[st.Block()] {
				stores = append(stores, st)
			}
			if rf.Block() != nil && l.blocks[rf.Block()] {
				if _, ok := rf.(*ssa.Store); ok {
					continue
				}
			}
		}
		if len(stores) == 0 {
			continue
		}
		v0 := s0.locals[k].L[0]
		steps := map[int64]bool{}
		same := true
		total := int64(0)
		for _, st := range stores {
			c, ok := constStep(st, al)
			if !ok {
				bad = true
				break
			}
			steps[c] = true
			// executed exactly once per iteration?
			for _, la := range l.latches {
				if !st.Block().Dominates(la) {
					same = false
				}
			}
			for _, il := range fr.loops {
				if il != l && l.blocks[il.header] && il.blocks[st.Block()] {
					same = false
				}
			}
			total += c
		}
		kk := k
		cur := func(s *State) *Term { return s.locals[kk].L[0] }
		if bad {
			continue
		}
		nm := al.Comment
		if same {
			c := total
			addc(nm+"@"+al.Name()+"=lin", func(s *State) *Term {
				return eq(cur(s), add(v0, mul(num(c), s.locals[kkey].L[0])))
			})
		}
		up, down := true, true
		for c := range steps {
			if c < 0 {
				up = false
			}
			if c > 0 {
				down = false
			}
		}
		if up {
			addc(nm+"@"+al.Name()+">=init", func(s *State) *Term { return le(v0, cur(s)) })
		}
		if down {
			addc(nm+"@"+al.Name()+"<=init", func(s *State) *Term { return le(cur(s), v0) })
		}
		if !same && up {
			// at most total per iteration if no inner loops
			inner := false
			for _, st := range stores {
				for _, il := range fr.loops {
					if il != l && l.blocks[il.header] && il.blocks[st.Block()] {
						inner = true
					}
				}
			}
			if !inner {
				c := total
				addc(nm+"@"+al.Name()+"<=lin", func(s *State) *Term {
					return le(cur(s), add(v0, mul(num(c), s.locals[kkey].L[0])))
				})
			}
		}
	}
	// bounds from the header condition: i < n, with n unchanged
	for bi, b := range []*ssa.BasicBlock{l.header} {
		if len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		_ = bi
		var lhs, rhs ssa.Value
		off := int64(0)
		switch cmp.Op {
		case token.LSS:
			lhs, rhs = cmp.X, cmp.Y
		case token.LEQ:
			lhs, rhs, off = cmp.X, cmp.Y, 1
		case token.GTR:
			lhs, rhs = cmp.Y, cmp.X
		case token.GEQ:
			lhs, rhs, off = cmp.Y, cmp.X, 1
		case token.NEQ:
			lhs, rhs = cmp.X, cmp.Y
		default:
			continue
		}
		// evaluate both in s0 (header executed symbolically on the entry state) and s1
		evalIn := func(v ssa.Value, s *State) *Term {
			t, ok := x.tryPure(fr, s, v, l)
			if !ok {
				return nil
			}
			return t
		}
		addc("bound", func(s *State) *Term {
			// i <= n  or i == i at entry
			a, b2 := evalIn(lhs, s), evalIn(rhs, s)
			if a == nil || b2 == nil || a.sort != sInt || b2.sort != sInt {
				return nil
			}
			a0, b0 := evalIn(lhs, s0), evalIn(rhs, s0)
			if a0 == nil || b0 == nil {
				return nil
			}
			return or(le(a, add(b2, num(off))), eq(a, a0))
		})
	}
	// range loops: -1 <= idx < len
	for _, k := range keys {
		al, ok := k.a.(*ssa.Alloc)
		if !ok || al.Comment != "rangeindex" {
			continue
		}
		kk := k
		// header: t = idx+1; store; cmp t < len
		for _, in := range l.header.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok && bo.Op == token.LSS {
				ln := bo.Y
				if st := storeIn(l.header, al); st {
					addc("range@"+al.Name(), func(s *State) *Term {
						n, ok := x.tryPure(fr, s, ln, l)
						if !ok {
							return nil
						}
						cur := s.locals[kk].L[0]
						return and(le(num(-1), cur), or(lt(cur, n), eq(cur, num(-1))))
					})
				}
			}
		}
	}
	return res
}

func storeIn(b *ssa.BasicBlock, al *ssa.Alloc) bool {
	for _, in := range b.Instrs {
		if st, ok := in.(*ssa.Store); ok && st.Addr == al {
			return true
		}
	}
	return false
}

func constStep(st *ssa.Store, al *ssa.Alloc) (int64, bool) {
	bo, ok := st.Val.(*ssa.BinOp)
	if !ok || (bo.Op != token.ADD && bo.Op != token.SUB) {
		return 0, false
	}
	ld, ok := bo.X.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL || ld.X != al {
		return 0, false
	}
	c, ok := bo.Y.(*ssa.Const)
	if !ok || c.Value == nil {
		return 0, false
	}
	n := c.Int64()
	if bo.Op == token.SUB {
		n = -n
	}
	return n, true
}

// tryPure evaluates a header expression made of loads of locals/fields, len and
// constants in the given state without touching frame values.
func (x *Exec) tryPure(fr *Frame, s *State, v ssa.Value, l *loopInfo) (res *Term, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(verifyErr); is {
				res, ok = nil, false
				return
			}
			panic(e)
		}
	}()
	var ev func(v ssa.Value) Val
	ev = func(v ssa.Value) Val {
		in, isI := v.(ssa.Instruction)
		if !isI || in.Block() == nil || !l.blocks[in.Block()] {
			if _, isA := v.(*ssa.Alloc); !isA {
				return x.val(fr, s, v)
			}
		}
		switch v := v.(type) {
		case *ssa.Alloc:
			return x.val(fr, s, v)
		case *ssa.UnOp:
			if v.Op == token.MUL {
				a := ev(v.X)
				return x.load(s, x.addrOf(a))
			}
		case *ssa.FieldAddr:
			return x.fieldAddr(ev(v.X), v.Field, v.Type())
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return x.lenOf(s, ev(v.Call.Args[0]))
			}
		case *ssa.BinOp:
			a, b := ev(v.X), ev(v.Y)
			switch v.Op {
			case token.ADD:
				return Val{T: v.Type(), L: []*Term{add(a.L[0], b.L[0])}}
			case token.SUB:
				return Val{T: v.Type(), L: []*Term{sub(a.L[0], b.L[0])}}
			}
		case *ssa.Convert:
			a := ev(v.X)
			lo1, hi1, _, _, o1 := intRange(v.X.Type())
			lo2, hi2, _, _, o2 := intRange(v.Type())
			if o1 && o2 && lo2.num.Cmp(lo1.num) <= 0 && hi1.num.Cmp(hi2.num) <= 0 {
				return Val{T: v.Type(), L: a.L}
			}
		}
		panic(verr("not pure"))
	}
	// don't record reads as anything; loads may add WF facts which is fine
	r := ev(v)
	if len(r.L) != 1 {
		return nil, false
	}
	return r.L[0], true
}
