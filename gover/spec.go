package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sortStrings(s []string) { sort.Strings(s) }

type specEnv struct {
	x         *Exec
	fr        *Frame
	blk       *ssa.BasicBlock
	state     *State
	old       *State
	loop      *loopInfo
	kloop     *loopInfo
	loopEntry *State
	loopHead  *State // in endhints: the state the iteration began in
	vars      map[string]Val
	results   []Val
	sig       *types.Signature
	con       *Contract
	inOld     bool
	noLocals  bool
}

func (e *specEnv) with(n string, v Val) *specEnv {
	c := *e
	c.vars = make(map[string]Val, len(e.vars)+1)
	for k, w := range e.vars {
		c.vars[k] = w
	}
	c.vars[n] = v
	return &c
}

func (x *Exec) envFor(fr *Frame, s *State) *specEnv {
	return &specEnv{x: x, fr: fr, state: s, old: fr.entry, con: fr.con, vars: map[string]Val{}, blk: fr.cur, sig: fr.fn.Signature}
}
func (x *Exec) envAt(fr *Frame, s *State, args []Val) *specEnv {
	e := x.envFor(fr, s)
	for _, l := range fr.loops {
		if l.blocks[fr.cur] && (e.kloop == nil || len(l.blocks) < len(e.kloop.blocks)) {
			e.kloop = l
		}
	}
	for i, a := range args {
		e.vars[fmt.Sprintf("$arg%d", i)] = a
	}
	return e
}

func intV(t *Term) Val {
	if t.sort == sBool {
		return Val{T: types.Typ[types.Bool], L: []*Term{t}}
	}
	if t.sort == sInt {
		return Val{T: types.Typ[types.UntypedInt], L: []*Term{t}}
	}
	return Val{L: []*Term{t}}
}

func (x *Exec) evalBool(env *specEnv, e *Expr) *Term {
	v := x.deref(env, x.eval(env, e))
	if len(v.L) != 1 || v.L[0].sort != sBool {
		panic(verr("spec expression is not boolean: %s", exprString(e)))
	}
	return v.L[0]
}

func (x *Exec) evalInt(env *specEnv, e *Expr) *Term {
	v := x.deref(env, x.eval(env, e))
	if len(v.L) < 1 {
		panic(verr("not a value: %s", exprString(e)))
	}
	return v.L[0]
}

func exprString(e *Expr) string {
	if e.src != "" && e.src != "()" {
		return e.src
	}
	switch e.op {
	case "id", "int":
		return e.s
	case "sel":
		return exprString(e.args[0]) + "." + e.s
	case "idx":
		return exprString(e.args[0]) + "[" + exprString(e.args[1]) + "]"
	case "bin":
		return exprString(e.args[0]) + " " + e.s + " " + exprString(e.args[1])
	}
	return e.op + " " + e.s
}

// deref turns a lazily addressed spec value into leaves
func (x *Exec) deref(env *specEnv, v Val) Val {
	if v.Addr != nil && v.Raw == "lv" {
		st := v.specState
		if st == nil {
			st = env.state
		}
		return x.load(st, v.Addr)
	}
	return v
}

func (x *Exec) evalHint(env *specEnv, e *Expr, pc *Term) {
	if x.dry > 0 {
		return
	}
	x.hintInto(env, e, pc, nil)
}

func (x *Exec) namesInScope(env *specEnv, e *Expr) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ve, is := r.(verifyErr)
			ok = !is || !strings.Contains(ve.msg, "unknown name")
		}
	}()
	if _, lm := x.lemmaUse(env, e); !lm {
		x.evalBool(env, e)
	}
	return true
}

func (x *Exec) hintInto(env *specEnv, e *Expr, pc *Term, _ []string) {
	if t, ok := x.lemmaUse(env, e); ok {
		x.assume(pc, t)
		return
	}
	c := x.evalBool(env, e)
	if e.op == "call" && e.s == "reveal" {
		x.assume(tTrue, c)
		return
	}
	x.oblige(pc, "hint", "", "hint: "+exprString(e), c)
}

// lemmaUse recognises lemma applications, possibly under quantifiers or ==>
func (x *Exec) lemmaUse(env *specEnv, e *Expr) (*Term, bool) {
	switch e.op {
	case "call":
		lm := x.cs.lemmas[e.s]
		if lm == nil {
			return nil, false
		}
		if len(e.args) != len(lm.params) {
			panic(verr("lemma %s: wrong number of arguments", e.s))
		}
		vars := map[string]Val{}
		for i, p := range lm.params {
			f := strings.Fields(p)
			vars[f[0]] = x.deref(env, x.eval(env, e.args[i]))
		}
		x.usedLemmas[e.s] = true
		le := &specEnv{x: x, state: env.state, old: env.state, vars: vars, noLocals: true}
		var rs, es []*Term
		for _, r := range lm.requires {
			rs = append(rs, x.evalBool(le, r))
		}
		for _, r := range lm.ensures {
			es = append(es, x.evalBool(le, r))
		}
		return implies(and(rs...), and(es...)), true
	case "forall":
		return x.quantLemma(env, e)
	case "bin":
		if e.s == "==>" {
			if t, ok := x.lemmaUse(env, e.args[1]); ok {
				return implies(x.evalBool(env, e.args[0]), t), true
			}
		}
		if e.s == "&&" {
			a, ok1 := x.lemmaUse(env, e.args[0])
			b, ok2 := x.lemmaUse(env, e.args[1])
			if ok1 && ok2 {
				return and(a, b), true
			}
		}
	case "let":
		v := x.deref(env, x.eval(env, e.args[0]))
		return x.lemmaUse(env.with(e.s, v), e.args[1])
	}
	return nil, false
}

func containsLemma(cs *Contracts, e *Expr) bool {
	if e.op == "call" && cs.lemmas[e.s] != nil {
		return true
	}
	for _, a := range e.args {
		if containsLemma(cs, a) {
			return true
		}
	}
	return false
}

func (x *Exec) quantLemma(env *specEnv, e *Expr) (*Term, bool) {
	if !containsLemma(x.cs, e.args[0]) {
		return nil, false
	}
	t, ok := x.quant(env, e, func(en *specEnv, b *Expr) *Term {
		t, ok := x.lemmaUse(en, b)
		if !ok {
			panic(verr("lemma application expected: %s", exprString(b)))
		}
		return t
	})
	return t, ok
}

// expandQuant writes out a quantifier over a few constant values.
func (x *Exec) expandQuant(env *specEnv, e *Expr, body func(*specEnv, *Expr) *Term) *Term {
	envs := []*specEnv{env}
	for _, v := range e.vars {
		if v.lo == nil || v.lo.op != "int" || v.hi.op != "int" {
			return nil
		}
		lo, hi := x.evalInt(env, v.lo), x.evalInt(env, v.hi)
		if lo.num == nil || hi.num == nil || hi.num.Int64()-lo.num.Int64() > 4 || len(envs) > 4 {
			return nil
		}
		var next []*specEnv
		for _, en := range envs {
			for k := lo.num.Int64(); k < hi.num.Int64(); k++ {
				next = append(next, en.with(v.name, Val{T: types.Typ[types.UntypedInt], L: []*Term{num(k)}}))
			}
		}
		envs = next
	}
	var ts []*Term
	for _, en := range envs {
		ts = append(ts, body(en, e.args[0]))
	}
	if e.op == "forall" {
		return and(ts...)
	}
	return or(ts...)
}

func (x *Exec) quant(env *specEnv, e *Expr, body func(*specEnv, *Expr) *Term) (*Term, bool) {
	if t := x.expandQuant(env, e, body); t != nil {
		return t, true
	}
	var bound []string
	var rng []*Term
	en := env
	for _, v := range e.vars {
		x.qn++
		nm := fmt.Sprintf("%s?%d", sanitize(v.name), x.qn)
		srt := sInt
		var T types.Type = types.Typ[types.UntypedInt]
		if v.typ == "bool" {
			srt, T = sBool, types.Typ[types.Bool]
		}
		t := mk(nm, srt)
		bound = append(bound, nm+" "+srt)
		if v.lo != nil {
			rng = append(rng, le(x.evalInt(en, v.lo), t), lt(t, x.evalInt(en, v.hi)))
		} else if v.typ != "" && v.typ != "int" && v.typ != "bool" {
			if gt := x.goType(v.typ); gt != nil {
				if lo, hi, _, _, ok := intRange(gt); ok {
					rng = append(rng, le(lo, t), le(t, hi))
					T = gt
				}
			}
		}
		en = en.with(v.name, Val{T: T, L: []*Term{t}})
	}
	x.noWF++
	b := body(en, e.args[0])
	var pats [][]*Term
	for _, tr := range e.trig {
		var p []*Term
		for _, q := range tr {
			v := x.deref(en, x.eval(en, q))
			p = append(p, v.L[0])
		}
		pats = append(pats, p)
	}
	x.noWF--
	if e.op == "forall" {
		b = implies(and(rng...), b)
	} else {
		b = and(append(rng, b)...)
	}
	return mkQuant(e.op, bound, b, pats), true
}

func (x *Exec) goType(n string) types.Type {
	ptr := 0
	for strings.HasPrefix(n, "*") {
		ptr++
		n = n[1:]
	}
	var t types.Type
	if strings.HasPrefix(n, "[]") {
		e := x.goType(n[2:])
		if e == nil {
			return nil
		}
		t = types.NewSlice(e)
	} else if o := types.Universe.Lookup(n); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			t = tn.Type()
		}
	}
	if t == nil {
		if i := strings.Index(n, "."); i > 0 {
			for _, im := range x.p.pkg.Imports() {
				if im.Name() == n[:i] {
					if tn, ok := im.Scope().Lookup(n[i+1:]).(*types.TypeName); ok {
						t = tn.Type()
					}
				}
			}
		}
	}
	if t == nil {
		if o := x.p.pkg.Scope().Lookup(n); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				t = tn.Type()
			}
		}
	}
	if t == nil {
		return nil
	}
	for ; ptr > 0; ptr-- {
		t = types.NewPointer(t)
	}
	return t
}

// lookupLocal finds the source variable n visible in the frame.
func (x *Exec) lookupLocal(env *specEnv, n string) (Val, bool) {
	fr := env.fr
	if fr == nil {
		return Val{}, false
	}
	blk := env.blk
	var limit token.Pos
	if env.loop != nil {
		blk = env.loop.header
		limit = env.loop.end
	}
	var best *ssa.Alloc
	// rangeindex1 is the index of the range loop around the nearest one, and so on
	nth := 0
	if d := strings.TrimPrefix(n, "rangeindex"); d != n && len(d) == 1 && d[0] >= '1' && d[0] <= '9' {
		nth = int(d[0] - '0')
		n = "rangeindex"
	}
	if v, ok := x.otherLoopForm(env, n, nth); ok {
		return v, true
	}
	var all []*ssa.Alloc
	better := func(a, b *ssa.Alloc) bool { // a better than b
		if b == nil {
			return true
		}
		if a.Pos() != b.Pos() {
			return a.Pos() > b.Pos()
		}
		// no position of their own (a range loop's index): the innermost
		return a.Block() != b.Block() && b.Block().Dominates(a.Block())
	}
	for _, b := range fr.fn.Blocks {
		if blk != nil && b != blk && !b.Dominates(blk) {
			continue
		}
		for _, in := range b.Instrs {
			al, ok := in.(*ssa.Alloc)
			if !ok || x.localName(fr, al) != n {
				continue
			}
			if limit.IsValid() && al.Pos() > limit {
				continue
			}
			if blk != nil && b == blk && env.loop != nil {
				continue // declared inside the loop header
			}
			// must have a value in this state
			if _, ok := fr.vals[al]; !ok {
				if _, ok := env.state.locals[localKey{fr: fr, a: al}]; !ok {
					continue
				}
			}
			if better(al, best) {
				best = al
			}
			all = append(all, al)
		}
	}
	if nth > 0 {
		sort.SliceStable(all, func(i, j int) bool { return better(all[i], all[j]) })
		if nth >= len(all) {
			return Val{}, false
		}
		best = all[nth]
	}
	if best == nil {
		return Val{}, false
	}
	et := best.Type().Underlying().(*types.Pointer).Elem()
	if pv, ok := fr.vals[best]; ok {
		return x.load(env.state, &Addr{kind: aMem, T: et, obj: pv.L[0], off: pv.L[1]}), true
	}
	v := env.state.locals[localKey{fr: fr, a: best}]
	v.T = et
	return v, true
}

func (x *Exec) resolveId(env *specEnv, n string) (Val, bool) {
	if v, ok := env.vars[n]; ok {
		return v, true
	}
	switch n {
	case "true":
		return intV(tTrue), true
	case "false":
		return intV(tFalse), true
	case "nil":
		return Val{T: types.Typ[types.UntypedNil], L: []*Term{num(0)}}, true
	case "result":
		if len(env.results) > 0 {
			return env.results[0], true
		}
	}
	if strings.HasPrefix(n, "result") && len(n) == 7 {
		i := int(n[6] - '0')
		if i >= 0 && i < len(env.results) {
			return env.results[i], true
		}
	}
	if strings.HasPrefix(n, "$k") && env.fr != nil {
		nn := n
		if n == "$k" && env.loop != nil {
			nn = fmt.Sprintf("$k%d", env.loop.ord)
		} else if n == "$k" && env.kloop != nil {
			nn = fmt.Sprintf("$k%d", env.kloop.ord)
		}
		if v, ok := env.state.locals[localKey{fr: env.fr, a: nil, aux: nn}]; ok {
			return v, true
		}
		panic(verr("%s not available here", n))
	}
	if env.results != nil && env.sig != nil {
		if env.con != nil {
			for i, r := range env.con.results {
				if r == n && i < len(env.results) {
					return env.results[i], true
				}
			}
		}
		for i := 0; i < env.sig.Results().Len() && i < len(env.results); i++ {
			if env.sig.Results().At(i).Name() == n && n != "" {
				return env.results[i], true
			}
		}
	}
	if env.fr != nil && !env.inOld && !env.noLocals {
		if v, ok := x.lookupLocal(env, n); ok {
			return v, true
		}
		if env.con != nil && len(env.con.params) > 0 {
			// header name differs from the source name: positional
			for i, p := range env.con.params {
				if p == n && i < len(env.fr.fn.Params) {
					if v, ok := x.lookupLocal(env, env.fr.fn.Params[i].Name()); ok {
						return v, true
					}
				}
			}
		}
	}
	if env.fr != nil && !env.noLocals {
		for i, p := range env.fr.fn.Params {
			if p.Name() == n {
				return env.fr.params[i], true
			}
		}
		if env.con != nil {
			for i, p := range env.con.params {
				if p == n && i < len(env.fr.params) {
					return env.fr.params[i], true
				}
			}
		}
		for i, p := range env.fr.fn.FreeVars {
			if p.Name() == n && i < len(env.fr.binds) {
				b := env.fr.binds[i]
				pt, ok := p.Type().Underlying().(*types.Pointer)
				if ok {
					_ = pt
					return x.load(env.state, x.addrOf(b)), true
				}
				return b, true
			}
		}
	}
	if s, ok := x.cs.ghosts[n]; ok {
		return intV(x.heapGet(env.state, "G|"+n, s)), true
	}
	if sf := x.cs.specs[n]; sf != nil && len(sf.params) == 0 && sf.body != nil {
		return x.eval(&specEnv{x: x, state: env.state, old: env.old, vars: map[string]Val{}, noLocals: true}, sf.body), true
	}
	if o := x.p.pkg.Scope().Lookup(n); o != nil {
		switch o := o.(type) {
		case *types.Const:
			if o.Val().Kind() == constant.Int {
				b, _ := new(big.Int).SetString(constant.ToInt(o.Val()).ExactString(), 10)
				return intV(bigNum(b)), true
			}
			return x.constOf(o.Type(), o.Val()), true
		case *types.Var:
			g := x.p.ssa.Var(n)
			return x.load(env.state, &Addr{kind: aMem, T: o.Type(), obj: x.globalId(g), off: num(0)}), true
		case *types.Func:
			return Val{T: o.Type(), Fn: x.p.ssa.Func(n), L: []*Term{x.fnId(x.p.ssa.Func(n))}}, true
		}
	}
	return Val{}, false
}

func (x *Exec) eval(env *specEnv, e *Expr) Val {
	switch e.op {
	case "int":
		b, ok := new(big.Int).SetString(e.s, 0)
		if !ok {
			panic(verr("bad number %s", e.s))
		}
		return intV(bigNum(b))
	case "str":
		return Val{T: types.Typ[types.String], L: []*Term{strLit(e.s)}}
	case "id":
		v, ok := x.resolveId(env, e.s)
		if !ok {
			w := ""
			if env.fr != nil {
				w = funcName(env.fr.fn) + ": "
			}
			panic(verr("%sunknown name %q in contract", w, e.s))
		}
		return v
	case "un":
		switch e.s {
		case "!":
			return intV(not(x.evalBool(env, e.args[0])))
		case "-":
			return intV(neg(x.evalInt(env, e.args[0])))
		case "*":
			v := x.deref(env, x.eval(env, e.args[0]))
			return x.load(env.state, x.addrOf(v))
		case "&":
			v := x.lvalue(env, e.args[0])
			if v.kind == aMem {
				return Val{T: types.NewPointer(v.T), L: []*Term{v.obj, v.off}}
			}
			panic(verr("address not representable"))
		}
	case "bin":
		return x.evalBin(env, e)
	case "let":
		v := x.deref(env, x.eval(env, e.args[0]))
		return x.eval(env.with(e.s, v), e.args[1])
	case "forall", "exists":
		t, _ := x.quant(env, e, func(en *specEnv, b *Expr) *Term { return x.evalBool(en, b) })
		return intV(t)
	case "sel":
		return x.evalSel(env, e)
	case "idx":
		return x.evalIdx(env, e)
	case "call":
		return x.evalCall(env, e)
	}
	panic(verr("cannot evaluate %s", exprString(e)))
}

func (x *Exec) evalBin(env *specEnv, e *Expr) Val {
	switch e.s {
	case "&&":
		return intV(and(x.evalBool(env, e.args[0]), x.evalBool(env, e.args[1])))
	case "||":
		return intV(or(x.evalBool(env, e.args[0]), x.evalBool(env, e.args[1])))
	case "==>":
		return intV(implies(x.evalBool(env, e.args[0]), x.evalBool(env, e.args[1])))
	case "<==>":
		return intV(eq(x.evalBool(env, e.args[0]), x.evalBool(env, e.args[1])))
	}
	a, b := x.deref(env, x.eval(env, e.args[0])), x.deref(env, x.eval(env, e.args[1]))
	switch e.s {
	case "==", "!=":
		c := x.specEq(env, a, b)
		if e.s == "!=" {
			c = not(c)
		}
		return intV(c)
	}
	p, q := a.L[0], b.L[0]
	if p.sort == sFlt {
		op := map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL, "/": token.QUO, "<": token.LSS, ">": token.GTR, "<=": token.LEQ, ">=": token.GEQ}[e.s]
		return intV(x.floatOp(env.state, op, p, q))
	}
	if p.sort != sInt || q.sort != sInt {
		panic(verr("arithmetic on non-integers: %s", exprString(e)))
	}
	switch e.s {
	case "+":
		return intV(add(p, q))
	case "-":
		return intV(sub(p, q))
	case "*":
		return intV(mul(p, q))
	case "/":
		return intV(ediv(p, q))
	case "%":
		return intV(emod(p, q))
	case "<":
		return intV(lt(p, q))
	case "<=":
		return intV(le(p, q))
	case ">":
		return intV(lt(q, p))
	case ">=":
		return intV(le(q, p))
	case "<<":
		if p.num != nil && p.num.Cmp(big.NewInt(1)) == 0 {
			return intV(pow2Term(q, 64))
		}
		return intV(mul(p, pow2Term(q, 64)))
	case ">>":
		if q.num != nil {
			return intV(ediv(p, bigNum(pow2b(int(q.num.Int64())))))
		}
		r := num(0)
		for k := 63; k >= 0; k-- {
			r = ite(eq(q, num(int64(k))), ediv(p, bigNum(pow2b(k))), r)
		}
		return intV(r)
	case "&", "|", "^":
		T := types.Type(types.Typ[types.Uint16])
		for _, v := range []Val{a, b} {
			if v.T != nil {
				if _, _, bits, _, ok := intRange(v.T); ok && bits > 16 {
					T = v.T
				}
			}
		}
		return intV(x.bitop(env.state, map[string]token.Token{"&": token.AND, "|": token.OR, "^": token.XOR}[e.s], p, q, T))
	}
	panic(verr("operator %s", e.s))
}

func (x *Exec) specEq(env *specEnv, a, b Val) *Term {
	isNil := func(v Val) bool {
		bt, ok := v.T.(*types.Basic)
		return v.T != nil && ok && bt.Kind() == types.UntypedNil
	}
	if isNil(b) {
		return eq(a.L[0], num(0))
	}
	if isNil(a) {
		return eq(b.L[0], num(0))
	}
	if len(a.L) != len(b.L) {
		panic(verr("equality of different shapes"))
	}
	if a.T != nil && b.T != nil {
		if _, ok := a.T.Underlying().(*types.Interface); ok {
			return and(eq(a.L[0], b.L[0]), eq(a.L[1], b.L[1]), eq(a.L[2], b.L[2]))
		}
	}
	var cs []*Term
	for i := range a.L {
		cs = append(cs, eq(a.L[i], b.L[i]))
	}
	return and(cs...)
}

// lvalue evaluates an expression to an address
func (x *Exec) lvalue(env *specEnv, e *Expr) *Addr {
	switch e.op {
	case "un":
		if e.s == "*" {
			return x.addrOf(x.deref(env, x.eval(env, e.args[0])))
		}
	case "sel":
		v := x.evalSel(env, e)
		if v.Addr != nil {
			return v.Addr
		}
	case "idx":
		v := x.evalIdx(env, e)
		if v.Addr != nil {
			return v.Addr
		}
	case "id":
		if g := x.p.ssa.Var(e.s); g != nil {
			return &Addr{kind: aMem, T: g.Type().Underlying().(*types.Pointer).Elem(), obj: x.globalId(g), off: num(0)}
		}
	}
	panic(verr("not an lvalue: %s", exprString(e)))
}

func lv(a *Addr, s *State) Val { return Val{T: a.T, Addr: a, Raw: "lv", specState: s} }

func (x *Exec) evalSel(env *specEnv, e *Expr) Val {
	// package-qualified or type-qualified names are not used in contracts
	b := x.eval(env, e.args[0])
	return x.selField(env, b, e.s)
}

func (x *Exec) selField(env *specEnv, b Val, f string) Val {
	if b.T == nil {
		panic(verr("field %s of a non-Go value", f))
	}
	var st types.Type
	isPtr := false
	T := b.T
	if pt, ok := T.Underlying().(*types.Pointer); ok {
		isPtr = true
		st = pt.Elem()
	} else {
		st = T
	}
	obj, path, _ := types.LookupFieldOrMethod(st, true, x.p.pkg, f)
	if _, ok := obj.(*types.Var); !ok {
		panic(verr("no field %s in %s", f, st))
	}
	if isPtr {
		b = x.deref(env, b)
		a := x.addrOf(Val{T: types.NewPointer(st), L: b.L})
		return x.fieldPath(env, a, path)
	}
	if b.Addr != nil && b.Raw == "lv" {
		e2 := *env
		if b.specState != nil {
			e2.state = b.specState
		}
		return x.fieldPath(&e2, b.Addr, path)
	}
	v := b
	cur := st
	for _, i := range path {
		su, ok := cur.Underlying().(*types.Struct)
		if !ok {
			panic(verr("promoted field through pointer in a value"))
		}
		lo, hi := fieldRange(su, i)
		v = Val{T: su.Field(i).Type(), L: v.L[lo:hi]}
		cur = v.T
	}
	return v
}

func (x *Exec) fieldPath(env *specEnv, a *Addr, path []int) Val {
	for n, i := range path {
		st := a.T
		if pt, ok := st.Underlying().(*types.Pointer); ok {
			v := x.load(env.state, a)
			a = &Addr{kind: aMem, T: pt.Elem(), obj: v.L[0], off: v.L[1]}
			st = a.T
		}
		su := st.Underlying().(*types.Struct)
		fv := x.fieldAddr(Val{T: types.NewPointer(st), Addr: a}, i, types.NewPointer(su.Field(i).Type()))
		a = x.addrOf(fv)
		_ = n
	}
	return lv(a, env.state)
}

func (x *Exec) evalIdx(env *specEnv, e *Expr) Val {
	b := x.eval(env, e.args[0])
	if b.T == nil {
		i := x.evalInt(env, e.args[1])
		return intV(sel(b.L[0], i))
	}
	switch u := b.T.Underlying().(type) {
	case *types.Slice:
		st := env.state
		if b.specState != nil {
			st = b.specState
		}
		b = x.deref(env, b)
		i := x.evalInt(env, e.args[1])
		return lv(&Addr{kind: aMem, T: u.Elem(), obj: b.L[0], off: x.ix(b.L[1], i)}, st)
	case *types.Array:
		i := x.evalInt(env, e.args[1])
		if b.Addr != nil && b.Raw == "lv" {
			if b.Addr.kind == aMem && b.Addr.off.num != nil && b.Addr.off.num.Sign() == 0 {
				return lv(&Addr{kind: aMem, T: u.Elem(), obj: b.Addr.obj, off: i}, b.specState)
			}
			return lv(&Addr{kind: aElem, T: u.Elem(), parent: b.Addr, idx: i}, b.specState)
		}
		v := Val{T: u.Elem()}
		for _, l := range b.L {
			v.L = append(v.L, sel(l, i))
		}
		return v
	case *types.Pointer:
		b = x.deref(env, b)
		if at, ok := u.Elem().Underlying().(*types.Array); ok {
			i := x.evalInt(env, e.args[1])
			return lv(&Addr{kind: aMem, T: at.Elem(), obj: b.L[0], off: i}, env.state)
		}
	case *types.Map:
		st := env.state
		b = x.deref(env, b)
		k := x.mapKeySpec(x.deref(env, x.eval(env, e.args[1])), u)
		_, v := x.mapGet(st, u, b.L[0], k)
		return v
	case *types.Basic:
		b = x.deref(env, b)
		i := x.evalInt(env, e.args[1])
		return intV(x.strAt(b.L[0], i))
	}
	panic(verr("cannot index %s", b.T))
}

func (x *Exec) mapKeySpec(v Val, mt *types.Map) *Term {
	if len(v.L) == 1 {
		return v.L[0]
	}
	v.T = mt.Key()
	return x.mapKey(v)
}

func (x *Exec) evalCall(env *specEnv, e *Expr) Val {
	a1 := func() Val { return x.deref(env, x.eval(env, e.args[0])) }
	switch e.s {
	case "old":
		if env.old == nil {
			panic(verr("old() not available here"))
		}
		c := *env
		c.state = env.old
		c.inOld = true
		c.loop, c.loopEntry = nil, nil
		return x.deref(&c, x.eval(&c, e.args[0]))
	case "head": // endhint: the state in which the iteration began
		if env.loopHead == nil {
			panic(verr("head() is for endhints"))
		}
		c := *env
		c.state = env.loopHead
		return x.deref(&c, x.eval(&c, e.args[0]))
	case "entry":
		if env.loopEntry == nil {
			panic(verr("entry() outside a loop"))
		}
		c := *env
		c.state = env.loopEntry
		return x.deref(&c, x.eval(&c, e.args[0]))
	case "len":
		v := a1()
		if v.T != nil {
			return x.lenOf(env.state, v)
		}
	case "cap":
		v := a1()
		return intV(v.L[3])
	case "ite":
		c := x.evalBool(env, e.args[0])
		p, q := x.deref(env, x.eval(env, e.args[1])), x.deref(env, x.eval(env, e.args[2]))
		r := Val{T: p.T}
		for i := range p.L {
			r.L = append(r.L, ite(c, p.L[i], q.L[i]))
		}
		return r
	case "has":
		m := a1()
		mt := m.T.Underlying().(*types.Map)
		k := x.mapKeySpec(x.deref(env, x.eval(env, e.args[1])), mt)
		ok, _ := x.mapGet(env.state, mt, m.L[0], k)
		return intV(ok)
	case "arr": // backing array of a slice (scalar elements) or an array value
		v := a1()
		switch u := v.T.Underlying().(type) {
		case *types.Slice:
			ls := layout(u.Elem())
			h := x.heapGet(env.state, "E|"+typeKey(u.Elem())+ls[0].path, ls[0].sort)
			return Val{L: []*Term{sel(h, v.L[0])}}
		case *types.Array:
			return Val{L: []*Term{v.L[0]}}
		}
	case "mapdom":
		v := a1()
		mt := v.T.Underlying().(*types.Map)
		_, h := x.mapDom(env.state, mt)
		return Val{L: []*Term{sel(h, v.L[0])}}
	case "obj":
		v := a1()
		if _, ok := v.T.Underlying().(*types.Interface); ok {
			return intV(v.L[1])
		}
		return intV(v.L[0])
	case "off":
		v := a1()
		return intV(v.L[1])
	case "tag":
		v := a1()
		return intV(v.L[0])
	case "ifval": // the dynamic value of an interface, as a scalar
		return intV(a1().L[1])
	case "istype": // istype(iface, T)
		v := a1()
		gt := x.goType(strings.TrimSpace(exprString(e.args[1])))
		if e.args[1].op == "un" {
			a := e.args[1].args[0]
			if a.op == "sel" || a.op == "field" {
				gt = x.goType("*" + strings.TrimSpace(exprString(a)))
			} else {
				gt = x.goType("*" + a.s)
			}
		} else if e.args[1].op == "id" {
			gt = x.goType(e.args[1].s)
		}
		if gt == nil {
			panic(verr("unknown type in istype"))
		}
		return intV(eq(v.L[0], typeTag(gt)))
	case "fresh":
		v := a1()
		ref := env.old
		if env.loopEntry != nil && env.results == nil && ref == nil {
			ref = env.loopEntry
		}
		return intV(or(le(ref.next, x.rootObj(v.L[0]))))
	case "same": // same backing array
		a, b := a1(), x.deref(env, x.eval(env, e.args[1]))
		return intV(and(eq(a.L[0], b.L[0]), eq(a.L[1], b.L[1])))
	case "disjoint":
		a, b := a1(), x.deref(env, x.eval(env, e.args[1]))
		return intV(not(eq(a.L[0], b.L[0])))
	case "abs":
		t := a1().L[0]
		return intV(ite(le(num(0), t), t, neg(t)))
	case "min", "max":
		p, q := a1().L[0], x.evalInt(env, e.args[1])
		if e.s == "min" {
			return intV(ite(le(p, q), p, q))
		}
		return intV(ite(le(p, q), q, p))
	case "bit": // bit(v, k): boolean
		return intV(eq(x.bitAt(a1().L[0], x.evalInt(env, e.args[1]), a1().T), num(1)))
	case "bitn":
		return intV(x.bitAt(a1().L[0], x.evalInt(env, e.args[1]), a1().T))
	case "sgn":
		t := a1().L[0]
		return intV(ite(lt(num(0), t), num(1), ite(lt(t, num(0)), num(-1), num(0))))
	case "allocated": // the object (or the one it is embedded in) exists
		v := a1()
		return intV(and(lt(v.L[0], env.state.next), lt(x.rootTerm(v.L[0]), env.state.next)))
	case "tdiv":
		return intV(tdiv(a1().L[0], x.evalInt(env, e.args[1]), types.Typ[types.Int]))
	case "ptr": // ptr(T, o, n): the pointer to a T at offset n of object o
		gt := x.goType(e.args[0].s)
		if gt == nil {
			panic(verr("ptr: unknown type %s", e.args[0].s))
		}
		o, n := x.evalInt(env, e.args[1]), num(0)
		if len(e.args) > 2 {
			n = x.evalInt(env, e.args[2])
		}
		return Val{T: types.NewPointer(gt), L: []*Term{o, n}}
	case "tuple": // tuple(T, leaves...): a struct value
		gt := x.goType(e.args[0].s)
		if gt == nil || len(layout(gt)) != len(e.args)-1 {
			panic(verr("tuple: type %s with %d leaves", e.args[0].s, len(e.args)-1))
		}
		v := Val{T: gt}
		for i := range e.args[1:] {
			v.L = append(v.L, x.evalInt(env, e.args[i+1]))
		}
		return v
	case "deref":
		return x.load(env.state, x.addrOf(a1()))
	case "uint8", "uint16", "uint32", "int16", "int32", "int8":
		gt := types.Universe.Lookup(e.s).Type()
		_, _, bits, sg, _ := intRange(gt)
		return intV(wrapMod(a1().L[0], bits, sg))
	case "int", "int64", "uint64", "uint":
		return a1()
	case "float64":
		v := a1()
		if v.L[0].sort == sFlt {
			return v
		}
		return intV(app("i2f", sFlt, v.L[0]))
	case "str":
		v := a1() // string content of a byte slice
		h := x.heapGet(env.state, "E|uint8", sInt)
		return Val{T: types.Typ[types.String], L: []*Term{app("strof", sInt, sel(h, v.L[0]), v.L[1], v.L[2])}}
	case "substr":
		v := a1()
		return Val{T: types.Typ[types.String], L: []*Term{app("strsub", sInt, v.L[0], x.evalInt(env, e.args[1]), x.evalInt(env, e.args[2]))}}
	case "arrval":
		return Val{L: []*Term{a1().L[0]}}
	case "unchanged": // unchanged(e): e == old(e)
		c := *env
		c.state = env.old
		c.inOld = true
		c.loop, c.loopEntry = nil, nil
		o := x.deref(&c, x.eval(&c, e.args[0]))
		return intV(x.specEq(env, a1(), o))
	case "reveal": // the definition of an opaque function at these arguments
		c := e.args[0]
		sf := x.cs.specs[c.s]
		if c.op != "call" || sf == nil || !sf.opaque {
			panic(verr("reveal of something not opaque"))
		}
		l := x.eval(env, c)
		vars := map[string]Val{}
		for i, p := range sf.params {
			vars[p] = intV(l.L[0].args[i])
		}
		r := x.eval(&specEnv{x: x, state: env.state, old: env.old, vars: vars, noLocals: true}, sf.body)
		return intV(eq(l.L[0], r.L[0]))
	case "unboxed": // unboxed(iface, T)
		v := a1()
		gt := x.goType(e.args[1].s)
		return x.unbox(env.state, v, gt)
	}
	if sf := x.cs.specs[e.s]; sf != nil {
		if !sf.uninterp && len(sf.params) != len(e.args) {
			panic(verr("%s: wrong number of arguments", e.s))
		}
		var as []Val
		for i := range e.args {
			v := x.eval(env, e.args[i])
			if sf.uninterp || sf.rec || sf.opaque {
				v = x.deref(env, v)
			} else if v.Raw == "lv" && v.T != nil {
				if _, isS := v.T.Underlying().(*types.Struct); !isS {
					v = x.deref(env, v)
				}
			}
			as = append(as, v)
		}
		if sf.uninterp || sf.rec || sf.opaque {
			var ts []*Term
			for i, a := range as {
				if len(a.L) != 1 {
					panic(verr("%s: argument %d is not a scalar", e.s, i))
				}
				ts = append(ts, a.L[0])
			}
			if sf.rec {
				x.usedRec[e.s] = true
			}
			return intV(app("spec$"+e.s, sf.ret, ts...))
		}
		vars := map[string]Val{}
		for i, p := range sf.params {
			vars[p] = as[i]
		}
		x.specDepth++
		if x.specDepth > 50 {
			panic(verr("recursive define %s (use rec)", e.s))
		}
		ne := &specEnv{x: x, state: env.state, old: env.old, vars: vars, noLocals: true, loopEntry: env.loopEntry, loopHead: env.loopHead}
		r := x.eval(ne, sf.body)
		x.specDepth--
		return r
	}
	// conversion to a named integer type
	if gt := x.goType(e.s); gt != nil && len(e.args) == 1 {
		v := a1()
		if _, _, bits, sg, ok := intRange(gt); ok {
			if bits == 64 {
				return v
			}
			return intV(wrapMod(v.L[0], bits, sg))
		}
		v.T = gt
		return v
	}
	panic(verr("unknown spec function %s", e.s))
}

func (x *Exec) bitAt(v, k *Term, t types.Type) *Term {
	if k.num != nil {
		return bit(v, int(k.num.Int64()))
	}
	n := 64
	if t != nil {
		if _, _, b, _, ok := intRange(t); ok {
			n = b
		}
	}
	r := num(0)
	for i := n - 1; i >= 0; i-- {
		r = ite(eq(k, num(int64(i))), bit(v, i), r)
	}
	return r
}

// modTargets evaluates a modifies clause
func (x *Exec) modTargets(env *specEnv, e *Expr) []modTarget {
	fromCells := func(cs []cell) []modTarget {
		var r []modTarget
		for _, c := range cs {
			t := modTarget{key: c.key, obj: c.obj, off: c.off, leafSort: c.sort}
			if c.arr {
				t.off = nil
			}
			r = append(r, t)
		}
		return r
	}
	elemCells := func(v Val, et types.Type, lo, hi *Term) []modTarget {
		var r []modTarget
		for _, c := range x.memCells(et, v.L[0], mk("dummyoff", sInt)) {
			if c.arr {
				panic(verr("modifies on elements with sliced array fields"))
			}
			r = append(r, modTarget{key: c.key, obj: c.obj, lo: lo, hi: hi, leafSort: c.sort})
		}
		return r
	}
	switch e.op {
	case "id":
		if s, ok := x.cs.ghosts[e.s]; ok {
			return []modTarget{{key: "G|" + e.s, leafSort: s}}
		}
		if sf := x.cs.specs[e.s]; sf != nil {
			_ = sf
		}
		return fromCells(x.cellsOf(x.lvalue(env, e)))
	case "selall":
		v := x.eval(env, e.args[0])
		if v.Addr != nil && v.Raw == "lv" {
			if _, isP := v.T.Underlying().(*types.Pointer); !isP {
				return fromCells(x.cellsOf(v.Addr))
			}
			v = x.deref(env, v)
		}
		return fromCells(x.cellsOf(x.addrOf(v)))
	case "sel":
		if q := e.args[0]; q.op == "idxall" || q.op == "idxrange" { // one field of many elements
			v := x.deref(env, x.eval(env, q.args[0]))
			T := v.T.Underlying().(*types.Slice).Elem()
			var lo, hi *Term
			if q.op == "idxrange" {
				lo, hi = add(v.L[1], x.evalInt(env, q.args[1])), add(v.L[1], x.evalInt(env, q.args[2]))
			}
			st := T.Underlying().(*types.Struct)
			var r []modTarget
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() != e.s {
					continue
				}
				for _, c := range x.fieldCells(T, i, v.L[0], mk("dummyoff", sInt)) {
					if c.arr {
						panic(verr("modifies on an array field of elements"))
					}
					r = append(r, modTarget{key: c.key, obj: c.obj, lo: lo, hi: hi, leafSort: c.sort})
				}
			}
			return r
		}
		return fromCells(x.cellsOf(x.lvalue(env, e)))
	case "un":
		return fromCells(x.cellsOf(x.lvalue(env, e)))
	case "idxall":
		v := x.deref(env, x.eval(env, e.args[0]))
		switch u := v.T.Underlying().(type) {
		case *types.Slice:
			return elemCells(v, u.Elem(), nil, nil)
		case *types.Map:
			dk, vk := mapElemKeys(u)
			r := []modTarget{{key: dk, obj: v.L[0], leafSort: arrSort(arrSort(sBool))}, {key: "M|len", obj: v.L[0], leafSort: arrSort(sInt)}}
			for _, l := range layout(u.Elem()) {
				r = append(r, modTarget{key: vk + l.path, obj: v.L[0], leafSort: arrSort(arrSort(l.sort))})
			}
			return r
		case *types.Pointer:
			return fromCells(x.memCells(u.Elem(), v.L[0], v.L[1]))
		}
	case "idxrange":
		v := x.deref(env, x.eval(env, e.args[0]))
		lo, hi := x.evalInt(env, e.args[1]), x.evalInt(env, e.args[2])
		return elemCells(v, v.T.Underlying().(*types.Slice).Elem(), add(v.L[1], lo), add(v.L[1], hi))
	case "idx":
		a := x.lvalue(env, e)
		if a.kind == aElem {
			return fromCells(x.cellsOf(a.parent))
		}
		return fromCells(x.cellsOf(a))
	case "call":
		switch e.s {
		case "any": // any(T.f): the field in every object
			se := e.args[0]
			if se.op == "sel" {
				T := x.goType(se.args[0].s)
				if T == nil {
					panic(verr("unknown type %s", se.args[0].s))
				}
				st := T.Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == se.s {
						var r []modTarget
						for _, c := range x.fieldCells(T, i, mk("anyobj", sInt), mk("anyoff", sInt)) {
							r = append(r, modTarget{key: c.key, leafSort: c.sort})
						}
						return r
					}
				}
				panic(verr("no field %s", se.s))
			}
			if se.op == "id" || se.op == "str" { // any(T): elements / whole objects of type T
				T := x.goType(se.s)
				if T == nil {
					panic(verr("unknown type %s", se.s))
				}
				var r []modTarget
				for _, c := range x.memCells(T, mk("anyobj", sInt), mk("anyoff", sInt)) {
					r = append(r, modTarget{key: c.key, leafSort: c.sort})
				}
				return r
			}
		case "anymap":
			T := x.goType(e.args[0].s)
			_ = T
		}
		if sf := x.cs.specs[e.s]; sf != nil && sf.body != nil && !sf.rec {
			// macro naming a modifies target
			vars := map[string]Val{}
			for i, p := range sf.params {
				vars[p] = x.deref(env, x.eval(env, e.args[i]))
			}
			ne := &specEnv{x: x, state: env.state, old: env.old, vars: vars, noLocals: true}
			return x.modTargets(ne, sf.body)
		}
	}
	panic(verr("bad modifies target %s", exprString(e)))
}
