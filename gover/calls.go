package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (fr *Frame) loopSpec(l *loopInfo) *LoopSpec {
	if fr.con == nil {
		return nil
	}
	sp := fr.con.loops[l.ord]
	if sp != nil {
		sp.used = true
	}
	return sp
}

func (x *Exec) calleeVal(fr *Frame, s *State, c *ssa.CallCommon) Val {
	if c.IsInvoke() {
		return x.val(fr, s, c.Value)
	}
	if f := c.StaticCallee(); f != nil {
		if _, ok := c.Value.(*ssa.Function); ok {
			return Val{T: f.Signature, Fn: f, L: []*Term{x.fnId(f)}}
		}
	}
	return x.val(fr, s, c.Value)
}

func (x *Exec) goStmt(fr *Frame, s *State, in *ssa.Go) {
	x.assumed["goroutines are assumed not to interfere with the function under contract"] = true
	x.calleeVal(fr, s, &in.Call)
	for _, a := range in.Call.Args {
		x.val(fr, s, a)
	}
}

func (x *Exec) call(fr *Frame, s *State, c *ssa.CallCommon, pos token.Pos, in ssa.Value) (Val, bool) {
	cl := x.calleeVal(fr, s, c)
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(fr, s, a))
	}
	return x.callWith(fr, s, c, cl, args, pos, in)
}

func resultType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return types.NewTuple()
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func packResults(sig *types.Signature, vs []Val) Val {
	if len(vs) == 1 {
		return vs[0]
	}
	v := Val{T: resultType(sig)}
	for _, r := range vs {
		v.L = append(v.L, r.L...)
	}
	return v
}

func (x *Exec) callWith(fr *Frame, s *State, c *ssa.CallCommon, cl Val, args []Val, pos token.Pos, in ssa.Value) (Val, bool) {
	if c.IsInvoke() {
		return x.invoke(fr, s, c, cl, args, pos)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, s, b.Name(), c, args, pos, in)
	}
	fn := cl.Fn
	if fn == nil && len(cl.L) == 1 && cl.L[0].num != nil {
		if r, ok := x.fnById[cl.L[0].num.Int64()]; ok {
			fn = r.fn
		}
	}
	if fn == nil {
		// dynamic: contract by field or variable name
		nm := dynName(c.Value)
		if con := x.cs.funcs[nm]; con != nil && con.kind == "dynamic" {
			x.assumed["calls through "+nm+" obey its assumed contract"] = true
			return x.applyContract(fr, s, con, c.Signature(), nil, args, pos)
		}
		panic(verr("%s: call of unknown function value %s at %s", fr.fn.Name(), nm, x.p.pos(pos)))
	}
	return x.callFn(fr, s, fn, cl.Bind, args, pos)
}

func dynName(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		switch a := u.X.(type) {
		case *ssa.FieldAddr:
			st := a.X.Type().Underlying().(*types.Pointer).Elem()
			return fieldKey(st, a.Field)
		case *ssa.Alloc:
			return a.Comment
		case *ssa.Global:
			return a.Name()
		}
	}
	if p, ok := v.(*ssa.Parameter); ok {
		return p.Name()
	}
	return v.Name()
}

func (x *Exec) contractOf(fn *ssa.Function) (*Contract, string) {
	n := ""
	inPkg := fn.Pkg == x.p.ssa || fn.Parent() != nil || fn.Origin() != nil && fn.Origin().Pkg == x.p.ssa
	if inPkg {
		n = funcName(fn)
	} else {
		n = extName(fn)
	}
	return x.cs.funcs[n], n
}

func (x *Exec) callFn(fr *Frame, s *State, fn *ssa.Function, binds []Val, args []Val, pos token.Pos) (Val, bool) {
	con, n := x.contractOf(fn)
	if fr.con != nil {
		hs := fr.con.callHints[n]
		if i := strings.LastIndexByte(n, '.'); i >= 0 {
			hs = append(append([]*Expr{}, hs...), fr.con.callHints[n[i+1:]]...)
		}
		for _, h := range hs {
			x.evalHint(x.envAt(fr, s, args), h, s.pc)
		}
	}
	if con != nil && con.kind != "inline" && (fn.Parent() == nil || len(binds) == 0) {
		x.callees[n] = true
		if con.kind == "extern" {
			x.assumed["trusted contract: "+n] = true
		}
		return x.applyContract(fr, s, con, fn.Signature, fn, args, pos)
	}
	if len(fn.Blocks) == 0 || (fn.Pkg != x.p.ssa && fn.Parent() == nil && !(fn.Synthetic != "")) {
		if fn.Origin() == nil || fn.Origin().Pkg != x.p.ssa {
			panic(verr("%s: no contract for external function %s (called at %s)", fr.fn.Name(), n, x.p.pos(pos)))
		}
	}
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			panic(verr("recursive call of %s needs a contract", n))
		}
	}
	if fr.depth >= 10 {
		panic(verr("inlining too deep at %s", n))
	}
	x.inlined[n] = true
	return x.inline(fr, s, fn, con, binds, args, pos)
}

func (x *Exec) inline(fr *Frame, s *State, fn *ssa.Function, con *Contract, binds, args []Val, pos token.Pos) (Val, bool) {
	nf := &Frame{fn: fn, vals: map[ssa.Value]Val{}, params: args, binds: binds, parent: fr, depth: fr.depth + 1, con: con, tag: fmt.Sprintf("%s>%s@%s", fr.tag, fn.Name(), x.p.pos(pos))}
	rets := x.runBody(nf, s)
	if len(rets) == 0 {
		return Val{}, false
	}
	// merge returns
	var sts []*State
	for _, r := range rets {
		sts = append(sts, r.s)
	}
	m := sts[0]
	if len(sts) > 1 {
		m = x.merge(sts)
	}
	nres := fn.Signature.Results().Len()
	out := make([]Val, nres)
	for i := 0; i < nres; i++ {
		v := rets[len(rets)-1].vals[i]
		v.L = append([]*Term{}, v.L...)
		if len(rets) > 1 && v.Addr != nil {
			panic(verr("address returned from several paths"))
		}
		for k := len(rets) - 2; k >= 0; k-- {
			w := rets[k].vals[i]
			for j := range v.L {
				v.L[j] = ite(rets[k].s.pc, w.L[j], v.L[j])
			}
			if w.Fn != v.Fn {
				v.Fn, v.Bind = nil, nil
			}
		}
		for j := range v.L {
			v.L[j] = x.nameBig("ret", v.L[j])
		}
		out[i] = v
	}
	*s = *m
	// drop callee locals
	for k := range s.locals {
		if k.fr == nf {
			delete(s.locals, k)
		}
	}
	if nres == 0 {
		return Val{T: types.NewTuple()}, true
	}
	return packResults(fn.Signature, out), true
}

// runBody executes a function body from state s, returning the return states.
func (x *Exec) runBody(fr *Frame, s *State) []retState {
	loops, rpo, err := findLoops(fr.fn)
	if err != nil {
		panic(err)
	}
	fr.loops = loops
	fr.entry = s.clone()
	if fr.con != nil {
		for k := range fr.con.loops {
			if k >= len(loops) {
				panic(verr("%s: contract names loop %d but the function has %d loops", funcName(fr.fn), k, len(loops)))
			}
		}
	}
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range rpo {
		all[b] = true
	}
	if fr.con != nil && fr.con.paths {
		x.runPaths(fr, rpo, fr.fn.Blocks[0], s.clone())
		return fr.rets
	}
	x.runRegion(fr, rpo, all, fr.fn.Blocks[0], s.clone(), false)
	return fr.rets
}

func (x *Exec) invoke(fr *Frame, s *State, c *ssa.CallCommon, recv Val, args []Val, pos token.Pos) (Val, bool) {
	tg := recv.L[0]
	if tg.num != nil && tg.num.Sign() > 0 {
		T := typeTagType[tg.num.Int64()]
		f := x.p.prog.LookupMethod(T, c.Method.Pkg(), c.Method.Name())
		if f != nil {
			r := x.unbox(s, recv, T)
			return x.callFn(fr, s, f, nil, append([]Val{r}, args...), pos)
		}
	}
	it := c.Value.Type()
	n := typeKey(it) + "." + c.Method.Name()
	con := x.cs.funcs[n]
	if con == nil {
		n = "*." + c.Method.Name()
		con = x.cs.funcs[n]
	}
	if con == nil {
		panic(verr("%s: no contract for interface method %s.%s at %s", fr.fn.Name(), typeKey(it), c.Method.Name(), x.p.pos(pos)))
	}
	x.assumed["trusted contract (interface): "+n] = true
	x.safety(fr, s, "nilif", pos, "interface value not nil", not(eq(tg, num(0))))
	return x.applyContract(fr, s, con, c.Signature(), nil, append([]Val{recv}, args...), pos)
}

// applyContract is the caller's view of a callee: assert requires, havoc
// modifies, assume ensures.
func (x *Exec) applyContract(fr *Frame, s *State, con *Contract, sig *types.Signature, fn *ssa.Function, args []Val, pos token.Pos) (Val, bool) {
	vars := map[string]Val{}
	names := con.params
	if len(names) == 0 && fn != nil {
		for _, p := range fn.Params {
			names = append(names, p.Name())
		}
	}
	if len(names) == 0 && fn == nil {
		if sig.Recv() != nil {
			names = append(names, "self")
		}
		for i := 0; i < sig.Params().Len(); i++ {
			names = append(names, sig.Params().At(i).Name())
		}
	}
	if len(names) > len(args) {
		panic(verr("contract %s: %d parameter names for %d arguments", con.name, len(names), len(args)))
	}
	for i, n := range names {
		if n != "_" && n != "" {
			vars[n] = args[i]
		}
	}
	pre := s.clone()
	env := &specEnv{x: x, state: pre, old: pre, vars: vars, con: con}
	for i, r := range con.requires {
		c := x.evalBool(env, r)
		x.oblige(s.pc, "requires", x.p.pos(pos), fmt.Sprintf("precondition %d of %s: %s", i, con.name, r.src), c)
	}
	if con.noreturn {
		return Val{}, false
	}
	if con.modAny {
		x.havocAll(s)
	} else {
		for _, m := range con.modifies {
			for _, t := range x.modTargets(env, m) {
				x.havocTarget(s, t)
			}
		}
	}
	nx := freshConst("next", sInt)
	x.assume(tTrue, le(s.next, nx))
	s.next = nx
	for _, r := range x.rec {
		r.alloc = true
	}
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		res = append(res, x.freshVal(s, "r$"+shortName(con.name), sig.Results().At(i).Type()))
	}
	env2 := &specEnv{x: x, state: s, old: pre, vars: vars, con: con, results: res, sig: sig}
	for _, e := range con.ensures {
		x.assume(s.pc, x.evalBool(env2, e))
	}
	if len(res) == 0 {
		return Val{T: types.NewTuple()}, true
	}
	return packResults(sig, res), true
}

func shortName(n string) string {
	if i := strings.LastIndexByte(n, '.'); i >= 0 {
		return n[i+1:]
	}
	return n
}

func (x *Exec) havocAll(s *State) {
	for _, r := range x.rec {
		r.all = true
	}
	if !x.modAny && x.dry == 0 && !x.noFrame {
		x.oblige(s.pc, "frame", "", "call that may modify anything within modifies", tFalse)
	}
	x.epochN++
	s.epoch = x.epochN
	ghosts := map[string]*Term{}
	_ = ghosts
	s.heap = map[string]*Term{}
}

func (x *Exec) havocTarget(s *State, t modTarget) {
	keys := []string{t.key}
	if strings.HasSuffix(t.key, "*") {
		keys = nil
		for k := range x.keySorts {
			if keyMatch(t.key, k) {
				keys = append(keys, k)
			}
		}
		sortStrings(keys)
	}
	for _, k := range keys {
		srt, ok := x.keySorts[k]
		if !ok {
			if t.leafSort == "" {
				continue
			}
			srt = t.leafSort
		}
		h := x.heapGet(s, k, srt)
		if strings.HasPrefix(k, "G|") {
			x.recordWrite(s, k, num(0), nil)
			s.heap[k] = freshConst("g$"+k, h.sort)
			continue
		}
		if t.obj == nil {
			for _, r := range x.rec {
				r.whole[k] = true
			}
			if !x.modAny && x.dry == 0 && !x.noFrame {
				ok := false
				for _, m := range x.modset {
					if keyMatch(m.key, k) && m.obj == nil {
						ok = true
					}
				}
				if !ok {
					x.oblige(s.pc, "frame", "", "callee may modify "+k+" anywhere", tFalse)
				}
			}
			s.heap[k] = freshConst("hc$"+k, h.sort)
			continue
		}
		old := sel(h, t.obj)
		switch {
		case t.off != nil:
			x.recordWrite(s, k, t.obj, t.off)
			s.heap[k] = x.name("h$"+k, sto(h, t.obj, sto(old, t.off, freshConst("hc", arrElem(arrElem(h.sort))))))
		case t.lo != nil:
			x.recordWriteRange(s, k, t.obj, t.lo, t.hi)
			na := freshConst("ha$"+k, old.sort)
			q := mk("i!q", sInt)
			sn := mk("select", arrElem(old.sort), na, q)
			x.assume(tTrue, mkQuant("forall", []string{"i!q Int"}, implies(or(lt(q, t.lo), le(t.hi, q)), eqRaw(sn, mk("select", arrElem(old.sort), old, q))), [][]*Term{{sn}}))
			s.heap[k] = x.name("h$"+k, sto(h, t.obj, na))
		default:
			x.recordWrite(s, k, t.obj, nil)
			s.heap[k] = x.name("h$"+k, sto(h, t.obj, freshConst("ha$"+k, old.sort)))
		}
	}
}

func (x *Exec) recordWriteRange(s *State, key string, obj, lo, hi *Term) {
	for _, o := range splitIte(obj) {
		for _, r := range x.rec {
			if r.keys[key] == nil {
				r.keys[key] = map[*Term]bool{}
			}
			r.keys[key][o] = true
		}
	}
	if x.modAny || x.dry > 0 || x.noFrame {
		return
	}
	r := x.rootObj(obj)
	if x.isFresh(r) {
		return
	}
	conds := []*Term{ge(r, x.entry.next), le(hi, lo)}
	for _, m := range x.modset {
		if !keyMatch(m.key, key) {
			continue
		}
		if m.obj == nil {
			return
		}
		c := eq(m.obj, obj)
		if m.off != nil {
			c = and(c, eq(m.off, lo), eq(hi, add(lo, num(1))))
		} else if m.lo != nil {
			c = and(c, le(m.lo, lo), le(hi, m.hi))
		}
		conds = append(conds, c)
	}
	x.oblige(s.pc, "frame", "", "write to a range of "+key+" within modifies", or(conds...))
}

func (x *Exec) builtin(fr *Frame, s *State, name string, c *ssa.CallCommon, args []Val, pos token.Pos, in ssa.Value) (Val, bool) {
	var rt types.Type = types.NewTuple()
	if in != nil {
		rt = in.Type()
	}
	switch name {
	case "len":
		return x.lenOf(s, args[0]), true
	case "cap":
		it := types.Typ[types.Int]
		switch u := args[0].T.Underlying().(type) {
		case *types.Slice:
			return Val{T: it, L: []*Term{args[0].L[3]}}, true
		case *types.Array:
			return Val{T: it, L: []*Term{num(u.Len())}}, true
		}
		v := x.freshVal(s, "cap", it)
		x.assume(s.pc, le(num(0), v.L[0]))
		return v, true
	case "append":
		if len(args) == 1 {
			return args[0], true
		}
		return x.appendCall(fr, s, args[0], args[1], rt, pos), true
	case "copy":
		return x.copyCall(fr, s, args[0], args[1]), true
	case "delete":
		mt := args[0].T.Underlying().(*types.Map)
		k := x.mapKey(args[1])
		m := args[0].L[0]
		dk, h := x.mapDom(s, mt)
		was := sel(sel(h, m), k)
		hl := x.heapGet(s, "M|len", arrSort(sInt))
		x.recordWrite(s, "M|len", m, nil)
		s.heap["M|len"] = x.name("h$maplen", sto(hl, m, sub(sel(hl, m), ite(was, num(1), num(0)))))
		x.recordWrite(s, dk, m, nil)
		s.heap[dk] = x.name("h$map", sto(h, m, sto(sel(h, m), k, tFalse)))
		return Val{T: types.NewTuple()}, true
	case "panic":
		if !(x.con != nil && x.con.allowPanic) {
			x.oblige(s.pc, "panic", x.p.pos(pos), "explicit panic unreachable", tFalse)
		}
		return Val{}, false
	case "close":
		x.assumed["channel close is not modelled"] = true
		return Val{T: types.NewTuple()}, true
	case "print", "println":
		return Val{T: types.NewTuple()}, true
	case "ssa:wrapnilchk":
		return args[0], true
	case "ssa:deferstack":
		return Val{T: rt, L: []*Term{num(0)}}, true
	case "recover":
		return x.freshVal(s, "recover", rt), true
	case "min", "max":
		r := args[0].L[0]
		for _, a := range args[1:] {
			if name == "min" {
				r = ite(le(r, a.L[0]), r, a.L[0])
			} else {
				r = ite(le(r, a.L[0]), a.L[0], r)
			}
		}
		return Val{T: rt, L: []*Term{r}}, true
	}
	panic(verr("builtin %s", name))
}
