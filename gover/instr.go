package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var strLits = map[string]*Term{}
var strLitVal = map[*Term]string{}
var strLitList []string

func strLit(s string) *Term {
	if t, ok := strLits[s]; ok {
		return t
	}
	t := namedConst(fmt.Sprintf("str$%d", len(strLits)), sInt)
	strLits[s] = t
	strLitVal[t] = s
	strLitList = append(strLitList, s)
	return t
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	return x.constOf(t, c.Value)
}

func (x *Exec) constOf(t types.Type, cv constant.Value) Val {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		if _, isI := t.Underlying().(*types.Interface); isI {
			panic(verr("constant of interface type"))
		}
		panic(verr("constant of type %s", t))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return Val{T: t, L: []*Term{boolT(constant.BoolVal(cv))}}
	case b.Info()&types.IsString != 0:
		return Val{T: t, L: []*Term{strLit(constant.StringVal(cv))}}
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(cv)
		n, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			panic(verr("bad int const %s", cv))
		}
		return Val{T: t, L: []*Term{bigNum(n)}}
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(cv)
		return Val{T: t, L: []*Term{namedConst("fc$"+sanitize(strings.ReplaceAll(fmt.Sprint(f), "-", "m")), sFlt)}}
	}
	panic(verr("constant of type %s", t))
}

func (x *Exec) val(fr *Frame, s *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		return Val{T: v.Type(), L: []*Term{x.globalId(v), num(0)}}
	case *ssa.Function:
		return Val{T: v.Type(), L: []*Term{x.fnId(v)}, Fn: v}
	case *ssa.Builtin:
		return Val{T: v.Type(), Raw: v.Name()}
	case *ssa.Parameter:
		for i, p := range fr.fn.Params {
			if p == v {
				return fr.params[i]
			}
		}
	case *ssa.FreeVar:
		for i, p := range fr.fn.FreeVars {
			if p == v {
				return fr.binds[i]
			}
		}
	case *ssa.Alloc:
		if r, ok := fr.vals[v]; ok {
			return r
		}
		return Val{T: v.Type(), Addr: &Addr{kind: aLocal, T: v.Type().Underlying().(*types.Pointer).Elem(), local: localKey{fr: fr, a: v}, lo: 0, hi: len(layout(v.Type().Underlying().(*types.Pointer).Elem()))}}
	}
	r, ok := fr.vals[v]
	if !ok {
		panic(verr("%s: value %s (%T) not available", fr.fn.Name(), v.Name(), v))
	}
	return r
}

var globalIds = map[string]int64{}

func (x *Exec) globalId(g *ssa.Global) *Term {
	k := g.Pkg.Pkg.Path() + "." + g.Name()
	id, ok := globalIds[k]
	if !ok {
		id = int64(len(globalIds) + 1)
		globalIds[k] = id
	}
	return num(id)
}

func (x *Exec) fnId(f *ssa.Function) *Term {
	id, ok := x.fnIds[f]
	if !ok {
		id = 2000 + len(x.fnIds)
		x.fnIds[f] = id
		x.fnById[int64(id)] = closureRec{fn: f}
	}
	return num(int64(id))
}

// allocEscapes: the address is used other than by direct load/store/field/index chains
func allocEscapes(a ssa.Value) bool {
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return true
			}
		case *ssa.Store:
			if r.Addr != a {
				return true
			}
		case *ssa.FieldAddr:
			if allocEscapes(r) {
				return true
			}
		case *ssa.IndexAddr:
			if allocEscapes(r) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

func (x *Exec) fieldAddr(base Val, field int, rt types.Type) Val {
	a := x.addrOf(base)
	st := a.T
	su := st.Underlying().(*types.Struct)
	ft := su.Field(field).Type()
	switch a.kind {
	case aLocal:
		lo, hi := fieldRange(su, field)
		return Val{T: rt, Addr: &Addr{kind: aLocal, T: ft, local: a.local, lo: a.lo + lo, hi: a.lo + hi}}
	case aMem:
		fk := fieldKey(st, field)
		if _, isS := ft.Underlying().(*types.Struct); isS {
			return Val{T: rt, L: []*Term{x.emb(fk, a.obj), a.off}}
		}
		if x.p.esc[fk] {
			if _, isA := ft.Underlying().(*types.Array); isA {
				return Val{T: rt, L: []*Term{x.embArr(fk, a.obj, a.off), num(0)}}
			}
			return Val{T: rt, L: []*Term{x.emb(fk, a.obj), a.off}}
		}
		return Val{T: rt, Addr: &Addr{kind: aField, T: ft, st: st, field: field, obj: a.obj, off: a.off}}
	case aElem:
		// field of an array element that is a struct
		lo, hi := fieldRange(su, field)
		return Val{T: rt, Addr: &Addr{kind: aElem, T: ft, parent: x.subLeaves(a.parent, lo, hi, ft), idx: a.idx}}
	}
	panic(verr("fieldAddr of %v", a.kind))
}

// subLeaves narrows the address of an array-of-structs to one field (as an array of that field)
func (x *Exec) subLeaves(a *Addr, lo, hi int, ft types.Type) *Addr {
	n := *a
	at := a.T.Underlying().(*types.Array)
	n.T = types.NewArray(ft, at.Len())
	switch a.kind {
	case aLocal:
		n.lo, n.hi = a.lo+lo, a.lo+hi
		return &n
	}
	panic(verr("array of structs in memory"))
}

func (x *Exec) lenOf(s *State, v Val) Val {
	it := types.Typ[types.Int]
	switch u := v.T.Underlying().(type) {
	case *types.Slice:
		return Val{T: it, L: []*Term{v.L[2]}}
	case *types.Basic:
		return Val{T: it, L: []*Term{x.strLen(v.L[0])}}
	case *types.Array:
		return Val{T: it, L: []*Term{num(u.Len())}}
	case *types.Pointer:
		return Val{T: it, L: []*Term{num(u.Elem().Underlying().(*types.Array).Len())}}
	case *types.Map:
		h := x.heapGet(s, "M|len", arrSort(sInt))
		t := sel(h, v.L[0])
		x.assume(s.pc, le(num(0), t))
		return Val{T: it, L: []*Term{t}}
	case *types.Chan:
		return x.freshVal(s, "chanlen", it)
	}
	panic(verr("len of %s", v.T))
}

func (x *Exec) strLen(t *Term) *Term {
	if s, ok := strLitVal[t]; ok {
		return num(int64(len(s)))
	}
	r := app("strlen", sInt, t)
	x.assume(tTrue, and(le(num(0), r), le(r, num(maxLen))))
	return r
}
func (x *Exec) strAt(t, i *Term) *Term {
	if s, ok := strLitVal[t]; ok && i.num != nil && i.num.IsInt64() {
		k := i.num.Int64()
		if k >= 0 && k < int64(len(s)) {
			return num(int64(s[k]))
		}
	}
	r := app("strat", sInt, t, i)
	return r
}

func (x *Exec) checkNil() bool { return x.con != nil && x.con.checkNil }

func (x *Exec) safety(fr *Frame, s *State, kind string, pos token.Pos, what string, c *Term) {
	if x.con != nil && x.con.skip[kind] {
		x.assumed["safety-"+kind+" of "+funcName(x.fn)+" not checked"] = true
		x.assume(s.pc, c)
		return
	}
	x.oblige(s.pc, kind, x.p.pos(pos), what, c)
}

func (x *Exec) derefOK(fr *Frame, s *State, v Val, pos token.Pos) {
	if v.Addr != nil {
		return
	}
	o := v.L[0]
	if o.num != nil && o.num.Sign() > 0 || x.isFresh(o) || strings.HasPrefix(o.op, "emb") {
		return
	}
	c := not(eq(o, num(0)))
	if x.checkNil() {
		x.oblige(s.pc, "nil", x.p.pos(pos), "non-nil pointer", c)
		return
	}
	x.assume(s.pc, c)
}

func (x *Exec) runBlock(fr *Frame, b *ssa.BasicBlock, s *State) []edgeState {
	fr.cur = b
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.DebugRef, *ssa.Phi:
		case *ssa.Alloc:
			et := in.Type().Underlying().(*types.Pointer).Elem()
			if allocEscapes(in) {
				if fr.con != nil || true {
				}
				o := x.allocZero(s, in.Comment, et)
				fr.vals[in] = Val{T: in.Type(), L: []*Term{o, num(0)}}
			} else {
				k := localKey{fr: fr, a: in}
				s.locals[k] = x.zero(et)
				x.recordLocal(k)
			}
		case *ssa.Store:
			a := x.val(fr, s, in.Addr)
			x.derefOK(fr, s, a, in.Pos())
			v := x.val(fr, s, in.Val)
			if v.Addr != nil {
				// a pointer to a register local kept in a local: allowed only as metadata
				ad := x.addrOf(a)
				if ad.kind == aLocal && v.Addr.kind != aLocal {
					panic(verr("%s: address of field kept in a variable", fr.fn.Name()))
				}
				panic(verr("%s: address of local kept in a variable", fr.fn.Name()))
			}
			v = x.nameVal(v)
			x.store(s, x.addrOf(a), v)
		case *ssa.If:
			c := x.val(fr, s, in.Cond).L[0]
			t, f := s.clone(), s
			t.pc = x.nameBig("pc", and(s.pc, c))
			f.pc = x.nameBig("pc", and(s.pc, not(c)))
			return []edgeState{{from: b, to: b.Succs[0], s: t}, {from: b, to: b.Succs[1], s: f}}
		case *ssa.Jump:
			return []edgeState{{from: b, to: b.Succs[0], s: s}}
		case *ssa.Return:
			var vs []Val
			for _, r := range in.Results {
				vs = append(vs, x.val(fr, s, r))
			}
			fr.rets = append(fr.rets, retState{s, vs, b})
			return nil
		case *ssa.Panic:
			if !(x.con != nil && x.con.allowPanic) {
				x.oblige(s.pc, "panic", x.p.pos(in.Pos()), "explicit panic unreachable", tFalse)
			}
			return nil
		case *ssa.RunDefers:
			ns := x.runDefers(fr, s)
			if ns == nil {
				return nil
			}
			*s = *ns
		case *ssa.Defer:
			d := deferRec{in: in, pc: s.pc}
			d.cl = x.calleeVal(fr, s, &in.Call)
			for _, a := range in.Call.Args {
				d.st = append(d.st, x.val(fr, s, a))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.MapUpdate:
			x.mapUpdate(fr, s, x.val(fr, s, in.Map), x.val(fr, s, in.Key), x.val(fr, s, in.Value), in.Pos())
		case *ssa.Send:
			v := x.val(fr, s, in.X)
			if ci, ok := x.cs.chans[typeKey(v.T)]; ok {
				env := (&specEnv{x: x, state: s, vars: map[string]Val{}}).with(ci.v, v)
				x.oblige(s.pc, "send", x.p.pos(in.Pos()), "value sent satisfies: "+ci.text, x.evalBool(env, ci.e))
			}
		case *ssa.Go:
			x.goStmt(fr, s, in)
		case ssa.Value:
			v, dead := x.evalInstr(fr, s, in)
			if dead {
				return nil
			}
			fr.vals[in] = v
		default:
			panic(verr("unsupported instruction %T", in))
		}
		if s.pc == tFalse {
			return nil
		}
	}
	return nil
}

func (x *Exec) nameVal(v Val) Val {
	for i, t := range v.L {
		if t.size(30) > 30 {
			nl := append([]*Term{}, v.L...)
			for j := i; j < len(nl); j++ {
				nl[j] = x.nameBig("t", nl[j])
			}
			v.L = nl
			break
		}
	}
	return v
}

func (x *Exec) runDefers(fr *Frame, s *State) *State {
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		taken := s.clone()
		taken.pc = x.nameBig("pc", and(s.pc, d.pc))
		_, ok := x.callWith(fr, taken, &d.in.Call, d.cl, d.st, d.in.Pos(), nil)
		if taken.pc == s.pc {
			if !ok {
				return nil
			}
			s = taken
			continue
		}
		skipped := s.clone()
		skipped.pc = x.nameBig("pc", and(s.pc, not(d.pc)))
		if !ok {
			s = skipped
			continue
		}
		s = x.merge([]*State{taken, skipped})
	}
	return s
}

func (x *Exec) evalInstr(fr *Frame, s *State, in ssa.Value) (Val, bool) {
	switch in := in.(type) {
	case *ssa.UnOp:
		return x.unop(fr, s, in), false
	case *ssa.BinOp:
		return x.binop(fr, s, in), false
	case *ssa.FieldAddr:
		b := x.val(fr, s, in.X)
		x.derefOK(fr, s, b, in.Pos())
		return x.fieldAddr(b, in.Field, in.Type()), false
	case *ssa.Field:
		v := x.val(fr, s, in.X)
		lo, hi := fieldRange(in.X.Type().Underlying().(*types.Struct), in.Field)
		return Val{T: in.Type(), L: v.L[lo:hi]}, false
	case *ssa.IndexAddr:
		b := x.val(fr, s, in.X)
		i := x.val(fr, s, in.Index).L[0]
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			x.safety(fr, s, "index", in.Pos(), "slice index in range", and(le(num(0), i), lt(i, b.L[2])))
			return Val{T: in.Type(), L: []*Term{b.L[0], x.nameBig("ix", x.ix(b.L[1], i))}}, false
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			x.safety(fr, s, "index", in.Pos(), "array index in range", and(le(num(0), i), lt(i, num(at.Len()))))
			x.derefOK(fr, s, b, in.Pos())
			a := x.addrOf(b)
			if a.kind == aMem {
				if a.off.num != nil && a.off.num.Sign() == 0 {
					return Val{T: in.Type(), L: []*Term{a.obj, i}}, false
				}
				panic(verr("index of array at non-zero offset"))
			}
			return Val{T: in.Type(), Addr: &Addr{kind: aElem, T: at.Elem(), parent: a, idx: i}}, false
		}
	case *ssa.Index:
		b := x.val(fr, s, in.X)
		i := x.val(fr, s, in.Index).L[0]
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			x.safety(fr, s, "index", in.Pos(), "array index in range", and(le(num(0), i), lt(i, num(u.Len()))))
			v := Val{T: in.Type()}
			for _, l := range b.L {
				v.L = append(v.L, sel(l, i))
			}
			x.assumeWF(s, v)
			return v, false
		case *types.Basic:
			x.safety(fr, s, "index", in.Pos(), "string index in range", and(le(num(0), i), lt(i, x.strLen(b.L[0]))))
			v := Val{T: in.Type(), L: []*Term{x.strAt(b.L[0], i)}}
			x.assumeWF(s, v)
			return v, false
		}
	case *ssa.Lookup:
		return x.lookup(fr, s, in), false
	case *ssa.Slice:
		return x.slice(fr, s, in), false
	case *ssa.MakeSlice:
		ln := x.val(fr, s, in.Len).L[0]
		cp := x.val(fr, s, in.Cap).L[0]
		x.safety(fr, s, "makelen", in.Pos(), "make: 0 <= len <= cap", and(le(num(0), ln), le(ln, cp)))
		x.assume(s.pc, le(cp, num(maxLen)))
		o := x.allocZero(s, "make", in.Type().Underlying().(*types.Slice).Elem())
		return Val{T: in.Type(), L: []*Term{o, num(0), ln, cp}}, false
	case *ssa.MakeMap:
		o := x.alloc(s, "map")
		x.mapInit(s, o, in.Type())
		return Val{T: in.Type(), L: []*Term{o}}, false
	case *ssa.MakeChan:
		o := x.alloc(s, "chan")
		return Val{T: in.Type(), L: []*Term{o}}, false
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		var bs []Val
		for _, b := range in.Bindings {
			bv := x.val(fr, s, b)
			bs = append(bs, bv)
		}
		o := x.alloc(s, "closure")
		return Val{T: in.Type(), L: []*Term{o}, Fn: fn, Bind: bs}, false
	case *ssa.MakeInterface:
		v := x.val(fr, s, in.X)
		return x.makeIface(s, v, in.Type()), false
	case *ssa.ChangeInterface:
		v := x.val(fr, s, in.X)
		v.T = in.Type()
		return v, false
	case *ssa.ChangeType:
		v := x.val(fr, s, in.X)
		v.T = in.Type()
		return v, false
	case *ssa.Convert:
		return x.convert(fr, s, x.val(fr, s, in.X), in.Type()), false
	case *ssa.TypeAssert:
		return x.typeAssert(fr, s, in), false
	case *ssa.Extract:
		v := x.val(fr, s, in.Tuple)
		tt := in.Tuple.Type().(*types.Tuple)
		lo, hi := tupleRange(tt, in.Index)
		return Val{T: in.Type(), L: v.L[lo:hi]}, false
	case *ssa.Call:
		v, ok := x.call(fr, s, &in.Call, in.Pos(), in)
		return v, !ok
	case *ssa.Range:
		v := x.val(fr, s, in.X)
		return Val{T: in.Type(), L: v.L, Raw: "range"}, false
	case *ssa.Next:
		return x.next(fr, s, in), false
	case *ssa.Select:
		x.assumed["channel operations (select) return arbitrary values"] = true
		v := x.freshVal(s, "select", in.Type())
		n := len(in.States)
		lo := 0
		if !in.Blocking {
			lo = -1
		}
		x.assume(s.pc, and(le(num(int64(lo)), v.L[0]), lt(v.L[0], num(int64(n)))))
		return v, false
	}
	panic(verr("unsupported instruction %T (%s)", in, in))
}

// ix is slice offset + index; kept as a trigger-friendly function when the
// offset is symbolic.
func (x *Exec) ix(off, i *Term) *Term {
	if off.num != nil {
		return add(off, i)
	}
	return app("ix", sInt, off, i)
}

func (x *Exec) unop(fr *Frame, s *State, in *ssa.UnOp) Val {
	v := x.val(fr, s, in.X)
	switch in.Op {
	case token.MUL:
		x.derefOK(fr, s, v, in.Pos())
		return x.load(s, x.addrOf(v))
	case token.NOT:
		return Val{T: in.Type(), L: []*Term{not(v.L[0])}}
	case token.SUB:
		if v.L[0].sort == sFlt {
			return Val{T: in.Type(), L: []*Term{app("fneg", sFlt, v.L[0])}}
		}
		return x.wrapVal(s, in.Type(), neg(v.L[0]))
	case token.XOR:
		_, hi, _, signed, _ := intRange(in.Type())
		if signed {
			return Val{T: in.Type(), L: []*Term{sub(num(-1), v.L[0])}}
		}
		return Val{T: in.Type(), L: []*Term{sub(hi, v.L[0])}}
	case token.ARROW:
		r := x.freshVal(s, "recv", in.Type())
		et := in.X.Type().Underlying().(*types.Chan).Elem()
		if ci, ok := x.cs.chans[typeKey(et)]; ok {
			v, c := r, tTrue
			if in.CommaOk {
				n := len(r.L) - 1
				v, c = Val{T: et, L: r.L[:n]}, r.L[n]
			}
			env := (&specEnv{x: x, state: s, vars: map[string]Val{}}).with(ci.v, v)
			x.assumed["values received from a channel of "+typeKey(et)+" satisfy what is proved for the values sent"] = true
			x.assume(s.pc, implies(c, x.evalBool(env, ci.e)))
		} else {
			x.assumed["values received from channels are arbitrary"] = true
		}
		return r
	}
	panic(verr("unop %s", in.Op))
}

// wrapVal reduces a mathematical result into the Go integer type
func (x *Exec) wrapVal(s *State, t types.Type, r *Term) Val {
	lo, hi, bits, signed, ok := intRange(t)
	if !ok {
		return Val{T: t, L: []*Term{r}}
	}
	if r.num != nil {
		return Val{T: t, L: []*Term{wrapMod(r, bits, signed)}}
	}
	if bits == 64 && signed {
		x.assumed["64-bit signed arithmetic treated as mathematical (no overflow)"] = true
		return Val{T: t, L: []*Term{r}}
	}
	_ = lo
	_ = hi
	return Val{T: t, L: []*Term{wrapMod(r, bits, signed)}}
}

func wrapMod(r *Term, bits int, signed bool) *Term {
	m := bigNum(pow2b(bits))
	if !signed {
		return emod(r, m)
	}
	h := bigNum(pow2b(bits - 1))
	return sub(emod(add(r, h), m), h)
}

// wrapNear is wrapMod for results within one modulus of the range.
func wrapNear(r *Term, t types.Type) *Term {
	lo, hi, bits, _, _ := intRange(t)
	if r.num != nil {
		_, _, _, sg, _ := intRange(t)
		return wrapMod(r, bits, sg)
	}
	m := bigNum(pow2b(bits))
	return ite(lt(hi, r), sub(r, m), ite(lt(r, lo), add(r, m), r))
}

func bit(v *Term, k int) *Term { return emod(ediv(v, bigNum(pow2b(k))), num(2)) }

func pow2Term(v *Term, bits int) *Term {
	if v.num != nil {
		if v.num.Sign() < 0 || v.num.Cmp(big.NewInt(int64(bits))) >= 0 {
			return num(0)
		}
		return bigNum(pow2b(int(v.num.Int64())))
	}
	t := num(0)
	for k := bits - 1; k >= 0; k-- {
		t = ite(eq(v, num(int64(k))), bigNum(pow2b(k)), t)
	}
	return t
}

func trailingOnes(n *big.Int) int {
	k := 0
	for n.Bit(k) == 1 {
		k++
	}
	if new(big.Int).Add(n, big.NewInt(1)).Cmp(pow2b(k)) == 0 {
		return k
	}
	return -1
}

func (x *Exec) bitop(s *State, op token.Token, a, b *Term, t types.Type) *Term {
	_, _, bits, signed, _ := intRange(t)
	if a.num != nil && b.num == nil {
		a, b = b, a
		if op == token.AND_NOT {
			// const &^ x = const & (~x)
			b2 := a
			_ = b2
			a, b = b, a
			return x.bitopBits(op, a, b, bits, signed)
		}
	}
	if b.num != nil {
		c := b.num
		if c.Sign() < 0 {
			c = new(big.Int).And(c, new(big.Int).Sub(pow2b(bits), big.NewInt(1)))
		}
		if a.num != nil {
			r := new(big.Int)
			switch op {
			case token.AND:
				r.And(a.num, b.num)
			case token.OR:
				r.Or(a.num, b.num)
			case token.XOR:
				r.Xor(a.num, b.num)
			case token.AND_NOT:
				r.AndNot(a.num, b.num)
			}
			return wrapMod(bigNum(r), bits, signed)
		}
		if c.Sign() == 0 {
			if op == token.AND {
				return num(0)
			}
			return a
		}
		if op == token.AND {
			if k := trailingOnes(c); k > 0 {
				if k < bits || !signed {
					return emod(a, bigNum(pow2b(k)))
				}
				return a
			}
		}
		// bits set in c
		nset := 0
		for k := 0; k < bits; k++ {
			if c.Bit(k) == 1 {
				nset++
			}
		}
		if nset <= 20 && !(signed && c.Bit(bits-1) == 1) {
			switch op {
			case token.AND:
				r := num(0)
				// group contiguous runs
				for k := 0; k < bits; {
					if c.Bit(k) == 0 {
						k++
						continue
					}
					j := k
					for j < bits && c.Bit(j) == 1 {
						j++
					}
					r = add(r, mul(bigNum(pow2b(k)), emod(ediv(a, bigNum(pow2b(k))), bigNum(pow2b(j-k)))))
					k = j
				}
				return r
			case token.OR:
				r := a
				for k := 0; k < bits; k++ {
					if c.Bit(k) == 1 {
						r = add(r, mul(bigNum(pow2b(k)), sub(num(1), bit(a, k))))
					}
				}
				return r
			case token.AND_NOT:
				r := a
				for k := 0; k < bits; k++ {
					if c.Bit(k) == 1 {
						r = sub(r, mul(bigNum(pow2b(k)), bit(a, k)))
					}
				}
				return r
			case token.XOR:
				r := a
				for k := 0; k < bits; k++ {
					if c.Bit(k) == 1 {
						r = add(r, mul(bigNum(pow2b(k)), sub(num(1), mul(num(2), bit(a, k)))))
					}
				}
				return r
			}
		}
		if op == token.AND {
			// complement form: a & c = a - (a & ~c)
			nc := new(big.Int).AndNot(new(big.Int).Sub(pow2b(bits), big.NewInt(1)), c)
			n2 := 0
			for k := 0; k < bits; k++ {
				if nc.Bit(k) == 1 {
					n2++
				}
			}
			if n2 <= 20 {
				return x.bitop(s, token.AND_NOT, a, bigNum(nc), t)
			}
		}
	}
	if bits <= 16 && !signed {
		return x.bitopBits(op, a, b, bits, signed)
	}
	// wide operands: uninterpreted with basic bounds
	f := map[token.Token]string{token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor", token.AND_NOT: "bvandn"}[op] + fmt.Sprint(bits)
	r := app(f+"$i", sInt, a, b)
	nn := and(le(num(0), a), le(num(0), b))
	switch op {
	case token.AND:
		x.assume(s.pc, implies(nn, and(le(num(0), r), le(r, a), le(r, b))))
		x.assume(s.pc, implies(and(le(num(0), a)), and(le(num(0), r), le(r, a))))
		if !signed {
			for k := 0; k < bits; k++ {
				m := bigNum(pow2b(k))
				x.assume(s.pc, implies(eq(b, sub(m, num(1))), eq(r, emod(a, m))))
			}
		}
	case token.OR:
		x.assume(s.pc, implies(nn, and(le(a, r), le(b, r), le(r, add(a, b)))))
		x.assume(s.pc, and(implies(eq(a, num(0)), eq(r, b)), implies(eq(b, num(0)), eq(r, a))))
		x.assume(s.pc, implies(eq(r, num(0)), and(eq(a, num(0)), eq(b, num(0)))))
		if !signed && bits == 32 {
			for k := 0; k < bits; k++ {
				m := bigNum(pow2b(k))
				x.assume(s.pc, eq(lt(r, m), and(lt(a, m), lt(b, m))))
				x.assume(s.pc, implies(eq(b, m), eq(r, add(a, mul(m, sub(num(1), bit(a, k)))))))
				x.assume(s.pc, implies(eq(ediv(b, m), num(1)), eq(ediv(r, m), add(ediv(a, m), sub(num(1), emod(ediv(a, m), num(2)))))))
			}
		}
	case token.XOR:
		x.assume(s.pc, eq(eq(r, num(0)), eq(a, b)))
		if signed {
			x.assume(s.pc, eq(lt(r, num(0)), not(eq(lt(a, num(0)), lt(b, num(0))))))
		}
	case token.AND_NOT:
		x.assume(s.pc, implies(nn, and(le(num(0), r), le(r, a))))
	}
	lo, hi, _, _, _ := intRange(t)
	x.assume(s.pc, and(le(lo, r), le(r, hi)))
	return r
}

func (x *Exec) bitopBits(op token.Token, a, b *Term, bits int, signed bool) *Term {
	if signed || bits > 16 {
		panic(verr("bit operation on wide symbolic operands"))
	}
	r := num(0)
	for k := 0; k < bits; k++ {
		p, q := eq(bit(a, k), num(1)), eq(bit(b, k), num(1))
		var c *Term
		switch op {
		case token.AND:
			c = and(p, q)
		case token.OR:
			c = or(p, q)
		case token.XOR:
			c = not(eq(p, q))
		case token.AND_NOT:
			c = and(p, not(q))
		}
		r = add(r, mul(bigNum(pow2b(k)), ite(c, num(1), num(0))))
	}
	return r
}

func (x *Exec) binop(fr *Frame, s *State, in *ssa.BinOp) Val {
	a, b := x.val(fr, s, in.X), x.val(fr, s, in.Y)
	t := in.Type()
	one := func(r *Term) Val { return Val{T: t, L: []*Term{r}} }
	switch in.Op {
	case token.EQL, token.NEQ:
		c := x.eqVals(s, a, b)
		if in.Op == token.NEQ {
			c = not(c)
		}
		return one(c)
	}
	p, q := a.L[0], b.L[0]
	if p.sort == sFlt {
		return one(x.floatOp(s, in.Op, p, q))
	}
	if bt, ok := a.T.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		switch in.Op {
		case token.ADD:
			r := app("strcat", sInt, p, q)
			x.assume(tTrue, eq(app("strlen", sInt, r), add(x.strLen(p), x.strLen(q))))
			return one(r)
		default:
			return one(app("strcmp$"+in.Op.String()[:1], sBool, p, q))
		}
	}
	wide := func(r *Term) Val { // + - on near-range results
		_, _, bits, signed, ok := intRange(t)
		if ok && bits == 64 && signed {
			x.assumed["64-bit signed arithmetic treated as mathematical (no overflow)"] = true
			return one(r)
		}
		if !ok {
			return one(r)
		}
		return one(x.nameBig("w", wrapNear(r, t)))
	}
	switch in.Op {
	case token.ADD:
		return wide(add(p, q))
	case token.SUB:
		return wide(sub(p, q))
	case token.MUL:
		r := mul(p, q)
		_, _, bits, signed, ok := intRange(t)
		if ok && bits == 64 {
			x.assumed["64-bit multiplication treated as mathematical (no overflow)"] = true
			return one(r)
		}
		if !ok {
			return one(r)
		}
		return one(x.nameBig("w", wrapMod(r, bits, signed)))
	case token.QUO, token.REM:
		x.safety(fr, s, "div", in.Pos(), "division by non-zero", not(eq(q, num(0))))
		d := tdiv(p, q, t)
		if in.Op == token.QUO {
			return one(x.nameBig("q", d))
		}
		if isUnsigned(t) {
			return one(emod(p, q))
		}
		if q.num != nil && q.num.Sign() > 0 {
			return one(ite(le(num(0), p), emod(p, q), neg(emod(neg(p), q))))
		}
		return one(x.nameBig("r", sub(p, mul(q, d))))
	case token.LSS:
		return one(lt(p, q))
	case token.LEQ:
		return one(le(p, q))
	case token.GTR:
		return one(lt(q, p))
	case token.GEQ:
		return one(le(q, p))
	case token.SHL:
		_, _, bits, signed, _ := intRange(t)
		x.shiftOK(fr, s, b, in.Pos())
		if q.num != nil {
			if q.num.Cmp(big.NewInt(int64(bits))) >= 0 {
				return one(num(0))
			}
			r := mul(bigNum(pow2b(int(q.num.Int64()))), p)
			if bits == 64 {
				x.assumed["64-bit multiplication treated as mathematical (no overflow)"] = true
				return one(r)
			}
			return one(wrapMod(r, bits, signed))
		}
		if p.num != nil && p.num.IsInt64() && p.num.Int64() == 1 {
			r := pow2Term(q, bits)
			if signed {
				r = wrapMod(r, bits, signed)
			}
			return one(x.nameBig("sh", r))
		}
		// ite over shift amounts
		if bits <= 16 {
			r := num(0)
			for k := bits - 1; k >= 0; k-- {
				r = ite(eq(q, num(int64(k))), wrapMod(mul(bigNum(pow2b(k)), p), bits, signed), r)
			}
			return one(x.nameBig("sh", r))
		}
		return one(x.nameBig("sh", wrapMod(mul(p, pow2Term(q, bits)), bits, signed)))
	case token.SHR:
		_, _, bits, _, _ := intRange(t)
		x.shiftOK(fr, s, b, in.Pos())
		if q.num != nil {
			if q.num.Cmp(big.NewInt(int64(bits))) >= 0 {
				return one(ite(le(num(0), p), num(0), num(-1)))
			}
			return one(ediv(p, bigNum(pow2b(int(q.num.Int64())))))
		}
		r := ite(le(num(0), p), num(0), num(-1))
		for k := bits - 1; k >= 0; k-- {
			r = ite(eq(q, num(int64(k))), ediv(p, bigNum(pow2b(k))), r)
		}
		return one(x.nameBig("sh", r))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if in.Op == token.AND { // v & (1 << k): one bit
			for i, o := range []ssa.Value{in.X, in.Y} {
				sh, ok := o.(*ssa.BinOp)
				if !ok || sh.Op != token.SHL {
					continue
				}
				c, ok := sh.X.(*ssa.Const)
				_, _, bits, signed, _ := intRange(t)
				if !ok || c.Value == nil || c.Value.String() != "1" || signed || bits > 16 {
					continue
				}
				k := x.val(fr, s, sh.Y).L[0]
				v := []*Term{q, p}[i]
				if k.num != nil {
					break
				}
				r := num(0)
				for j := bits - 1; j >= 0; j-- {
					r = ite(eq(k, num(int64(j))), mul(bigNum(pow2b(j)), bit(v, j)), r)
				}
				return one(r)
			}
		}
		if p.sort == sBool {
			panic(verr("bool bitop"))
		}
		return one(x.nameBig("bo", x.bitop(s, in.Op, p, q, t)))
	}
	panic(verr("binop %s", in.Op))
}

func (x *Exec) shiftOK(fr *Frame, s *State, b Val, pos token.Pos) {
	if !isUnsigned(b.T) && b.L[0].num == nil {
		x.safety(fr, s, "shift", pos, "shift count non-negative", le(num(0), b.L[0]))
	}
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func tdiv(p, q *Term, t types.Type) *Term {
	if isUnsigned(t) {
		return ediv(p, q)
	}
	if q.num != nil && q.num.Sign() > 0 {
		if p.num != nil && p.num.Sign() >= 0 {
			return ediv(p, q)
		}
		return ite(le(num(0), p), ediv(p, q), neg(ediv(neg(p), q)))
	}
	pos := ite(le(num(0), p), ediv(p, q), neg(ediv(neg(p), q)))
	ng := ite(le(num(0), p), neg(ediv(p, neg(q))), ediv(neg(p), neg(q)))
	return ite(lt(num(0), q), pos, ng)
}

func (x *Exec) floatOp(s *State, op token.Token, p, q *Term) *Term {
	x.assumed["floating point is uninterpreted"] = true
	switch op {
	case token.ADD:
		return app("fadd", sFlt, p, q)
	case token.SUB:
		return app("fsub", sFlt, p, q)
	case token.MUL:
		return app("fmul", sFlt, p, q)
	case token.QUO:
		return app("fdiv", sFlt, p, q)
	case token.LSS:
		return app("flt", sBool, p, q)
	case token.GTR:
		return app("flt", sBool, q, p)
	case token.LEQ:
		return app("fle", sBool, p, q)
	case token.GEQ:
		return app("fle", sBool, q, p)
	}
	panic(verr("float op %s", op))
}

func (x *Exec) eqVals(s *State, a, b Val) *Term {
	if len(a.L) != len(b.L) {
		// comparing with nil constant of different layout
		if len(b.L) == 1 && b.L[0].num != nil {
			return eq(a.L[0], num(0))
		}
		if len(a.L) == 1 && a.L[0].num != nil {
			return eq(b.L[0], num(0))
		}
		panic(verr("comparison of %s and %s", a.T, b.T))
	}
	switch a.T.Underlying().(type) {
	case *types.Slice:
		return eq(a.L[0], b.L[0]) // only comparison with nil is legal
	case *types.Interface:
		// tag 0 is nil
		if b.L[0].num != nil && b.L[0].num.Sign() == 0 {
			return eq(a.L[0], num(0))
		}
		if a.L[0].num != nil && a.L[0].num.Sign() == 0 {
			return eq(b.L[0], num(0))
		}
		// boxed values: identity implies equality, otherwise unknown
		r := app("ifaceeq", sBool, a.L[0], a.L[1], a.L[2], b.L[0], b.L[1], b.L[2])
		x.assume(tTrue, implies(and(eq(a.L[0], b.L[0]), eq(a.L[1], b.L[1]), eq(a.L[2], b.L[2])), r))
		x.assume(tTrue, implies(r, eq(a.L[0], b.L[0])))
		return r
	case *types.Array:
		at := a.T.Underlying().(*types.Array)
		var cs []*Term
		for i := range a.L {
			for k := int64(0); k < at.Len(); k++ {
				cs = append(cs, eq(sel(a.L[i], num(k)), sel(b.L[i], num(k))))
			}
		}
		return and(cs...)
	case *types.Pointer:
		if b.L[0].num != nil && b.L[0].num.Sign() == 0 {
			return eq(a.L[0], num(0))
		}
		if a.L[0].num != nil && a.L[0].num.Sign() == 0 {
			return eq(b.L[0], num(0))
		}
	}
	if a.Addr != nil || b.Addr != nil {
		panic(verr("comparison of local addresses"))
	}
	var cs []*Term
	ls := layout(a.T)
	for i := range a.L {
		if ls[i].kind == 'f' {
			cs = append(cs, app("feq", sBool, a.L[i], b.L[i]))
			continue
		}
		if ls[i].kind == 'a' {
			panic(verr("comparison of struct with array"))
		}
		cs = append(cs, eq(a.L[i], b.L[i]))
	}
	return and(cs...)
}

func (x *Exec) convert(fr *Frame, s *State, v Val, t types.Type) Val {
	from, to := v.T.Underlying(), t.Underlying()
	one := func(r *Term) Val { return Val{T: t, L: []*Term{r}} }
	fb, fok := from.(*types.Basic)
	tb, tok := to.(*types.Basic)
	switch {
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		flo, fhi, fbits, _, ok1 := intRange(v.T)
		tlo, thi, bits, signed, ok2 := intRange(t)
		if !ok2 {
			return one(v.L[0])
		}
		if ok1 && tlo.num.Cmp(flo.num) <= 0 && thi.num.Cmp(fhi.num) >= 0 {
			return one(v.L[0])
		}
		if ok1 && fbits == bits {
			return one(x.nameBig("cv", wrapNear(v.L[0], t)))
		}
		return one(x.nameBig("cv", wrapMod(v.L[0], bits, signed)))
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
		return one(app("i2f", sFlt, v.L[0]))
	case fok && tok && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
		r := one(app("f2i$"+tb.Name(), sInt, v.L[0]))
		x.assumeWF(s, r)
		return r
	case fok && tok && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
		if fb.Kind() == tb.Kind() {
			return one(v.L[0])
		}
		return one(app("fcv$"+tb.Name(), sFlt, v.L[0]))
	case fok && fb.Info()&types.IsString != 0 && tok && tb.Info()&types.IsString != 0:
		return one(v.L[0])
	case tok && tb.Info()&types.IsString != 0:
		if sl, ok := from.(*types.Slice); ok {
			if bt, ok := sl.Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
				h := x.heapGet(s, "E|"+typeKey(sl.Elem()), sInt)
				r := app("strof", sInt, sel(h, v.L[0]), v.L[1], v.L[2])
				x.assume(tTrue, eq(app("strlen", sInt, r), v.L[2]))
				return one(r)
			}
			return x.freshVal(s, "str", t)
		}
		return x.freshVal(s, "str", t)
	case fok && fb.Info()&types.IsString != 0:
		if sl, ok := to.(*types.Slice); ok {
			o := x.alloc(s, "bytes")
			bt, _ := sl.Elem().Underlying().(*types.Basic)
			if bt != nil && bt.Kind() == types.Uint8 {
				key := "E|" + typeKey(sl.Elem())
				h := x.heapGet(s, key, sInt)
				arr := freshConst("bytes", arrSort(sInt))
				n := x.strLen(v.L[0])
				q := mk("i!q", sInt)
				x.assume(tTrue, mkQuant("forall", []string{"i!q Int"}, implies(and(le(num(0), q), lt(q, n)), eqRaw(mk("select", sInt, arr, q), app("strat", sInt, v.L[0], q))), [][]*Term{{mk("select", sInt, arr, q)}}))
				if lit, ok := strLitVal[v.L[0]]; ok && len(lit) <= 64 {
					for i := 0; i < len(lit); i++ {
						x.assume(tTrue, eq(sel(arr, num(int64(i))), num(int64(lit[i]))))
					}
				}
				x.recordWrite(s, key, o, nil)
				s.heap[key] = x.name("h$"+key, sto(h, o, arr))
				cp := freshConst("cap", sInt)
				x.assume(tTrue, and(le(n, cp), le(cp, num(maxLen))))
				return Val{T: t, L: []*Term{o, num(0), n, cp}}
			}
			r := x.freshVal(s, "runes", t)
			x.assume(tTrue, and(le(r.L[2], x.strLen(v.L[0])), eq(r.L[0], o), eq(eq(r.L[2], num(0)), eq(x.strLen(v.L[0]), num(0)))))
			return r
		}
	}
	if _, ok := from.(*types.Pointer); ok {
		v.T = t
		return v
	}
	if len(layout(t)) == len(v.L) {
		v.T = t
		return v
	}
	panic(verr("conversion %s -> %s", v.T, t))
}

var typeTags = map[string]int64{}
var typeTagType = map[int64]types.Type{}

func typeTag(t types.Type) *Term {
	k := typeKey(t)
	id, ok := typeTags[k]
	if !ok {
		id = int64(len(typeTags) + 1)
		typeTags[k] = id
		typeTagType[id] = t
	}
	return num(id)
}

func (x *Exec) makeIface(s *State, v Val, t types.Type) Val {
	tag := typeTag(v.T)
	if _, ok := v.T.Underlying().(*types.Pointer); ok {
		if v.Addr != nil {
			panic(verr("address of local in interface"))
		}
		return Val{T: t, L: []*Term{tag, v.L[0], v.L[1]}}
	}
	if _, ok := v.T.Underlying().(*types.Signature); ok {
		return Val{T: t, L: []*Term{tag, v.L[0], num(0)}}
	}
	// A boxed value never changes, so the box is a function of the value; the
	// inverse functions recover the leaves. Box numbers are negative: they are
	// never the number of an allocated object.
	ls := layout(v.T)
	o := app(symName("box$"+typeKey(v.T)), sInt, v.L...)
	fs := []*Term{lt(o, num(0))}
	for i, l := range ls {
		fs = append(fs, eq(app(symName("unbox$"+typeKey(v.T)+l.path), l.sort, o), v.L[i]))
	}
	x.assume(tTrue, and(fs...))
	return Val{T: t, L: []*Term{tag, o, num(0)}}
}

func (x *Exec) unbox(s *State, v Val, t types.Type) Val {
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return Val{T: t, L: []*Term{v.L[1], v.L[2]}}
	}
	if _, ok := t.Underlying().(*types.Signature); ok {
		return Val{T: t, L: []*Term{v.L[1]}}
	}
	r := Val{T: t}
	for _, l := range layout(t) {
		r.L = append(r.L, app(symName("unbox$"+typeKey(t)+l.path), l.sort, v.L[1]))
	}
	x.assumeWF(s, r)
	return r
}

func (x *Exec) typeAssert(fr *Frame, s *State, in *ssa.TypeAssert) Val {
	v := x.val(fr, s, in.X)
	if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		ok := freshConst("assertok", sBool)
		if tg := v.L[0]; tg.num != nil && tg.num.Sign() > 0 {
			ok = boolT(types.Implements(typeTagType[tg.num.Int64()], in.AssertedType.Underlying().(*types.Interface)))
		} else {
			x.assume(tTrue, implies(eq(v.L[0], num(0)), not(ok)))
		}
		r := Val{T: in.AssertedType, L: v.L}
		if in.CommaOk {
			z := x.zero(in.AssertedType)
			var l []*Term
			for i := range r.L {
				l = append(l, ite(ok, r.L[i], z.L[i]))
			}
			return Val{T: in.Type(), L: append(l, ok)}
		}
		x.safety(fr, s, "assert", in.Pos(), "type assertion holds", ok)
		return r
	}
	ok := eq(v.L[0], typeTag(in.AssertedType))
	r := x.unbox(s, v, in.AssertedType)
	if in.CommaOk {
		z := x.zero(in.AssertedType)
		var l []*Term
		for i := range r.L {
			l = append(l, ite(ok, r.L[i], z.L[i]))
		}
		return Val{T: in.Type(), L: append(l, ok)}
	}
	x.safety(fr, s, "assert", in.Pos(), "type assertion holds", ok)
	return r
}

// ---------- maps ----------

func (x *Exec) mapKey(v Val) *Term {
	if len(v.L) == 1 {
		return v.L[0]
	}
	var ts []*Term
	for i, l := range layout(v.T) {
		if l.kind == 'a' {
			// small byte arrays: expand
			at, ok := v.T.Underlying().(*types.Array)
			if !ok {
				panic(verr("map key %s", v.T))
			}
			for k := int64(0); k < at.Len(); k++ {
				ts = append(ts, sel(v.L[i], num(k)))
			}
			continue
		}
		ts = append(ts, v.L[i])
	}
	if len(ts) == 1 {
		return ts[0]
	}
	f := "mkey$" + sanitize(typeKey(v.T))
	r := app(f, sInt, ts...)
	for i, t := range ts {
		inv := app(fmt.Sprintf("%s$inv%d", f, i), t.sort, r)
		x.assume(tTrue, eq(inv, t))
	}
	return r
}

func mapElemKeys(mt *types.Map) (string, string) {
	k := typeKey(mt.Key()) + "=>" + typeKey(mt.Elem())
	return "M|dom|" + k, "M|val|" + k
}

func (x *Exec) keySort(mt *types.Map) string {
	l := layout(mt.Key())
	if len(l) == 1 && l[0].kind != 'a' {
		return l[0].sort
	}
	return sInt
}

func (x *Exec) mapDom(s *State, mt *types.Map) (string, *Term) {
	d, _ := mapElemKeys(mt)
	if x.keySort(mt) != sInt {
		panic(verr("map key sort %s", mt.Key()))
	}
	return d, x.heapGet(s, d, arrSort(arrSort(sBool)))
}

func (x *Exec) mapInit(s *State, o *Term, t types.Type) {
	mt := t.Underlying().(*types.Map)
	dk, h := x.mapDom(s, mt)
	x.recordWrite(s, dk, o, nil)
	s.heap[dk] = x.name("h$map", sto(h, o, constArr(tFalse)))
	hl := x.heapGet(s, "M|len", arrSort(sInt))
	x.recordWrite(s, "M|len", o, nil)
	s.heap["M|len"] = x.name("h$maplen", sto(hl, o, num(0)))
}

func (x *Exec) mapGet(s *State, mt *types.Map, m, k *Term) (ok *Term, v Val) {
	_, h := x.mapDom(s, mt)
	_, vk := mapElemKeys(mt)
	ok = and(not(eq(m, num(0))), sel(sel(h, m), k))
	v = Val{T: mt.Elem()}
	z := x.zero(mt.Elem())
	raw := Val{T: mt.Elem()}
	for _, l := range layout(mt.Elem()) {
		hv := x.heapGet(s, vk+l.path, arrSort(arrSort(l.sort)))
		raw.L = append(raw.L, sel(sel(hv, m), k))
	}
	x.assumeWF(s, raw)
	for i := range raw.L {
		t := ite(ok, raw.L[i], z.L[i])
		if x.noWF == 0 {
			t = x.nameBig("mv", t)
		}
		v.L = append(v.L, t)
	}
	return
}

func (x *Exec) lookup(fr *Frame, s *State, in *ssa.Lookup) Val {
	m := x.val(fr, s, in.X)
	if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		i := x.val(fr, s, in.Index).L[0]
		x.safety(fr, s, "index", in.Pos(), "string index in range", and(le(num(0), i), lt(i, x.strLen(m.L[0]))))
		v := Val{T: in.Type(), L: []*Term{x.strAt(m.L[0], i)}}
		x.assumeWF(s, v)
		return v
	}
	mt := in.X.Type().Underlying().(*types.Map)
	k := x.mapKey(x.val(fr, s, in.Index))
	ok, v := x.mapGet(s, mt, m.L[0], k)
	if in.CommaOk {
		return Val{T: in.Type(), L: append(append([]*Term{}, v.L...), ok)}
	}
	return v
}

func (x *Exec) mapUpdate(fr *Frame, s *State, m, k, v Val, pos token.Pos) {
	if k.Addr != nil || v.Addr != nil {
		panic(verr("address of local stored in map"))
	}
	mt := m.T.Underlying().(*types.Map)
	x.safety(fr, s, "nilmap", pos, "map is not nil", not(eq(m.L[0], num(0))))
	x.mapSet(s, mt, m.L[0], x.mapKey(k), v)
}

func (x *Exec) mapSet(s *State, mt *types.Map, m, k *Term, v Val) {
	dk, h := x.mapDom(s, mt)
	_, vk := mapElemKeys(mt)
	was := sel(sel(h, m), k)
	hl := x.heapGet(s, "M|len", arrSort(sInt))
	x.recordWrite(s, "M|len", m, nil)
	s.heap["M|len"] = x.name("h$maplen", sto(hl, m, add(sel(hl, m), ite(was, num(0), num(1)))))
	x.recordWrite(s, dk, m, nil)
	s.heap[dk] = x.name("h$map", sto(h, m, sto(sel(h, m), k, tTrue)))
	for i, l := range layout(mt.Elem()) {
		hv := x.heapGet(s, vk+l.path, arrSort(arrSort(l.sort)))
		x.recordWrite(s, vk+l.path, m, nil)
		s.heap[vk+l.path] = x.name("h$mapv", sto(hv, m, sto(sel(hv, m), k, v.L[i])))
	}
}

func (x *Exec) next(fr *Frame, s *State, in *ssa.Next) Val {
	v := x.freshVal(s, "next", in.Type())
	rv := x.val(fr, s, in.Iter)
	rg, _ := in.Iter.(*ssa.Range)
	if in.IsString {
		ok, i := v.L[0], v.L[1]
		x.assume(s.pc, implies(ok, and(le(num(0), i), lt(i, x.strLen(rv.L[0])))))
		return v
	}
	mt := rg.X.Type().Underlying().(*types.Map)
	tt := in.Type().(*types.Tuple)
	lo, hi := tupleRange(tt, 1)
	ks := v.L[lo:hi]
	if len(ks) == 0 { // key unused (invalid type)
		kv := x.freshVal(s, "key", mt.Key())
		ks = kv.L
	}
	k := x.mapKey(Val{T: mt.Key(), L: ks})
	ok, mv := x.mapGet(s, mt, rv.L[0], k)
	lo, hi = tupleRange(tt, 2)
	var cs []*Term
	cs = append(cs, ok)
	for i, t := range v.L[lo:hi] {
		cs = append(cs, eq(t, mv.L[i]))
	}
	x.assume(s.pc, implies(v.L[0], and(cs...)))
	return v
}

// ---------- slices ----------

func (x *Exec) slice(fr *Frame, s *State, in *ssa.Slice) Val {
	v := x.val(fr, s, in.X)
	opt := func(o ssa.Value) *Term {
		if o == nil {
			return nil
		}
		return x.val(fr, s, o).L[0]
	}
	lo, hi, mx := opt(in.Low), opt(in.High), opt(in.Max)
	if lo == nil {
		lo = num(0)
	}
	var o, off, ln, cp *Term
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		o, off, ln, cp = v.L[0], v.L[1], v.L[2], v.L[3]
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		x.derefOK(fr, s, v, in.Pos())
		if v.Addr != nil {
			panic(verr("slicing a register array"))
		}
		o, off, ln, cp = v.L[0], v.L[1], num(at.Len()), num(at.Len())
	case *types.Basic:
		n := x.strLen(v.L[0])
		if hi == nil {
			hi = n
		}
		x.safety(fr, s, "slice", in.Pos(), "string slice in range", and(le(num(0), lo), le(lo, hi), le(hi, n)))
		r := app("strsub", sInt, v.L[0], lo, hi)
		x.assume(tTrue, implies(and(le(num(0), lo), le(lo, hi), le(hi, n)), eq(app("strlen", sInt, r), sub(hi, lo))))
		return Val{T: in.Type(), L: []*Term{r}}
	}
	if hi == nil {
		hi = ln
	}
	top := cp
	if mx != nil {
		top = mx
		x.safety(fr, s, "slice", in.Pos(), "slice bounds in range", and(le(num(0), lo), le(lo, hi), le(hi, mx), le(mx, cp)))
	} else {
		x.safety(fr, s, "slice", in.Pos(), "slice bounds in range", and(le(num(0), lo), le(lo, hi), le(hi, cp)))
	}
	noff := x.nameBig("off", add(off, lo))
	return Val{T: in.Type(), L: []*Term{o, noff, x.nameBig("len", sub(hi, lo)), x.nameBig("cap", sub(top, lo))}}
}

// elemKeys: memory cells of one element of a slice with element type et
func (x *Exec) elemCells(et types.Type, obj *Term) []cell {
	return x.memCells(et, obj, mk("dummyoff", sInt))
}

func (x *Exec) appendCall(fr *Frame, s *State, a, b Val, t types.Type, pos token.Pos) Val {
	et := t.Underlying().(*types.Slice).Elem()
	var blen *Term
	bStr := false
	if bb, ok := b.T.Underlying().(*types.Basic); ok && bb.Info()&types.IsString != 0 {
		blen = x.strLen(b.L[0])
		bStr = true
	} else {
		blen = b.L[2]
	}
	ao, aoff, aln, acp := a.L[0], a.L[1], a.L[2], a.L[3]
	nln := x.nameBig("alen", add(aln, blen))
	fits := x.nameBig("fits", le(nln, acp))
	if blen.num != nil && blen.num.Sign() == 0 {
		return Val{T: t, L: a.L}
	}
	fo := x.alloc(s, "append")
	newcap := freshConst("acap", sInt)
	x.assume(tTrue, and(le(nln, newcap), le(newcap, num(maxLen))))
	x.assume(s.pc, le(nln, num(maxLen)))
	ro := x.name("aobj", ite(fits, ao, fo))
	roff := x.nameBig("aoff", ite(fits, aoff, num(0)))
	rcp := x.nameBig("acp", ite(fits, acp, newcap))
	single := blen.num != nil && blen.num.IsInt64() && blen.num.Int64() <= 4
	cs := x.elemCells(et, ao)
	fcs := x.elemCells(et, fo)
	rcs := x.elemCells(et, ro)
	var bcs []cell
	if !bStr {
		bcs = x.elemCells(et, b.L[0])
	}
	for i := range cs {
		if cs[i].arr {
			panic(verr("append of structs with sliced array fields (%s)", cs[i].key))
		}
		key := cs[i].key
		h := x.heapGet(s, key, cs[i].sort)
		olda := sel(h, cs[i].obj)
		newa := freshConst("aarr$"+key, arrSort(cs[i].sort))
		q := mk("i!q", sInt)
		selN := mk("select", cs[i].sort, newa, q)
		// grown copy keeps the old elements at 0..len-1
		x.assume(tTrue, mkQuant("forall", []string{"i!q Int"}, implies(and(not(fits), le(num(0), q), lt(q, aln)), eqRaw(selN, mk("select", cs[i].sort, olda, x.ix(aoff, q)))), [][]*Term{{selN}}))
		if single {
			// in place: plain stores
			t1 := olda
			for k := int64(0); k < blen.num.Int64(); k++ {
				var e *Term
				if bStr {
					e = x.strAt(b.L[0], num(k))
				} else {
					e = sel(sel(h, bcs[i].obj), x.ix(b.L[1], num(k)))
				}
				t1 = sto(t1, add(add(aoff, aln), num(k)), e)
				x.assume(tTrue, implies(not(fits), eq(sel(newa, add(aln, num(k))), e)))
			}
			x.assume(tTrue, implies(fits, eq(newa, t1)))
		} else {
			x.assume(tTrue, mkQuant("forall", []string{"i!q Int"}, implies(and(fits, or(lt(q, add(aoff, aln)), le(add(aoff, nln), q))), eqRaw(selN, mk("select", cs[i].sort, olda, q))), [][]*Term{{selN}}))
			st := add(roff, aln)
			var e *Term
			if bStr {
				e = app("strat", sInt, b.L[0], sub(q, st))
			} else {
				e = mk("select", cs[i].sort, sel(h, bcs[i].obj), add(b.L[1], sub(q, st)))
			}
			x.assume(tTrue, mkQuant("forall", []string{"i!q Int"}, implies(and(le(st, q), lt(q, add(st, blen))), eqRaw(selN, e)), [][]*Term{{selN}}))
		}
		_ = fcs
		// frame: in-place write
		sv := x.rec
		if fits != tTrue {
			ps := s.clone()
			ps.pc = and(s.pc, fits)
			for _, o := range []*Term{cs[i].obj} {
				for _, r := range x.rec {
					if r.keys[key] == nil {
						r.keys[key] = map[*Term]bool{}
					}
					r.keys[key][o] = true
					r.keys[key][fcs[i].obj] = true
				}
				x.checkFrame(ps, key, o, nil)
			}
		}
		x.rec = sv
		s.heap[key] = x.name("h$"+key, sto(h, rcs[i].obj, newa))
	}
	return Val{T: t, L: []*Term{ro, roff, nln, rcp}}
}

func (x *Exec) copyCall(fr *Frame, s *State, d, b Val) Val {
	et := d.T.Underlying().(*types.Slice).Elem()
	var blen *Term
	bStr := false
	if bb, ok := b.T.Underlying().(*types.Basic); ok && bb.Info()&types.IsString != 0 {
		blen = x.strLen(b.L[0])
		bStr = true
	} else {
		blen = b.L[2]
	}
	n := x.nameBig("ncopy", ite(le(d.L[2], blen), d.L[2], blen))
	x.copyElems(s, et, d, b, bStr, n)
	return Val{T: types.Typ[types.Int], L: []*Term{n}}
}

func (x *Exec) copyElems(s *State, et types.Type, d, b Val, bStr bool, n *Term) {
	cs := x.elemCells(et, d.L[0])
	var bcs []cell
	if !bStr {
		bcs = x.elemCells(et, b.L[0])
	}
	for i := range cs {
		if cs[i].arr {
			panic(verr("copy of structs with sliced array fields"))
		}
		key := cs[i].key
		h := x.heapGet(s, key, cs[i].sort)
		olda := sel(h, cs[i].obj)
		newa := freshConst("carr$"+key, arrSort(cs[i].sort))
		q := mk("i!q", sInt)
		selN := mk("select", cs[i].sort, newa, q)
		var e *Term
		if bStr {
			e = app("strat", sInt, b.L[0], sub(q, d.L[1]))
		} else {
			e = mk("select", cs[i].sort, sel(h, bcs[i].obj), add(b.L[1], sub(q, d.L[1])))
		}
		in := and(le(d.L[1], q), lt(q, add(d.L[1], n)))
		x.assume(tTrue, mkQuant("forall", []string{"i!q Int"}, eqRaw(selN, ite(in, e, mk("select", cs[i].sort, olda, q))), [][]*Term{{selN}}))
		x.recordWrite(s, key, cs[i].obj, nil)
		s.heap[key] = x.name("h$"+key, sto(h, cs[i].obj, newa))
	}
}

// symName makes a type name usable as a solver symbol
func symName(s string) string {
	var sb strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '$', c == '.', c == '_':
			sb.WriteRune(c)
		default:
			fmt.Fprintf(&sb, "@%d", c)
		}
	}
	return sb.String()
}
