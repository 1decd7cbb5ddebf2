package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// leaf describes one SMT-level component of a Go value.
type leaf struct {
	path string // key suffix
	sort string
	typ  types.Type // scalar Go type (for range facts); nil for auxiliary leaves
	kind byte       // 'i' int, 'b' bool, 'f' float, 's' string, 'o' obj, 'n' offset, 'l' len, 'c' cap, 't' tag, 'm' map/chan/func ref, 'a' array
}

var layoutCache = map[types.Type][]leaf{}

func layout(t types.Type) []leaf {
	if l, ok := layoutCache[t]; ok {
		return l
	}
	l := layout0(t)
	layoutCache[t] = l
	return l
}

func layout0(t types.Type) []leaf {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []leaf{{"", sBool, t, 'b'}}
		case u.Info()&types.IsInteger != 0:
			return []leaf{{"", sInt, t, 'i'}}
		case u.Info()&types.IsFloat != 0:
			return []leaf{{"", sFlt, t, 'f'}}
		case u.Info()&types.IsString != 0:
			return []leaf{{"", sInt, t, 's'}}
		case u.Kind() == types.UnsafePointer:
			return []leaf{{"", sInt, nil, 'm'}}
		case u.Kind() == types.UntypedNil:
			return []leaf{{"", sInt, nil, 'm'}}
		case u.Kind() == types.Invalid:
			return nil
		}
	case *types.Pointer:
		return []leaf{{".o", sInt, nil, 'o'}, {".n", sInt, nil, 'n'}}
	case *types.Slice:
		return []leaf{{".o", sInt, nil, 'o'}, {".n", sInt, nil, 'n'}, {".l", sInt, nil, 'l'}, {".c", sInt, nil, 'c'}}
	case *types.Struct:
		var r []leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range layout(f.Type()) {
				l.path = "." + f.Name() + l.path
				r = append(r, l)
			}
		}
		return r
	case *types.Array:
		var r []leaf
		for _, l := range layout(u.Elem()) {
			r = append(r, leaf{"[]" + l.path, arrSort(l.sort), nil, 'a'})
		}
		return r
	case *types.Interface:
		return []leaf{{".t", sInt, nil, 't'}, {".o", sInt, nil, 'o'}, {".n", sInt, nil, 'n'}}
	case *types.Map, *types.Chan, *types.Signature:
		return []leaf{{"", sInt, nil, 'm'}}
	case *types.Tuple:
		var r []leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range layout(u.At(i).Type()) {
				l.path = fmt.Sprintf("#%d%s", i, l.path)
				r = append(r, l)
			}
		}
		return r
	}
	if strings.Contains(t.String(), "deferStack") || strings.Contains(t.String(), "iter") {
		return []leaf{{"", sInt, nil, 'm'}}
	}
	panic(verr("unsupported type %s", t))
}

// fieldRange: leaf index range of struct field i
func fieldRange(st *types.Struct, i int) (int, int) {
	n := 0
	for k := 0; k < i; k++ {
		n += len(layout(st.Field(k).Type()))
	}
	return n, n + len(layout(st.Field(i).Type()))
}
func tupleRange(tt *types.Tuple, i int) (int, int) {
	n := 0
	for k := 0; k < i; k++ {
		n += len(layout(tt.At(k).Type()))
	}
	return n, n + len(layout(tt.At(i).Type()))
}

// Val is a symbolic Go value.
type Val struct {
	T    types.Type
	L    []*Term
	Fn   *ssa.Function // statically known function value
	Bind []Val
	Addr *Addr // generator-level address (not representable as obj/off)
	Raw  string
	specState *State
}

type addrKind int

const (
	aLocal addrKind = iota // (part of) a register-allocated local
	aMem                   // memory at (obj, off)
	aField                 // scalar/array/slice field of struct at (obj, off)
	aElem                  // element of an array stored at parent address
)

type localKey struct {
	fr  *Frame
	a   ssa.Value
	aux string
}

type Addr struct {
	kind   addrKind
	T      types.Type // type of the addressed variable
	local  localKey
	lo, hi int // leaf range in local
	obj    *Term
	off    *Term
	st     types.Type // aField
	field  int
	parent *Addr // aElem
	idx    *Term
}

type State struct {
	pc     *Term
	locals map[localKey]Val
	heap   map[string]*Term
	next   *Term
	epoch  int
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, next: s.next, epoch: s.epoch, locals: make(map[localKey]Val, len(s.locals)), heap: make(map[string]*Term, len(s.heap))}
	for k, v := range s.locals {
		n.locals[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return n
}

func intRange(t types.Type) (lo, hi *Term, bits int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		bits, signed = 8, true
	case types.Int16:
		bits, signed = 16, true
	case types.Int32:
		bits, signed = 32, true
	case types.Int64, types.Int:
		bits, signed = 64, true
	case types.Uint8:
		bits = 8
	case types.Uint16:
		bits = 16
	case types.Uint32:
		bits = 32
	case types.Uint64, types.Uint, types.Uintptr:
		bits = 64
	default: // untyped int
		return nil, nil, 0, false, false
	}
	if signed {
		h := pow2b(bits - 1)
		return neg(bigNum(h)), sub(bigNum(h), num(1)), bits, true, true
	}
	return num(0), sub(bigNum(pow2b(bits)), num(1)), bits, false, true
}

// heapGet returns the current version of a heap map.
func (x *Exec) heapGet(s *State, key, leafSort string) *Term {
	if t, ok := s.heap[key]; ok {
		return t
	}
	srt := arrSort(arrSort(leafSort))
	if strings.HasPrefix(key, "M|") || strings.HasPrefix(key, "G|") { // map memory, ghosts: custom sort passed in
		srt = leafSort
	}
	t := x.heapBaseOf(s.epoch, key, srt)
	s.heap[key] = t
	return t
}

// heapBaseOf: the unknown content of memory at the start of an epoch
func (x *Exec) heapBaseOf(epoch int, key, srt string) *Term {
	k := fmt.Sprintf("%d|%s", epoch, key)
	if x.heap0[k] == nil {
		x.keySorts[key] = leafOf(key, srt)
		x.heap0[k] = namedConst(fmt.Sprintf("H%d$%s", epoch, sanitize(key)), srt)
	}
	return x.heap0[k]
}

// leafOf inverts the sort construction of heapGet
func leafOf(key, srt string) string {
	if strings.HasPrefix(key, "M|") || strings.HasPrefix(key, "G|") {
		return srt
	}
	return arrElem(arrElem(srt))
}

// heapKey for leaves of type T stored in memory at (obj,off)
type cell struct {
	key  string
	sort string
	obj  *Term
	off  *Term
	lf   leaf
	arr  bool // whole object is the array value
}

func (x *Exec) emb(key string, obj *Term) *Term {
	f := "emb$" + sanitize(key)
	if !x.embs[f] {
		x.embs[f] = true
		x.embList = append(x.embList, f)
	}
	return app(f, sInt, obj)
}

// memCells enumerates heap cells of a value of type T at (obj,off)
func (x *Exec) memCells(T types.Type, obj, off *Term) []cell {
	var r []cell
	switch u := T.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, x.fieldCells(T, i, obj, off)...)
		}
		return r
	case *types.Array:
		// elements are laid out at (obj, 0..N-1); only off==0 supported
		if off.num == nil || off.num.Sign() != 0 {
			// array-valued element of a slice: nested storage
			for _, l := range layout(T) {
				r = append(r, cell{key: "A|" + typeKey(T) + l.path, sort: l.sort, obj: obj, off: off, lf: l})
			}
			return r
		}
		for _, l := range layout(u.Elem()) {
			k := "E|" + typeKey(u.Elem()) + l.path
			if _, isS := u.Elem().Underlying().(*types.Struct); isS {
				k = "S|" + typeKey(u.Elem()) + l.path
				panic(verr("array of structs in memory unsupported: %s", T))
			}
			r = append(r, cell{key: k, sort: l.sort, obj: obj, off: off, lf: leaf{l.path, arrSort(l.sort), nil, 'a'}, arr: true})
		}
		return r
	}
	for _, l := range layout(T) {
		r = append(r, cell{key: "E|" + typeKey(T) + l.path, sort: l.sort, obj: obj, off: off, lf: l})
	}
	return r
}

func (x *Exec) fieldCells(S types.Type, i int, obj, off *Term) []cell {
	st := S.Underlying().(*types.Struct)
	ft := st.Field(i).Type()
	fk := fieldKey(S, i)
	if _, isS := ft.Underlying().(*types.Struct); isS {
		return x.memCells(ft, x.emb(fk, obj), off)
	}
	if x.p.esc[fk] {
		if _, isA := ft.Underlying().(*types.Array); isA {
			return x.memCells(ft, x.embArr(fk, obj, off), num(0))
		}
		return x.memCells(ft, x.emb(fk, obj), off)
	}
	var r []cell
	for _, l := range layout(ft) {
		r = append(r, cell{key: "F|" + fk + l.path, sort: l.sort, obj: obj, off: off, lf: l})
	}
	return r
}

func (x *Exec) embArr(key string, obj, off *Term) *Term {
	f := "embarr$" + sanitize(key)
	if !x.embs[f] {
		x.embs[f] = true
		x.embList = append(x.embList, f)
	}
	return app(f, sInt, obj, off)
}

func (x *Exec) readCell(s *State, c cell) *Term {
	if c.arr {
		return sel(x.heapGet(s, c.key, c.sort), c.obj)
	}
	h := x.heapGet(s, c.key, c.sort)
	return sel(sel(h, c.obj), c.off)
}

func (x *Exec) writeCell(s *State, c cell, v *Term) {
	h := x.heapGet(s, c.key, c.sort)
	var nh *Term
	if c.arr {
		nh = sto(h, c.obj, v)
	} else {
		nh = sto(h, c.obj, sto(sel(h, c.obj), c.off, v))
	}
	if nh == h {
		return
	}
	x.recordWrite(s, c.key, c.obj, c.off)
	s.heap[c.key] = x.name("h$"+c.key, nh)
}

// name introduces a definitional constant for a big term
func (x *Exec) name(prefix string, t *Term) *Term {
	if len(t.args) == 0 {
		return t
	}
	if c, ok := x.named[t]; ok {
		return c
	}
	c := freshConst(prefix, t.sort)
	x.named[t] = c
	x.defOf[c] = t
	x.facts = append(x.facts, fact{t: eqRaw(c, t), def: c})
	return c
}

func eqRaw(c, t *Term) *Term { return mk("=", sBool, c, t) }

func (x *Exec) nameBig(prefix string, t *Term) *Term {
	if t.size(40) <= 40 {
		return t
	}
	return x.name(prefix, t)
}

// addrOf a pointer value as Addr
func (x *Exec) addrOf(v Val) *Addr {
	if v.Addr != nil {
		return v.Addr
	}
	pt, ok := v.T.Underlying().(*types.Pointer)
	if !ok {
		panic(verr("not a pointer: %s", v.T))
	}
	return &Addr{kind: aMem, T: pt.Elem(), obj: v.L[0], off: v.L[1]}
}

func (x *Exec) cellsOf(a *Addr) []cell {
	switch a.kind {
	case aMem:
		return x.memCells(a.T, a.obj, a.off)
	case aField:
		return x.fieldCells(a.st, a.field, a.obj, a.off)
	}
	return nil
}

func (x *Exec) load(s *State, a *Addr) Val {
	switch a.kind {
	case aLocal:
		v, ok := s.locals[a.local]
		if !ok {
			// declared on no path into here; arbitrary
			return x.freshVal(s, "undef", a.T)
		}
		if a.lo == 0 && a.hi == len(v.L) {
			v.T = a.T
			return v
		}
		return Val{T: a.T, L: v.L[a.lo:a.hi]}
	case aMem, aField:
		var l []*Term
		for _, c := range x.cellsOf(a) {
			l = append(l, x.readCell(s, c))
		}
		v := Val{T: a.T, L: l}
		x.assumeWF(s, v)
		return v
	case aElem:
		pv := x.load(s, a.parent)
		var l []*Term
		for _, t := range pv.L {
			l = append(l, sel(t, a.idx))
		}
		v := Val{T: a.T, L: l}
		x.assumeWF(s, v)
		return v
	}
	panic("load")
}

func (x *Exec) store(s *State, a *Addr, v Val) {
	if v.Addr != nil {
		panic(verr("address of a local or field stored in memory (unsupported)"))
	}
	switch a.kind {
	case aLocal:
		if a.lo == 0 {
			if old, ok := s.locals[a.local]; !ok || a.hi == len(old.L) {
				v.T = a.T
				s.locals[a.local] = v
				x.recordLocal(a.local)
				return
			}
		}
		old, ok := s.locals[a.local]
		if !ok {
			panic(verr("partial store to undefined local"))
		}
		nl := append([]*Term{}, old.L...)
		copy(nl[a.lo:a.hi], v.L)
		s.locals[a.local] = Val{T: old.T, L: nl}
		x.recordLocal(a.local)
	case aMem, aField:
		cs := x.cellsOf(a)
		if len(cs) != len(v.L) {
			panic(verr("store leaf mismatch: %s", a.T))
		}
		for i, c := range cs {
			x.writeCell(s, c, v.L[i])
		}
	case aElem:
		pv := x.load(s, a.parent)
		nl := make([]*Term, len(pv.L))
		for i := range pv.L {
			nl[i] = sto(pv.L[i], a.idx, v.L[i])
		}
		x.store(s, a.parent, Val{T: pv.T, L: nl})
	}
}

func (x *Exec) zero(t types.Type) Val {
	v := Val{T: t}
	for _, l := range layout(t) {
		v.L = append(v.L, zeroLeaf(l.sort, l.kind))
	}
	return v
}
func zeroLeaf(sort string, kind byte) *Term {
	switch sort {
	case sInt:
		if kind == 's' {
			return strLit("")
		}
		return num(0)
	case sBool:
		return tFalse
	case sFlt:
		return namedConst("f0", sFlt)
	}
	return constArr(zeroLeaf(arrElem(sort), kindOfArrElem(kind)))
}
func kindOfArrElem(k byte) byte { return k }

func (x *Exec) freshVal(s *State, name string, t types.Type) Val {
	v := Val{T: t}
	for _, l := range layout(t) {
		v.L = append(v.L, freshConst(name+l.path, l.sort))
	}
	x.assumeWF(s, v)
	return v
}

const maxLen = int64(1) << 40

// assumeWF records the facts every well-typed Go value satisfies.
func (x *Exec) assumeWF(s *State, v Val) {
	if x.noWF > 0 {
		return
	}
	ls := layout(v.T)
	var fs []*Term
	for i, l := range ls {
		t := v.L[i]
		if t.num != nil {
			continue
		}
		switch l.kind {
		case 'i':
			lo, hi, _, _, ok := intRange(l.typ)
			if ok {
				fs = append(fs, le(lo, t), le(t, hi))
			}
		case 'o':
			fs = append(fs, lt(t, s.next))
			if f := x.entryRef(t); f != nil {
				fs = append(fs, f)
			}
			if i+3 < len(ls) && ls[i+3].kind == 'c' {
				ln, cp := v.L[i+2], v.L[i+3]
				fs = append(fs, le(num(0), v.L[i+1]), le(num(0), ln), le(ln, cp), le(cp, num(maxLen)), le(v.L[i+1], num(maxLen)),
					implies(eq(t, num(0)), and(eq(cp, num(0)))))
			}
		case 'm':
			fs = append(fs, lt(t, s.next))
		}
	}
	f := and(fs...)
	if f == tTrue || x.wfSeen[f] == s.pc && f != nil && x.wfSeen[f] != nil {
		return
	}
	x.wfSeen[f] = s.pc
	x.assume(s.pc, f)
}

// entryRef: what an object of the caller held on entry is an object of the caller too
func (x *Exec) entryRef(t *Term) *Term {
	if x.entry == nil {
		return nil
	}
	var o *Term
	h := t
	for h.op == "select" {
		o = h.args[1]
		h = h.args[0]
	}
	if o == nil || len(h.args) > 0 || !strings.HasPrefix(h.op, "H0$") || strings.HasPrefix(o.op, "embarr$") {
		return nil
	}
	return implies(lt(o, x.entry.next), lt(t, x.entry.next))
}

func (x *Exec) alloc(s *State, name string) *Term {
	o := freshConst("obj$"+name, sInt)
	x.defOf[o] = s.next
	x.facts = append(x.facts, fact{t: eqRaw(o, s.next), def: o})
	n := freshConst("next", sInt)
	x.defOf[n] = add(o, num(1))
	x.facts = append(x.facts, fact{t: eqRaw(n, add(o, num(1))), def: n})
	s.next = n
	x.freshObjs[o] = true
	x.allocated = true
	return o
}

// allocValue allocates storage for T at a fresh object and zeroes it
func (x *Exec) allocZero(s *State, name string, t types.Type) *Term {
	o := x.alloc(s, name)
	x.zeroObj(s, o, t)
	return o
}

// zeroObj initialises every offset of object o, viewed as elements of type t
func (x *Exec) zeroObj(s *State, o *Term, t types.Type) {
	if at, ok := t.Underlying().(*types.Array); ok {
		t = at.Elem()
	}
	x.zeroObjAs(s, o, t)
}
func (x *Exec) zeroObjAs(s *State, o *Term, t types.Type) {
	for _, c := range x.memCells(t, o, num(0)) {
		h := x.heapGet(s, c.key, c.sort)
		if c.arr {
			// array field stored at embarr(o,off): zero for every off is not expressible by one store
			if c.obj.op != "" && strings.HasPrefix(c.obj.op, "embarr$") {
				// state it as a fact on the fresh heap version
				nh := freshConst("h$"+c.key, h.sort)
				b := mk("o!q", sInt)
				b2 := mk("n!q", sInt)
				e1 := app(c.obj.op, sInt, o, b2)
				x.assume(tTrue, mkQuant("forall", []string{"n!q Int"}, eqRaw(sel(nh, e1), constArr(zeroLeaf(c.sort, c.lf.kind))), [][]*Term{{mk("select", arrSort(c.sort), nh, e1)}}))
				inv := app("embroot", sInt, b)
				x.assume(tTrue, mkQuant("forall", []string{"o!q Int"}, implies(not(eq(inv, o)), eqRaw(mk("select", arrSort(c.sort), nh, b), mk("select", arrSort(c.sort), h, b))), [][]*Term{{mk("select", arrSort(c.sort), nh, b)}}))
				x.recordWrite(s, c.key, o, num(0))
				s.heap[c.key] = nh
				continue
			}
		}
		z := zeroLeaf(c.sort, c.lf.kind)
		nh := sto(h, c.obj, constArr(z))
		x.recordWrite(s, c.key, c.obj, nil)
		s.heap[c.key] = x.name("h$"+c.key, nh)
	}
}
