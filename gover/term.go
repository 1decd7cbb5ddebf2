package main

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

// Term is a hash-consed SMT term.
type Term struct {
	op   string
	args []*Term
	sort string
	num  *big.Int // for integer literals
	id   int
	// quantifier
	bound []string // "name sort" for op=="forall"/"exists"
	pats  [][]*Term
}

const (
	sInt  = "Int"
	sBool = "Bool"
	sFlt  = "Flt"
)

var (
	termTab = map[string]*Term{}
	termN   = 0
)

func mk(op, sort string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('#')
	sb.WriteString(sort)
	for _, a := range args {
		sb.WriteByte(' ')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termN++
	t := &Term{op: op, sort: sort, args: args, id: termN}
	termTab[k] = t
	return t
}

func mkQuant(kind string, bound []string, body *Term, pats [][]*Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	k := kind + "(" + strings.Join(bound, ",") + ")" + strconv.Itoa(body.id)
	for _, p := range pats {
		k += "|"
		for _, t := range p {
			k += " " + strconv.Itoa(t.id)
		}
	}
	if t, ok := termTab[k]; ok {
		return t
	}
	termN++
	t := &Term{op: kind, sort: sBool, args: []*Term{body}, id: termN, bound: bound, pats: pats}
	termTab[k] = t
	return t
}

func num(n int64) *Term { return bigNum(big.NewInt(n)) }
func bigNum(n *big.Int) *Term {
	t := mk(n.String(), sInt)
	t.num = n
	return t
}

var (
	tTrue  = mk("true", sBool)
	tFalse = mk("false", sBool)
)

func boolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

var constSorts = map[string]string{}
var freshN = 0
var sortIds = map[string]int{}

func freshConst(prefix, sort string) *Term {
	freshN++
	prefix = sanitize(prefix)
	id, ok := sortIds[sort]
	if !ok {
		id = len(sortIds)
		sortIds[sort] = id
	}
	n := fmt.Sprintf("%s.%d!%d", prefix, id, freshN)
	constSorts[n] = sort
	return mk(n, sort)
}
func namedConst(n, sort string) *Term {
	constSorts[n] = sort
	return mk(n, sort)
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '$' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func not(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.op == "not":
		return a.args[0]
	}
	return mk("not", sBool, a)
}

func and(as ...*Term) *Term {
	var l []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == tTrue || seen[a] {
			return true
		}
		if a == tFalse {
			return false
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a] = true
		l = append(l, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tFalse
		}
	}
	for _, a := range l {
		if a.op == "not" && seen[a.args[0]] {
			return tFalse
		}
	}
	switch len(l) {
	case 0:
		return tTrue
	case 1:
		return l[0]
	}
	return mk("and", sBool, l...)
}

func or(as ...*Term) *Term {
	var l []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a == tFalse || seen[a] {
			continue
		}
		if a == tTrue {
			return tTrue
		}
		if a.op == "or" {
			for _, x := range a.args {
				if !seen[x] {
					seen[x] = true
					l = append(l, x)
				}
			}
			continue
		}
		seen[a] = true
		l = append(l, a)
	}
	for _, a := range l {
		if a.op == "not" && seen[a.args[0]] {
			return tTrue
		}
	}
	switch len(l) {
	case 0:
		return tFalse
	case 1:
		return l[0]
	}
	return mk("or", sBool, l...)
}

func implies(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue {
		return tTrue
	}
	if b == tFalse {
		return not(a)
	}
	return mk("=>", sBool, a, b)
}

func eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.num != nil && b.num != nil {
		return boolT(a.num.Cmp(b.num) == 0)
	}
	if a.sort == sBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return not(b)
		}
		if b == tFalse {
			return not(a)
		}
	}
	if a.sort != b.sort {
		panic(verr("sort mismatch in =: %s:%s vs %s:%s", a, a.sort, b, b.sort))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", sBool, a, b)
}

func ite(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.sort == sBool {
		if a == tTrue {
			return or(c, b)
		}
		if a == tFalse {
			return and(not(c), b)
		}
		if b == tTrue {
			return or(not(c), a)
		}
		if b == tFalse {
			return and(c, a)
		}
	}
	return mk("ite", a.sort, c, a, b)
}

// linear view used for normalising sums
type lin struct {
	c  *big.Int
	ts []*Term
	ks []*big.Int
}

func toLin(t *Term) *lin {
	l := &lin{c: new(big.Int)}
	l.add(t, big.NewInt(1))
	return l
}
func (l *lin) add(t *Term, k *big.Int) {
	if t.num != nil {
		l.c.Add(l.c, new(big.Int).Mul(t.num, k))
		return
	}
	switch t.op {
	case "+":
		for _, a := range t.args {
			l.add(a, k)
		}
		return
	case "-":
		if len(t.args) == 1 {
			l.add(t.args[0], new(big.Int).Neg(k))
			return
		}
		l.add(t.args[0], k)
		for _, a := range t.args[1:] {
			l.add(a, new(big.Int).Neg(k))
		}
		return
	case "*":
		if len(t.args) == 2 && t.args[0].num != nil {
			l.add(t.args[1], new(big.Int).Mul(k, t.args[0].num))
			return
		}
	}
	for i, u := range l.ts {
		if u == t {
			l.ks[i] = new(big.Int).Add(l.ks[i], k)
			return
		}
	}
	l.ts = append(l.ts, t)
	l.ks = append(l.ks, new(big.Int).Set(k))
}
func (l *lin) term() *Term {
	var parts []*Term
	one := big.NewInt(1)
	// stable order by id
	for i := 1; i < len(l.ts); i++ {
		for j := i; j > 0 && l.ts[j-1].id > l.ts[j].id; j-- {
			l.ts[j-1], l.ts[j] = l.ts[j], l.ts[j-1]
			l.ks[j-1], l.ks[j] = l.ks[j], l.ks[j-1]
		}
	}
	for i, t := range l.ts {
		if l.ks[i].Sign() == 0 {
			continue
		}
		if l.ks[i].Cmp(one) == 0 {
			parts = append(parts, t)
		} else {
			parts = append(parts, mk("*", sInt, bigNum(l.ks[i]), t))
		}
	}
	if l.c.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, bigNum(l.c))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return mk("+", sInt, parts...)
}

func add(a, b *Term) *Term {
	l := toLin(a)
	l.add(b, big.NewInt(1))
	return l.term()
}
func sub(a, b *Term) *Term {
	l := toLin(a)
	l.add(b, big.NewInt(-1))
	return l.term()
}
func neg(a *Term) *Term { return sub(num(0), a) }
func mul(a, b *Term) *Term {
	if a.num != nil && b.num != nil {
		return bigNum(new(big.Int).Mul(a.num, b.num))
	}
	if b.num != nil {
		a, b = b, a
	}
	if a.num != nil {
		if a.num.Sign() == 0 {
			return num(0)
		}
		l := &lin{c: new(big.Int)}
		l.add(b, a.num)
		return l.term()
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("*", sInt, a, b)
}

func lt(a, b *Term) *Term { return le(add(a, num(1)), b) }
func le(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	d := sub(b, a)
	if d.num != nil {
		return boolT(d.num.Sign() >= 0)
	}
	return mk("<=", sBool, a, b)
}
func ge(a, b *Term) *Term { return le(b, a) }
func gt(a, b *Term) *Term { return lt(b, a) }

func pow2b(k int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(k)) }

// ediv / emod: SMT-LIB div/mod with positive constant divisor semantics (floor)
func ediv(a, b *Term) *Term {
	if b.num != nil && b.num.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if a.num != nil && b.num != nil && b.num.Sign() > 0 {
		q := new(big.Int)
		q.DivMod(a.num, b.num, new(big.Int))
		return bigNum(q)
	}
	if b.num != nil && b.num.Sign() > 0 {
		// pull out multiples
		l := toLin(a)
		q := &lin{c: new(big.Int)}
		r := &lin{c: new(big.Int)}
		for i, t := range l.ts {
			dq, dm := new(big.Int), new(big.Int)
			dq.DivMod(l.ks[i], b.num, dm)
			if dm.Sign() == 0 {
				q.add(t, dq)
			} else {
				r.add(t, l.ks[i])
			}
		}
		dq, dm := new(big.Int), new(big.Int)
		dq.DivMod(l.c, b.num, dm)
		q.c.Add(q.c, dq)
		r.c.Add(r.c, dm)
		rt := r.term()
		if rt.num != nil {
			return q.term()
		}
		return add(q.term(), mk("div", sInt, rt, b))
	}
	return mk("div", sInt, a, b)
}
func emod(a, b *Term) *Term {
	if a.num != nil && b.num != nil && b.num.Sign() > 0 {
		m := new(big.Int)
		new(big.Int).DivMod(a.num, b.num, m)
		return bigNum(m)
	}
	if b.num != nil && b.num.Sign() > 0 {
		if a.op == "mod" && a.args[1].num != nil {
			m := new(big.Int).Mod(a.args[1].num, b.num)
			if m.Sign() == 0 {
				return emod(a.args[0], b)
			}
		}
		l := toLin(a)
		r := &lin{c: new(big.Int)}
		for i, t := range l.ts {
			m := new(big.Int).Mod(l.ks[i], b.num)
			if m.Sign() != 0 {
				r.add(t, m)
			}
		}
		r.c.Mod(l.c, b.num)
		rt := r.term()
		if rt.num != nil {
			return emod(rt, b)
		}
		return mk("mod", sInt, rt, b)
	}
	return mk("mod", sInt, a, b)
}

func arrSort(elem string) string { return "(Array Int " + elem + ")" }
func arrElem(s string) string {
	if !strings.HasPrefix(s, "(Array Int ") {
		panic(verr("not an array sort: %s", s))
	}
	return s[len("(Array Int ") : len(s)-1]
}

func distinctNums(a, b *Term) bool {
	d := sub(a, b)
	return d.num != nil && d.num.Sign() != 0
}

func sel(a, i *Term) *Term {
	for {
		if a.op == "store" {
			if a.args[1] == i {
				return a.args[2]
			}
			if distinctNums(a.args[1], i) {
				a = a.args[0]
				continue
			}
		}
		if a.op == "constarr" {
			return a.args[0]
		}
		break
	}
	return mk("select", arrElem(a.sort), a, i)
}
func sto(a, i, v *Term) *Term {
	if arrElem(a.sort) != v.sort {
		panic(verr("store sort mismatch %s vs %s", a.sort, v.sort))
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk("store", a.sort, a, i, v)
}
func constArr(v *Term) *Term { return mk("constarr", arrSort(v.sort), v) }

// declared uninterpreted functions
type fdecl struct {
	args []string
	ret  string
}

var funDecls = map[string]fdecl{}

func app(f string, ret string, args ...*Term) *Term {
	if _, ok := funDecls[f]; !ok {
		d := fdecl{ret: ret}
		for _, a := range args {
			d.args = append(d.args, a.sort)
		}
		funDecls[f] = d
	}
	return mk(f, ret, args...)
}

func (t *Term) String() string {
	var sb strings.Builder
	t.write(&sb)
	return sb.String()
}
func (t *Term) write(sb *strings.Builder) {
	if t.num != nil {
		if t.num.Sign() < 0 {
			sb.WriteString("(- " + new(big.Int).Neg(t.num).String() + ")")
		} else {
			sb.WriteString(t.num.String())
		}
		return
	}
	if len(t.bound) > 0 {
		sb.WriteString("(" + t.op + " (")
		for _, b := range t.bound {
			sb.WriteString("(" + b + ")")
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		t.args[0].write(sb)
		for _, p := range t.pats {
			sb.WriteString(" :pattern (")
			for i, q := range p {
				if i > 0 {
					sb.WriteByte(' ')
				}
				q.write(sb)
			}
			sb.WriteString(")")
		}
		if len(t.pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return
	}
	if t.op == "constarr" {
		sb.WriteString("((as const " + t.sort + ") ")
		t.args[0].write(sb)
		sb.WriteString(")")
		return
	}
	if len(t.args) == 0 {
		sb.WriteString(t.op)
		return
	}
	sb.WriteByte('(')
	sb.WriteString(t.op)
	for _, a := range t.args {
		sb.WriteByte(' ')
		a.write(sb)
	}
	sb.WriteByte(')')
}

// size with sharing ignored, capped
func (t *Term) size(cap int) int {
	n := 1
	for _, a := range t.args {
		if n > cap {
			return n
		}
		n += a.size(cap - n)
	}
	return n
}

type symset map[string]bool

var symCache = map[*Term][]string{}

func (t *Term) symbols() []string {
	if s, ok := symCache[t]; ok {
		return s
	}
	m := map[string]bool{}
	if len(t.args) == 0 {
		if _, ok := constSorts[t.op]; ok {
			m[t.op] = true
		}
	}
	for _, a := range t.args {
		for _, s := range a.symbols() {
			m[s] = true
		}
	}
	for _, p := range t.pats {
		for _, q := range p {
			for _, s := range q.symbols() {
				m[s] = true
			}
		}
	}
	var l []string
	for s := range m {
		l = append(l, s)
	}
	symCache[t] = l
	return l
}

func (t *Term) funs(m map[string]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if _, ok := funDecls[t.op]; ok {
		m[t.op] = true
	}
	for _, a := range t.args {
		a.funs(m, seen)
	}
	for _, p := range t.pats {
		for _, q := range p {
			q.funs(m, seen)
		}
	}
}

// subst replaces constants by terms
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = subst(a, m, memo)
		ch = ch || args[i] != a
	}
	r := t
	if ch {
		if len(t.bound) > 0 {
			var pats [][]*Term
			for _, p := range t.pats {
				var np []*Term
				for _, q := range p {
					np = append(np, subst(q, m, memo))
				}
				pats = append(pats, np)
			}
			r = mkQuant(t.op, t.bound, args[0], pats)
		} else {
			r = rebuild(t, args)
		}
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "not":
		return not(a[0])
	case "and":
		return and(a...)
	case "or":
		return or(a...)
	case "=>":
		return implies(a[0], a[1])
	case "=":
		return eq(a[0], a[1])
	case "ite":
		return ite(a[0], a[1], a[2])
	case "+":
		r := a[0]
		for _, x := range a[1:] {
			r = add(r, x)
		}
		return r
	case "*":
		return mul(a[0], a[1])
	case "<=":
		return le(a[0], a[1])
	case "select":
		return sel(a[0], a[1])
	case "store":
		return sto(a[0], a[1], a[2])
	case "div":
		return ediv(a[0], a[1])
	case "mod":
		return emod(a[0], a[1])
	}
	return mk(t.op, t.sort, a...)
}

type verifyErr struct{ msg string }

func (e verifyErr) Error() string { return e.msg }
func verr(f string, a ...interface{}) verifyErr {
	return verifyErr{fmt.Sprintf(f, a...)}
}
