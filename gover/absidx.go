package main

import (
	"math/big"
	"strings"
)

// Quantifiers over slice elements speak of positions relative to a slice; the
// same elements reached through another slice of the array are not recognised
// by pattern matching. This rewrites queries so that quantified positions are
// absolute: for each offset t with which a bound variable v indexes an array,
// v is replaced by v-t (an equivalent formula).

type absKey struct {
	t   *Term
	pol int
}

type absConv struct {
	memo map[absKey]*Term
}

func isBoundName(n string) bool { return strings.Contains(n, "?") || strings.Contains(n, "!q") }

func mentionsBound(t *Term, memo map[*Term]bool) bool {
	if len(t.args) == 0 {
		return t.num == nil && isBoundName(t.op)
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := len(t.bound) > 0
	for _, a := range t.args {
		r = r || mentionsBound(a, memo)
	}
	memo[t] = r
	return r
}

func (c *absConv) conv(t *Term, pol int) *Term {
	if len(t.args) == 0 {
		return t
	}
	k := absKey{t, pol}
	if r, ok := c.memo[k]; ok {
		return r
	}
	var r *Term
	switch {
	case len(t.bound) > 0:
		r = c.quant(t, pol)
	case t.op == "not":
		r = not(c.conv(t.args[0], -pol))
	case t.op == "=>":
		r = implies(c.conv(t.args[0], -pol), c.conv(t.args[1], pol))
	case t.op == "and" || t.op == "or":
		var as []*Term
		for _, a := range t.args {
			as = append(as, c.conv(a, pol))
		}
		r = rebuild(t, as)
	case t.op == "ite" && t.sort == sBool:
		r = ite(c.conv(t.args[0], 0), c.conv(t.args[1], pol), c.conv(t.args[2], pol))
	default:
		ch := false
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = c.conv(a, 0)
			ch = ch || as[i] != a
		}
		if t.op == "ix" {
			r = add(as[0], as[1])
		} else if ch {
			r = rebuild(t, as)
		} else {
			r = t
		}
	}
	c.memo[k] = r
	return r
}

func (c *absConv) quant(t *Term, pol int) *Term {
	body := c.conv(t.args[0], pol)
	var pats [][]*Term
	for _, p := range t.pats {
		var np []*Term
		for _, q := range p {
			np = append(np, c.conv(q, 0))
		}
		pats = append(pats, np)
	}
	copies := []*Term{mkQuant(t.op, t.bound, body, pats)}
	strong := t.op == "forall" && pol > 0 || t.op == "exists" && pol < 0
	touched := false
	for _, b := range t.bound {
		nm := strings.Fields(b)[0]
		if !strings.HasSuffix(b, " "+sInt) {
			continue
		}
		v := mk(nm, sInt)
		offs := map[*Term]bool{}
		var order []*Term
		mb := map[*Term]bool{}
		seen := map[*Term]bool{}
		var walk func(u *Term)
		walk = func(u *Term) {
			if seen[u] || len(u.args) == 0 {
				return
			}
			seen[u] = true
			if u.op == "select" && u.args[1].sort == sInt {
				l := toLin(u.args[1])
				one := false
				rest := &lin{c: l.c}
				for i, w := range l.ts {
					if w == v {
						one = l.ks[i].Cmp(big.NewInt(1)) == 0
					} else if l.ks[i].Sign() != 0 {
						rest.ts, rest.ks = append(rest.ts, w), append(rest.ks, l.ks[i])
					}
				}
				if one {
					rt := rest.term()
					if !mentionsBound(rt, mb) && !offs[rt] {
						offs[rt] = true
						order = append(order, rt)
					}
				}
			}
			for _, a := range u.args {
				walk(a)
			}
		}
		walk(body)
		if len(order) == 0 || len(order) == 1 && order[0].num != nil && order[0].num.Sign() == 0 {
			continue
		}
		touched = true
		if !strong {
			order = order[:1]
		}
		if len(order) > 3 {
			order = order[:3]
		}
		var next []*Term
		for _, q := range copies {
			for _, o := range order {
				m := map[*Term]*Term{v: sub(v, o)}
				memo := map[*Term]*Term{}
				nb := subst(q.args[0], m, memo)
				next = append(next, mkQuant(q.op, q.bound, nb, nil))
			}
		}
		if len(next) > 6 {
			next = next[:6]
		}
		copies = next
	}
	if !touched {
		return copies[0]
	}
	if t.op == "forall" {
		return and(copies...)
	}
	return or(copies...)
}

// absFacts rewrites a query.
func absFacts(facts []fact, goal *Term) ([]fact, *Term) {
	scriptMu.Lock()
	defer scriptMu.Unlock()
	c := &absConv{memo: map[absKey]*Term{}}
	out := make([]fact, len(facts))
	for i, f := range facts {
		out[i] = f
		pol := 1
		if f.def != nil {
			pol = 0
		}
		out[i].t = c.conv(f.t, pol)
	}
	return out, c.conv(goal, -1)
}
