package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type LoopSpec struct {
	invs     []*Expr
	cases    []*Expr
	dec      *Expr
	hints    []*Expr
	endHints []*Expr
	used     bool
}

type Contract struct {
	name       string
	kind       string // func, extern, iface, inline
	params     []string
	results    []string
	requires   []*Expr
	ensures    []*Expr
	modifies   []*Expr
	hasMod     bool
	modAny     bool
	loops      map[int]*LoopSpec
	hints      []*Expr
	exitHints  []*Expr
	callHints  map[string][]*Expr // hints evaluated before calls to a function
	checkNil   bool
	skip       map[string]bool
	allowPanic bool
	noreturn   bool
	fresh      bool
	uses       []string
	file       string
	line       int
	inlineList map[string]bool
	noinline   map[string]bool
	deadline   int
	bounded    string
	assumes    []*Expr // explicit unchecked assumptions (reported)
	cases      []*Expr
	paths      bool // execute path by path instead of joining states
}

type Lemma struct {
	seq      int
	cases    []*Expr
	name     string
	params   []string
	requires []*Expr
	ensures  []*Expr
	induct   string
	hints    []*Expr
	uses     []string
	file     string
	line     int
}

type SpecFun struct {
	name   string
	params []string
	body   *Expr // define / rec
	rec    bool
	args   []string // sorts for ghost
	ret    string
	uninterp bool
	opaque bool
}

type chanInv struct {
	v    string
	e    *Expr
	text string
}

type Contracts struct {
	baseline map[string]fnDesc // local names the loop invariants use
	funcs  map[string]*Contract
	lemmas map[string]*Lemma
	specs  map[string]*SpecFun
	axioms map[string]*Expr
	ghosts map[string]string // ghost variable sorts
	chans  map[string]chanInv // what every value sent over a channel of this element type satisfies
	props  map[string][]string
	bounded map[string]string
	order  []string
}

func loadContracts(dir string) (*Contracts, error) {
	cs := &Contracts{funcs: map[string]*Contract{}, lemmas: map[string]*Lemma{}, specs: map[string]*SpecFun{}, axioms: map[string]*Expr{}, ghosts: map[string]string{}, chans: map[string]chanInv{}, props: map[string][]string{}, bounded: map[string]string{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	if len(fs) == 0 {
		return nil, fmt.Errorf("no contract files in %s", dir)
	}
	for _, f := range fs {
		if err := cs.loadFile(f); err != nil {
			return nil, err
		}
	}
	cs.baseline = loadBaseline(dir)
	return cs, nil
}

var keywords = map[string]bool{"define": true, "opaque": true, "bounded": true, "rec": true, "ghost": true, "ghostvar": true, "channel": true, "axiom": true, "lemma": true, "func": true, "extern": true, "iface": true, "inline": true, "dynamic": true,
	"requires": true, "ensures": true, "modifies": true, "check": true, "skip": true, "allow": true, "loop": true, "invariant": true, "decreases": true,
	"hint": true, "endhint": true, "exithint": true, "callhint": true, "use": true, "property": true, "noreturn": true, "paths": true, "induct": true, "assume": true, "case": true}

type clause struct {
	kw, text string
	line     int
}

func (cs *Contracts) loadFile(fn string) error {
	b, err := os.ReadFile(fn)
	if err != nil {
		return err
	}
	var cl []clause
	type srcLine struct {
		s string
		n int
	}
	// foreach X in A B C ... endfor repeats its lines with $X replaced
	var src []srcLine
	var blk []srcLine
	var blkVar string
	var blkVals []string
	for i, ln := range strings.Split(string(b), "\n") {
		f := strings.Fields(ln)
		switch {
		case len(f) > 3 && f[0] == "foreach" && f[2] == "in":
			blkVar, blkVals, blk = f[1], f[3:], nil
		case len(f) == 1 && f[0] == "endfor":
			for _, v := range blkVals {
				for _, l := range blk {
					src = append(src, srcLine{strings.ReplaceAll(l.s, "$"+blkVar, v), l.n})
				}
			}
			blkVals = nil
		case blkVals != nil:
			blk = append(blk, srcLine{ln, i})
		default:
			src = append(src, srcLine{ln, i})
		}
	}
	for _, sl := range src {
		ln, i := sl.s, sl.n
		if k := strings.Index(ln, "//"); k >= 0 {
			ln = ln[:k]
		}
		t := strings.TrimSpace(ln)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		w := t
		if k := strings.IndexAny(t, " \t:"); k >= 0 {
			w = t[:k]
		}
		if keywords[w] {
			cl = append(cl, clause{w, strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(t[len(w):]), ":")), i + 1})
		} else if len(cl) > 0 {
			cl[len(cl)-1].text += " " + t
		} else {
			return fmt.Errorf("%s:%d: stray text", fn, i+1)
		}
	}
	base := filepath.Base(fn)
	var con *Contract
	var lem *Lemma
	var lp *LoopSpec
	for _, c := range cl {
		bad := func(e error) error { return fmt.Errorf("%s:%d: %s: %v", base, c.line, c.kw, e) }
		pe := func() (*Expr, error) {
			e, err := parseExpr(c.text)
			if err != nil {
				return nil, bad(err)
			}
			e.line = c.line
			return e, nil
		}
		switch c.kw {
		case "define", "rec", "opaque":
			h, body, ok := strings.Cut(c.text, "=")
			// allow '==' in body: first '=' after ')' belongs to the header
			k := strings.Index(c.text, ")")
			if k < 0 {
				return bad(fmt.Errorf("missing parameter list"))
			}
			h = c.text[:k+1]
			rest := strings.TrimSpace(c.text[k+1:])
			ret := ""
			if !strings.HasPrefix(rest, "=") {
				ret, rest, ok = strings.Cut(rest, "=")
				ret = strings.TrimSpace(ret)
				rest = "=" + rest
			}
			_ = ok
			body = strings.TrimSpace(rest[1:])
			e, err := parseExpr(body)
			if err != nil {
				return bad(err)
			}
			n, ps := splitHeader(h)
			sf := &SpecFun{name: n, body: e, rec: c.kw == "rec", opaque: c.kw == "opaque", ret: sInt}
			if ret == "bool" {
				sf.ret = sBool
			}
			for _, p := range ps {
				f := strings.Fields(p)
				sf.params = append(sf.params, f[0])
				so := sInt
				if len(f) > 1 {
					so = sortName(f[1])
				}
				sf.args = append(sf.args, so)
			}
			if cs.specs[n] != nil {
				return bad(fmt.Errorf("duplicate definition %s", n))
			}
			cs.specs[n] = sf
		case "ghost":
			k := strings.Index(c.text, ")")
			n, ps := splitHeader(c.text[:k+1])
			sf := &SpecFun{name: n, uninterp: true, ret: sortName(strings.TrimSpace(c.text[k+1:]))}
			for _, p := range ps {
				sf.args = append(sf.args, sortName(p))
			}
			cs.specs[n] = sf
		case "ghostvar":
			f := strings.Fields(c.text)
			cs.ghosts[f[0]] = sortName(f[1])
		case "channel": // channel TYPE(v): condition
			h, t, _ := strings.Cut(c.text, ":")
			n, ps := splitHeader(h)
			e, err := parseExpr(t)
			if err != nil {
				return bad(err)
			}
			if len(ps) != 1 {
				return bad(fmt.Errorf("channel TYPE(v): condition"))
			}
			cs.chans[n] = chanInv{v: ps[0], e: e, text: strings.TrimSpace(t)}
		case "axiom":
			n, t, _ := strings.Cut(c.text, ":")
			e, err := parseExpr(t)
			if err != nil {
				return bad(err)
			}
			cs.axioms[strings.TrimSpace(n)] = e
		case "lemma":
			n, ps := splitHeader(c.text)
			lem = &Lemma{name: n, seq: len(cs.lemmas), file: base, line: c.line}
			for _, p := range ps {
				lem.params = append(lem.params, p)
			}
			if cs.lemmas[n] != nil {
				return bad(fmt.Errorf("duplicate lemma %s", n))
			}
			cs.lemmas[n] = lem
			con, lp = nil, nil
			cs.order = append(cs.order, "lemma:"+n)
		case "func", "extern", "iface", "inline", "dynamic":
			lem, lp = nil, nil
			n := c.text
			var ps []string
			var rs []string
			if k := strings.Index(n, "("); k >= 0 {
				hdr := n
				if j := strings.Index(n, ")"); j >= 0 && j+1 < len(n) {
					hdr = n[:j+1]
					r := strings.TrimSpace(n[j+1:])
					r = strings.Trim(r, "()")
					for _, q := range strings.Split(r, ",") {
						if q = strings.TrimSpace(q); q != "" {
							rs = append(rs, q)
						}
					}
				}
				n, ps = splitHeader(hdr)
			}
			con = &Contract{name: n, kind: c.kw, params: ps, results: rs, loops: map[int]*LoopSpec{}, skip: map[string]bool{}, file: base, line: c.line, callHints: map[string][]*Expr{}}
			if cs.funcs[n] != nil {
				return bad(fmt.Errorf("duplicate contract for %s", n))
			}
			cs.funcs[n] = con
			if c.kw == "func" {
				cs.order = append(cs.order, n)
			}
		case "case":
			for _, q := range strings.Split(c.text, ";") {
				e, err := parseExpr(strings.TrimSpace(q))
				if err != nil {
					return bad(err)
				}
				switch {
				case lem != nil:
					lem.cases = append(lem.cases, e)
				case lp != nil:
					lp.cases = append(lp.cases, e)
				default:
					con.cases = append(con.cases, e)
				}
			}
		case "bounded":
			n, t, _ := strings.Cut(c.text, ":")
			cs.bounded[strings.TrimSpace(n)] = strings.TrimSpace(t)
		case "property":
			n, t, _ := strings.Cut(c.text, ":")
			n = strings.TrimSpace(n)
			cs.props[n] = append(cs.props[n], strings.Fields(t)...)
		case "requires", "ensures", "hint", "exithint", "assume":
			e, err := pe()
			if err != nil {
				return err
			}
			if lem != nil {
				switch c.kw {
				case "requires":
					lem.requires = append(lem.requires, e)
				case "ensures":
					lem.ensures = append(lem.ensures, e)
				case "hint":
					lem.hints = append(lem.hints, e)
				}
				continue
			}
			if con == nil {
				return bad(fmt.Errorf("outside a contract"))
			}
			switch c.kw {
			case "requires":
				con.requires = append(con.requires, e)
			case "ensures":
				con.ensures = append(con.ensures, e)
			case "assume":
				con.assumes = append(con.assumes, e)
			case "exithint":
				con.exitHints = append(con.exitHints, e)
			case "hint":
				if lp != nil {
					lp.hints = append(lp.hints, e)
				} else {
					con.hints = append(con.hints, e)
				}
			}
		case "callhint":
			n, t, _ := strings.Cut(c.text, ":")
			e, err := parseExpr(t)
			if err != nil {
				return bad(err)
			}
			con.callHints[strings.TrimSpace(n)] = append(con.callHints[strings.TrimSpace(n)], e)
		case "endhint":
			e, err := pe()
			if err != nil {
				return err
			}
			lp.endHints = append(lp.endHints, e)
		case "induct":
			lem.induct = c.text
		case "use":
			if lem != nil {
				lem.uses = append(lem.uses, strings.Fields(c.text)...)
			} else {
				con.uses = append(con.uses, strings.Fields(c.text)...)
			}
		case "modifies":
			con.hasMod = true
			if c.text == "*" {
				con.modAny = true
				continue
			}
			if c.text == "nothing" {
				continue
			}
			for _, p := range splitTop(c.text) {
				e, err := parseExpr(p)
				if err != nil {
					return bad(err)
				}
				con.modifies = append(con.modifies, e)
			}
		case "check":
			if c.text == "nil" {
				con.checkNil = true
			}
		case "skip":
			for _, w := range strings.Fields(c.text) {
				con.skip[w] = true
			}
		case "allow":
			if c.text == "panic" {
				con.allowPanic = true
			}
		case "noreturn":
			con.noreturn = true
		case "paths":
			con.paths = true
		case "loop":
			var k int
			fmt.Sscanf(c.text, "%d", &k)
			lp = con.loops[k]
			if lp == nil {
				lp = &LoopSpec{}
				con.loops[k] = lp
			}
		case "invariant":
			e, err := pe()
			if err != nil {
				return err
			}
			if lp == nil {
				return bad(fmt.Errorf("invariant outside loop"))
			}
			lp.invs = append(lp.invs, e)
		case "decreases":
			e, err := pe()
			if err != nil {
				return err
			}
			lp.dec = e
		}
	}
	return nil
}

func sortName(s string) string {
	switch s {
	case "int":
		return sInt
	case "bool":
		return sBool
	case "float":
		return sFlt
	case "arr":
		return arrSort(sInt)
	case "arrb":
		return arrSort(sBool)
	case "arr2":
		return arrSort(arrSort(sInt))
	}
	return sInt
}

func splitHeader(h string) (string, []string) {
	k := strings.Index(h, "(")
	if k < 0 {
		return strings.TrimSpace(h), nil
	}
	j := strings.LastIndex(h, ")")
	var ps []string
	for _, p := range strings.Split(h[k+1:j], ",") {
		if p = strings.TrimSpace(p); p != "" {
			ps = append(ps, p)
		}
	}
	return strings.TrimSpace(h[:k]), ps
}

func splitTop(s string) []string {
	var r []string
	d, st := 0, 0
	for i, c := range s {
		switch c {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				r = append(r, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	return append(r, strings.TrimSpace(s[st:]))
}

// ---------- expression parser ----------

type Expr struct {
	op   string // "id","int","str","call","idx","sel","slice-all","range","un","bin","forall","exists","let"
	s    string
	args []*Expr
	vars []qvar
	trig [][]*Expr
	src  string
	line int
}

type qvar struct {
	name   string
	lo, hi *Expr
	typ    string
}

type tok struct {
	k string // id,int,str,op,eof
	s string
	p int
}

func lexSpec(s string) ([]tok, error) {
	var r []tok
	ops := []string{"<==>", "==>", "&&", "||", "==", "!=", "<=", ">=", "<<", ">>", "..", "::"}
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t':
			i++
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == 'x' || s[j] >= 'a' && s[j] <= 'f' || s[j] >= 'A' && s[j] <= 'F') {
				j++
			}
			r = append(r, tok{"int", s[i:j], i})
			i = j
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				j++
			}
			r = append(r, tok{"str", s[i+1 : j], i})
			i = j + 1
		case c == '\'':
			r = append(r, tok{"int", fmt.Sprint(int(s[i+1])), i})
			i += 3
		case c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(s) && (s[j] == '_' || s[j] == '$' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			r = append(r, tok{"id", s[i:j], i})
			i = j
		default:
			f := false
			for _, o := range ops {
				if strings.HasPrefix(s[i:], o) {
					r = append(r, tok{"op", o, i})
					i += len(o)
					f = true
					break
				}
			}
			if f {
				continue
			}
			if strings.ContainsRune("+-*/%()[]{},.!<>:&|^?=", rune(c)) {
				r = append(r, tok{"op", string(c), i})
				i++
				continue
			}
			return nil, fmt.Errorf("bad character %q", c)
		}
	}
	return append(r, tok{"eof", "", len(s)}), nil
}

type sparser struct {
	t   []tok
	i   int
	src string
}

func parseExpr(s string) (e *Expr, err error) {
	ts, err := lexSpec(s)
	if err != nil {
		return nil, err
	}
	p := &sparser{t: ts, src: s}
	defer func() {
		if r := recover(); r != nil {
			if v, ok := r.(verifyErr); ok {
				err = fmt.Errorf("%s in %q", v.msg, s)
				return
			}
			panic(r)
		}
	}()
	e = p.expr(0)
	if p.t[p.i].k != "eof" {
		return nil, fmt.Errorf("trailing %q in %q", p.t[p.i].s, s)
	}
	e.src = strings.Join(strings.Fields(s), " ")
	return e, nil
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5, "+": 6, "-": 6, "|": 6, "^": 6, "*": 7, "/": 7, "%": 7, "<<": 7, ">>": 7, "&": 7}

func (p *sparser) peek() tok { return p.t[p.i] }
func (p *sparser) next() tok { p.i++; return p.t[p.i-1] }
func (p *sparser) accept(s string) bool {
	if p.t[p.i].k != "str" && p.t[p.i].s == s {
		p.i++
		return true
	}
	return false
}
func (p *sparser) expect(s string) {
	if !p.accept(s) {
		panic(verr("expected %q, found %q", s, p.peek().s))
	}
}

func (p *sparser) expr(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		if t.k != "op" && t.s != "in" {
			return l
		}
		pr, ok := prec[t.s]
		if !ok || pr < min {
			return l
		}
		p.next()
		var r *Expr
		if t.s == "==>" {
			r = p.expr(pr) // right assoc
		} else {
			r = p.expr(pr + 1)
		}
		// comparison chains a <= b < c
		if pr == 5 && t.s != "in" && l.op == "bin" && prec[l.s] == 5 && l.src == "" {
			l = &Expr{op: "bin", s: "&&", args: []*Expr{l, {op: "bin", s: t.s, args: []*Expr{l.args[1], r}}}, line: -5}
			continue
		}
		if pr == 5 && l.op == "bin" && l.s == "&&" && l.line == -5 {
			l = &Expr{op: "bin", s: "&&", args: []*Expr{l, {op: "bin", s: t.s, args: []*Expr{l.args[1].args[1], r}}}, line: -5}
			continue
		}
		l = &Expr{op: "bin", s: t.s, args: []*Expr{l, r}}
	}
}

func (p *sparser) unary() *Expr {
	t := p.peek()
	switch {
	case t.s == "!" && t.k == "op":
		p.next()
		return &Expr{op: "un", s: "!", args: []*Expr{p.unary()}}
	case t.s == "-" && t.k == "op":
		p.next()
		return &Expr{op: "un", s: "-", args: []*Expr{p.unary()}}
	case t.s == "*" && t.k == "op":
		p.next()
		return &Expr{op: "un", s: "*", args: []*Expr{p.unary()}}
	case t.s == "&" && t.k == "op":
		p.next()
		return &Expr{op: "un", s: "&", args: []*Expr{p.unary()}}
	case t.k == "id" && (t.s == "forall" || t.s == "exists"):
		p.next()
		e := &Expr{op: t.s}
		for {
			n := p.next()
			if n.k != "id" {
				panic(verr("bound variable expected"))
			}
			v := qvar{name: n.s}
			if p.accept("in") {
				v.lo = p.expr(6)
				p.expect("..")
				v.hi = p.expr(6)
			} else if p.peek().k == "id" || p.peek().s == "*" {
				st := ""
				for p.peek().k == "id" || p.peek().s == "*" {
					st += p.next().s
				}
				v.typ = st
			}
			e.vars = append(e.vars, v)
			if !p.accept(",") {
				break
			}
		}
		// variables without a range borrow the next variable's range: i, j in a..b
		for i := len(e.vars) - 2; i >= 0; i-- {
			if e.vars[i].lo == nil && e.vars[i].typ == "" && e.vars[i+1].lo != nil {
				e.vars[i].lo, e.vars[i].hi = e.vars[i+1].lo, e.vars[i+1].hi
			}
		}
		for p.accept("{") {
			var tr []*Expr
			for {
				tr = append(tr, p.expr(0))
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e.trig = append(e.trig, tr)
		}
		if !p.accept("::") {
			p.expect(":")
		}
		e.args = []*Expr{p.expr(0)}
		return e
	case t.k == "id" && t.s == "let":
		p.next()
		n := p.next().s
		p.expect("=")
		v := p.expr(0)
		if !p.accept("::") {
			p.expect(":")
		}
		return &Expr{op: "let", s: n, args: []*Expr{v, p.expr(0)}}
	}
	return p.postfix()
}

func (p *sparser) postfix() *Expr {
	t := p.next()
	var e *Expr
	switch {
	case t.k == "int":
		e = &Expr{op: "int", s: t.s}
	case t.k == "str":
		e = &Expr{op: "str", s: t.s}
	case t.k == "id":
		e = &Expr{op: "id", s: t.s}
	case t.s == "(":
		e = p.expr(0)
		p.expect(")")
		c := *e
		c.src = "()"
		e = &c
	default:
		panic(verr("unexpected %q", t.s))
	}
	for {
		switch {
		case p.peek().k == "op" && p.peek().s == ".":
			p.next()
			if p.accept("*") {
				e = &Expr{op: "selall", args: []*Expr{e}}
				continue
			}
			n := p.next()
			if n.k != "id" {
				panic(verr("field name expected, found %q", n.s))
			}
			e = &Expr{op: "sel", s: n.s, args: []*Expr{e}}
		case p.peek().k == "op" && p.peek().s == "[":
			p.next()
			if p.accept("*") {
				p.expect("]")
				e = &Expr{op: "idxall", args: []*Expr{e}}
				continue
			}
			i := p.expr(0)
			if p.accept("..") {
				h := p.expr(0)
				p.expect("]")
				e = &Expr{op: "idxrange", args: []*Expr{e, i, h}}
				continue
			}
			p.expect("]")
			e = &Expr{op: "idx", args: []*Expr{e, i}}
		case p.peek().k == "op" && p.peek().s == "(" && (e.op == "id" || e.op == "sel"):
			p.next()
			c := &Expr{op: "call", s: e.s}
			if e.op == "sel" {
				panic(verr("method call in spec"))
			}
			if !p.accept(")") {
				for {
					c.args = append(c.args, p.expr(0))
					if !p.accept(",") {
						break
					}
				}
				p.expect(")")
			}
			e = c
		default:
			return e
		}
	}
}
