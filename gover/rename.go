package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Loop invariants name local variables. So that a renamed variable or a loop
// written another way does not stop a proof, contracts/locals.json holds the
// local variables and loops each function under contract had when its
// invariants were written; names are carried over to the present source by
// position and type. Invariants are proved in any case, so that this cannot
// make a proof wrong.
type localDesc struct {
	Name string `json:"n"`
	Type string `json:"t"`
}

type fnDesc struct {
	Locals []localDesc `json:"locals"`
	Range  []bool      `json:"range"` // loop by loop: does it go over a slice or array
}

func localAllocs(fn *ssa.Function) []*ssa.Alloc {
	var as []*ssa.Alloc
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			al, ok := in.(*ssa.Alloc)
			if !ok || !al.Pos().IsValid() || !token.IsIdentifier(al.Comment) {
				continue
			}
			switch al.Comment {
			case "new", "complit", "varargs", "slicelit", "makeslice", "rangeindex":
				continue
			}
			as = append(as, al)
		}
	}
	for i := 1; i < len(as); i++ {
		for j := i; j > 0 && as[j].Pos() < as[j-1].Pos(); j-- {
			as[j], as[j-1] = as[j-1], as[j]
		}
	}
	return as
}

func descOf(al *ssa.Alloc) localDesc {
	return localDesc{al.Comment, types.TypeString(al.Type().Underlying().(*types.Pointer).Elem(), nil)}
}

// rangeIndexOf is the index variable of a loop over a slice or array.
func rangeIndexOf(l *loopInfo) *ssa.Alloc {
	for _, in := range l.header.Instrs {
		if st, ok := in.(*ssa.Store); ok {
			if al, ok := st.Addr.(*ssa.Alloc); ok && al.Comment == "rangeindex" {
				return al
			}
		}
	}
	return nil
}

func describe(fn *ssa.Function, loops map[*ssa.BasicBlock]*loopInfo) fnDesc {
	var d fnDesc
	for _, al := range localAllocs(fn) {
		d.Locals = append(d.Locals, descOf(al))
	}
	d.Range = make([]bool, len(loops))
	for _, l := range loops {
		d.Range[l.ord] = rangeIndexOf(l) != nil
	}
	return d
}

func loadBaseline(dir string) map[string]fnDesc {
	m := map[string]fnDesc{}
	if b, err := os.ReadFile(filepath.Join(dir, "locals.json")); err == nil {
		json.Unmarshal(b, &m)
	}
	return m
}

// align pairs the variables of a function with those it had.
func align(old []localDesc, as []*ssa.Alloc) map[*ssa.Alloc]string {
	res := map[*ssa.Alloc]string{}
	n, m := len(old), len(as)
	cur := make([]localDesc, m)
	for j, al := range as {
		cur[j] = descOf(al)
	}
	// longest common subsequence of variables that kept name and type
	t := make([][]int, n+1)
	for i := range t {
		t[i] = make([]int, m+1)
	}
	for i := n - 1; i >= 0; i-- {
		for j := m - 1; j >= 0; j-- {
			switch {
			case old[i] == cur[j]:
				t[i][j] = t[i+1][j+1] + 1
			case t[i+1][j] >= t[i][j+1]:
				t[i][j] = t[i+1][j]
			default:
				t[i][j] = t[i][j+1]
			}
		}
	}
	var restO []localDesc
	var restC []int
	flush := func() {
		// between two kept variables: those of one type, in order, if as many
		o, c := map[string][]string{}, map[string][]int{}
		for _, d := range restO {
			o[d.Type] = append(o[d.Type], d.Name)
		}
		for _, j := range restC {
			c[cur[j].Type] = append(c[cur[j].Type], j)
		}
		for ty, ns := range o {
			if js := c[ty]; len(js) == len(ns) {
				for k, j := range js {
					res[as[j]] = ns[k]
				}
			}
		}
		restO, restC = nil, nil
	}
	for i, j := 0, 0; i < n || j < m; {
		switch {
		case i < n && j < m && old[i] == cur[j]:
			flush()
			i, j = i+1, j+1
		case j == m || i < n && t[i+1][j] >= t[i][j+1]:
			restO = append(restO, old[i])
			i++
		default:
			restC = append(restC, j)
			j++
		}
	}
	flush()
	return res
}

func (x *Exec) baselineOf(fr *Frame) (fnDesc, bool) {
	d, ok := x.cs.baseline[funcName(fr.fn)]
	if !ok || fr.renamed != nil {
		return d, ok
	}
	fr.renamed = align(d.Locals, localAllocs(fr.fn))
	return d, ok
}

// localName is the name that contracts know a variable by.
func (x *Exec) localName(fr *Frame, al *ssa.Alloc) string {
	x.baselineOf(fr)
	if n, ok := fr.renamed[al]; ok {
		return n
	}
	return al.Comment
}

// otherLoopForm: a counted loop that became a loop over a slice, or the other way round.
func (x *Exec) otherLoopForm(env *specEnv, n string, nth int) (Val, bool) {
	fr, l := env.fr, env.loop
	if l == nil {
		return Val{}, false
	}
	d, ok := x.baselineOf(fr)
	if !ok || len(d.Range) != len(fr.loops) {
		return Val{}, false
	}
	count := func(l *loopInfo, less int64) (Val, bool) {
		v, ok := env.state.locals[localKey{fr: fr, a: nil, aux: kName(l.ord)}]
		if !ok {
			return Val{}, false
		}
		return Val{T: types.Typ[types.Int], L: []*Term{sub(v.L[0], num(less))}}, true
	}
	if n == "rangeindex" {
		for e := l; e != nil; e = e.parent {
			if !d.Range[e.ord] {
				continue
			}
			if nth > 0 {
				nth--
				continue
			}
			if rangeIndexOf(e) != nil {
				return Val{}, false
			}
			if e == l {
				return count(e, 1)
			}
			return count(e, 0)
		}
		return Val{}, false
	}
	ri := rangeIndexOf(l)
	if ri == nil || d.Range[l.ord] {
		return Val{}, false
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			al, ok1 := st.Addr.(*ssa.Alloc)
			ld, ok2 := st.Val.(*ssa.UnOp)
			if ok1 && ok2 && ld.Op == token.MUL && ld.X == ri && x.localName(fr, al) == n {
				return count(l, 0)
			}
			if bo, ok2 := st.Val.(*ssa.BinOp); ok1 && ok2 && bo.Block() == l.header && al != ri && x.localName(fr, al) == n {
				return count(l, 0)
			}
		}
	}
	return Val{}, false
}

// cmdLocals prints the table for the functions whose contracts have loop invariants.
func cmdLocals(args []string) {
	p, err := loadProgram(repoDir())
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	cs, err := loadContracts(contractsDir())
	if err != nil {
		fmt.Println("contracts:", err)
		os.Exit(2)
	}
	var ns []string
	for n := range cs.funcs {
		if fn := p.funcs[n]; fn != nil && len(fn.Blocks) > 0 {
			ns = append(ns, n)
		}
	}
	sort.Strings(ns)
	fmt.Println("{")
	for i, n := range ns {
		loops, _, err := findLoops(p.funcs[n])
		if err != nil {
			continue
		}
		b, _ := json.Marshal(describe(p.funcs[n], loops))
		c := ","
		if i == len(ns)-1 {
			c = ""
		}
		fmt.Printf("%q: %s%s\n", n, b, c)
	}
	fmt.Println("}")
}
