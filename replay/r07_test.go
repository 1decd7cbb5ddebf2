package main

//use: common_wad_test.go
//use: common_geo_test.go

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"sort"
	"strings"
)

var vfNull, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)

func vfRun(h *vfH) {
	h.rule = "whole runs over random maps with random options files (groups, bands, blind and safe sectors, limits, inclusions, vortexes, reports; global and per map), every bit of REJECT and every line of the report compared with what the manual says; non-trivial when the options change bits"
	syslog.SetOutput(vfNull)
	for !h.over() {
		if h.n(8) == 0 {
			h.farCase()
		} else {
			h.optionCase()
		}
	}
}

type vfOpt struct {
	kind      string
	inv, band bool
	a, b      int
	l, m      []int
}

// text writes the option in one of the ways the syntax allows
func (o vfOpt) text(h *vfH) string {
	short := map[string][]string{"BLIND": {"BLI", "BLIN"}, "SAFE": {"S", "SA"}, "INCLUDE": {"INC", "INCL"}, "EXCLUDE": {"EXC", "EX"}, "GROUP": {"G", "GRO"},
		"LENGTH": {"LEN"}, "DISTANCE": {"DI", "DIST"}, "LINE": {"LI"}, "LEFT": {"LEF"}, "RIGHT": {"RI", "RIG"}, "REPORT": {"REP"}, "VORTEX": {"V", "VOR"}, "INVERT": {"INV"}, "BAND": {"BA"}}
	w := func(s string, full bool) string {
		if !full && h.n(3) == 0 {
			s = short[s][h.n(len(short[s]))]
		}
		switch h.n(5) {
		case 0:
			s = strings.ToLower(s)
		case 1:
			s = s[:1] + strings.ToLower(s[1:])
		}
		return s
	}
	var p []string
	if o.inv {
		p = append(p, w("INVERT", false))
	}
	k := o.kind
	if o.band {
		p = append(p, w("BAND", false))
		p = append(p, w(k, true))
	} else if o.inv {
		p = append(p, w(k, k == "BLIND"))
	} else {
		p = append(p, w(k, false))
	}
	num := func(v int) string {
		if h.n(20) == 0 && v >= 0 {
			return fmt.Sprintf("0%d", v)
		}
		return fmt.Sprint(v)
	}
	tail := false
	list := func(l []int, last bool) {
		var s []string
		for _, v := range l {
			s = append(s, num(v))
		}
		if (len(l) == 1 && !last || last) && h.n(3) == 0 {
			tail = last
			p = append(p, strings.Join(s, " "))
			return
		}
		switch h.n(4) {
		case 0:
			p = append(p, "( "+strings.Join(s, " ")+" )")
		case 1:
			p = append(p, "("+strings.Join(s, ",")+")")
		case 2:
			p = append(p, "("+strings.Join(s, ", ")+")")
		default:
			p = append(p, "("+strings.Join(s, " ")+")")
		}
	}
	switch o.kind {
	case "BLIND", "SAFE":
		p = append(p, num(o.a))
		if o.band {
			p = append(p, num(o.b))
		}
		list(o.l, true)
	case "GROUP":
		p = append(p, num(o.a))
		list(o.l, true)
	case "INCLUDE", "EXCLUDE", "VORTEX":
		list(o.l, false)
		list(o.m, true)
	default:
		p = append(p, num(o.a))
	}
	sep := []string{" ", "  ", "\t"}[h.n(3)]
	s := strings.Join(p, sep)
	if h.n(6) == 0 {
		s = "  " + s + " "
	}
	if !tail && h.n(8) == 0 {
		s += " # INCLUDE 0 1"
	}
	return s
}

type vfGrp struct {
	head []int   // of each sector
	all  [][]int // of each head
	some bool
}

func vfGroups(opts []vfOpt, n int) (g vfGrp) {
	g.head, g.all = make([]int, n), make([][]int, n)
	for i := range g.head {
		g.head[i], g.all[i] = i, []int{i}
	}
	for _, o := range opts {
		if o.kind != "GROUP" || o.a < 0 || o.a >= n || g.head[o.a] != o.a {
			continue
		}
		for _, v := range o.l {
			if v < 0 || v >= n || v == o.a || g.head[v] != v {
				continue
			}
			for _, s := range g.all[v] {
				g.head[s] = o.a
				g.all[o.a] = append(g.all[o.a], s)
			}
			g.all[v] = []int{v}
			g.some = true
		}
	}
	return
}

type vfBS struct{ st, lo, hi int } // 1 normal, 2 inverted, 4 band, 8 inverted band

func (b vfBS) hides(d int) bool {
	switch b.st {
	case 1:
		return d >= b.lo
	case 2:
		return d < b.hi
	case 3:
		if b.hi > b.lo {
			return d >= b.lo && d < b.hi
		}
		return d >= b.lo || d < b.hi
	case 4:
		return d >= b.lo && d < b.hi
	case 8:
		return d < b.lo || d >= b.hi
	}
	return false
}

// without REPORT, and whether distances in sectors are asked for
func vfNeedDist(opts []vfOpt) bool {
	simple, need := true, false
	for _, o := range opts {
		switch o.kind {
		case "LENGTH", "REPORT":
			return true
		case "BLIND", "SAFE":
			need = true
			simple = simple && !o.band && o.a <= 1
		}
	}
	return need && !simple
}

func (h *vfH) optionCase() {
	g := vfGeoRand(h.rng, true)
	g.self = 0
	if h.n(2) == 0 { // corridors: long distances
		g.w, g.h = 3+h.n(8), 1+h.n(2)
		g.secs = g.w * g.h
	}
	m := vfLattice(h.rng, g)
	n := len(m.Secs)
	if n < 2 || len(m.Lines) == 0 {
		return
	}
	var two []int
	for i, l := range m.Lines {
		if l.BackSdef != SIDEDEF_NONE && m.Sides[l.FrontSdef].Sector != m.Sides[l.BackSdef].Sector {
			two = append(two, i)
		}
	}
	if len(two) == 0 {
		return
	}
	sec := func() int {
		if h.n(15) == 0 {
			return []int{n, n + 3, -1, 70000}[h.n(4)]
		}
		return h.n(n)
	}
	list := func() (l []int) {
		for k := 1 + h.n(3); k > 0; k-- {
			l = append(l, sec())
		}
		return
	}
	simple := h.n(3) == 0 // BLIND and SAFE with 0 and 1 alone
	kinds := []string{"BLIND", "SAFE", "INCLUDE", "EXCLUDE", "GROUP", "LENGTH", "LINE", "REPORT", "VORTEX", "BLIND", "SAFE", "DISTANCE", "LEFT", "RIGHT"}
	if h.n(2) == 0 { // a few kinds that meet often
		h.rng.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
		kinds = kinds[:1+h.n(3)]
	}
	top := 2 + h.n(5)
	vort := h.n(4) == 0
	if h.n(12) == 0 { // vortexes where visibility is one-sided
		kinds, vort = []string{"VORTEX", "BLIND", "SAFE"}, true
	}
	some := func(k int) (os []vfOpt) {
		for ; k > 0; k-- {
			o := vfOpt{kind: kinds[h.n(len(kinds))]}
			switch o.kind {
			case "BLIND", "SAFE":
				o.inv = h.n(3) == 0
				o.a, o.l = h.n(top), list()
				if simple {
					o.a = h.n(2)
				} else if h.n(3) == 0 {
					o.band = true
					o.b = o.a + h.n(4)
					if h.n(8) == 0 {
						o.b = h.n(top)
					}
				}
				if !simple && h.n(30) == 0 {
					o.a = 65535 + h.n(3)
				}
			case "INCLUDE", "EXCLUDE":
				o.l, o.m = list(), list()
			case "VORTEX":
				if !vort {
					continue
				}
				o.l, o.m = list(), list()
			case "GROUP":
				o.a, o.l = sec(), list()
			case "LENGTH":
				o.a = h.n(top)
				if simple {
					continue
				}
				if h.n(20) == 0 {
					o.a = 65000 + h.n(2000)
				}
			case "REPORT":
				if simple {
					continue
				}
				o.a = h.n(top)
			case "LINE", "LEFT", "RIGHT":
				if len(kinds) > 3 && h.n(2) == 0 {
					continue
				}
				o.a = two[h.n(len(two))]
				if h.n(2) == 0 {
					o.a = two[0]
				}
				if h.n(8) == 0 {
					o.a += 65536
				}
			case "DISTANCE":
				if h.n(4) > 0 {
					continue
				}
				o.a = h.n(5 * g.size)
			}
			os = append(os, o)
		}
		return
	}
	glob, own := some(h.n(3)), some(h.n(6))
	if len(glob)+len(own) == 0 {
		return
	}
	opts := append(append([]vfOpt{}, glob...), own...)
	var lines []string
	put := func(os []vfOpt) {
		for _, o := range os {
			lines = append(lines, o.text(h))
			if h.n(8) == 0 {
				lines = append(lines, []string{"", "# GROUP 0 1", "   #", "  "}[h.n(4)])
			}
		}
	}
	put(glob)
	if h.n(4) == 0 {
		lines = append(lines, "MAP02")
		put(some(2))
	}
	if len(own) > 0 {
		k := len(own)
		if h.n(4) == 0 {
			k = h.n(len(own) + 1)
		}
		lines = append(lines, []string{"MAP01", "map01", "MAP MAP01"}[h.n(3)])
		put(own[:k])
		if k < len(own) {
			lines = append(lines, "E1M1")
			put(some(2))
			lines = append(lines, "MAP01")
			put(own[k:])
		}
	}
	// what the physical lines of sight depend on
	need := vfNeedDist(opts)
	var base []string
	dist, line, sides := false, map[int]bool{}, map[int]int{}
	for _, o := range opts {
		switch o.kind {
		case "GROUP", "DISTANCE":
			base = append(base, (&vfOpt{kind: o.kind, a: o.a, l: o.l}).plain())
			dist = dist || o.kind == "DISTANCE"
		case "LINE", "LEFT", "RIGHT":
			sides[o.a] |= map[string]int{"LINE": 3, "LEFT": 1, "RIGHT": 2}[o.kind]
		}
	}
	for i := -1; i < 1<<18; i++ {
		st, ok := sides[i]
		if !ok {
			continue
		}
		// from neither side: solid; from one side alone: as the builder likes
		line[i] = st == 3
		base = append(base, fmt.Sprintf("%s %d", []string{"", "LEFT", "RIGHT", "LINE"}[st], i))
	}
	if need {
		base = append(base, "REPORT 65535")
		for _, o := range opts {
			if o.kind == "LENGTH" {
				base[len(base)-1] = "LENGTH 65535"
			}
		}
	}
	open := 0
	for _, i := range two {
		if !line[i] {
			open++
		}
	}
	if open == 0 { // nothing is computed for such a map
		return
	}
	args := []string{"-rm", "-n-", "-b-"}
	if h.n(4) == 0 {
		args[0] = "-rmg-"
	}
	if h.n(4) == 0 {
		args = append(args, "--nosymm")
	}
	ending := []string{"\n", "\r\n"}[h.n(2)]
	in, out := h.path("in.wad"), h.path("out.wad")
	if vfWriteWad(in, m.lumps("MAP01", h.n(3) > 0)) != nil {
		return
	}
	rpt := func() string {
		for _, f := range []string{"in.rpt", "in.RPT"} {
			if b, err := os.ReadFile(h.path(f)); err == nil {
				return string(b)
			}
		}
		return ""
	}
	run := func(ls []string) ([]byte, string) {
		os.Remove(out)
		os.Remove(h.path("in.rpt"))
		if err := os.WriteFile(h.path("in.rej"), []byte(strings.Join(ls, ending)+ending), 0644); err != nil {
			return nil, err.Error()
		}
		code, log := h.tool(append(append([]string{}, args...), in, "-o", out)...)
		if code != 0 {
			return nil, fmt.Sprintf("exit code %d: %s", code, vfTail(log))
		}
		if strings.Contains(log, "panic") || strings.Contains(log, "goroutine ") {
			return nil, vfTail(log)
		}
		w, e := vfReadWad(out)
		if e != "" {
			return nil, e
		}
		for _, l := range w.Lumps {
			if l.Name == "REJECT" {
				if len(l.Data) != (n*n+7)/8 {
					return nil, fmt.Sprintf("REJECT of %d bytes for %d sectors", len(l.Data), n)
				}
				b := make([]byte, n*n)
				for k := range b {
					b[k] = l.Data[k/8] >> (k % 8) & 1
				}
				return b, ""
			}
		}
		return nil, "no REJECT"
	}
	gr := vfGroups(opts, n)
	// distances between sectors, groups as one
	adj := make([][]bool, n)
	for i := range adj {
		adj[i] = make([]bool, n)
	}
	for i, l := range m.Lines {
		if l.BackSdef != SIDEDEF_NONE && !line[i] {
			a, b := gr.head[m.Sides[l.FrontSdef].Sector], gr.head[m.Sides[l.BackSdef].Sector]
			adj[a][b], adj[b][a] = true, true
		}
	}
	ds := make([][]int, n)
	far := 0
	for i := range ds {
		ds[i] = make([]int, n)
		for j := range ds[i] {
			ds[i][j] = 65535
		}
		ds[i][gr.head[i]] = 0
		q := []int{gr.head[i]}
		for len(q) > 0 {
			x := q[0]
			q = q[1:]
			for y := range adj {
				if adj[x][y] && ds[i][y] == 65535 {
					ds[i][y] = ds[i][x] + 1
					far = vfMax(far, ds[i][y])
					q = append(q, y)
				}
			}
		}
		for j := range ds[i] {
			ds[i][j] = ds[i][gr.head[j]]
		}
	}
	if h.n(10) == 0 { // a line that is no option
		bad := []string{"INVERT", "  invert # BLIND 1 1", "INVERT # 1", "BLIND x 1", "BLIND 1", "INCLUDE (1", "FOO 1", "MAP", "LENGTH", "INVERT LENGTH 1", "BAND LENGTH 2 3", "INVERT GROUP 1 2",
			"BLIND", "GROUP 1", "INVERT INVERT BLIND 1 1", "BAND BLIND 1 2", "LENGTH 1 2", "INCLUDE 1", "REPORT x", "BAND", "INVERT BAND", "INVERT INCLUDE 0 1", "BLIND 1 (1"}
		k := h.n(len(lines) + 1)
		ls := append(append(append([]string{}, lines[:k]...), bad[h.n(len(bad))]), lines[k:]...)
		h.check("refuse", fmt.Sprintf("%s, .rej: %s", m.desc, strings.Join(ls, " / ")), true, m.vfMap, func() string {
			os.Remove(out)
			if err := os.WriteFile(h.path("in.rej"), []byte(strings.Join(ls, ending)+ending), 0644); err != nil {
				return err.Error()
			}
			code, log := h.tool(append(append([]string{}, args...), in, "-o", out)...)
			if code == 0 || !strings.Contains(log, "contains syntax errors") {
				return fmt.Sprintf("exit code %d, syntax error not reported: %s", code, vfTail(log))
			}
			if _, err := os.Stat(out); err == nil {
				return "output written in spite of syntax errors"
			}
			return ""
		})
		return
	}
	desc := fmt.Sprintf("%s; %d lines, options %s .rej: %s", m.desc, len(m.Lines), strings.Join(args, " "), strings.Join(lines, " / "))
	h.check("options", desc, false, m.vfMap, func() string {
		bits, e := run(base)
		if e != "" {
			return "with " + strings.Join(base, " / ") + ": " + e
		}
		got, e := run(lines)
		if e != "" {
			return e
		}
		rep := rpt()
		orig := append([]byte{}, bits...)
		// LENGTH: neighbours see each other whatever it is
		near := map[[2]int]bool{}
		for i, l := range m.Lines {
			if l.BackSdef != SIDEDEF_NONE && !line[i] {
				a, b := int(m.Sides[l.FrontSdef].Sector), int(m.Sides[l.BackSdef].Sector)
				for _, x := range gr.all[gr.head[a]] {
					for _, y := range gr.all[gr.head[b]] {
						near[[2]int{x, y}], near[[2]int{y, x}] = true, true
					}
				}
			}
		}
		length := -1
		for _, os := range [][]vfOpt{glob, own} {
			for _, o := range os {
				if o.kind == "LENGTH" {
					length = o.a
				}
			}
		}
		set := func(i, j int, v byte) { bits[i*n+j] = v }
		if length >= 0 {
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					if gr.head[i] != gr.head[j] && ds[i][j] > length && !near[[2]int{i, j}] {
						set(i, j, 1)
					}
				}
			}
		}
		// BLIND and SAFE
		for pass, kind := range []string{"BLIND", "SAFE"} {
			st := make([]vfBS, n)
			for _, o := range opts {
				if o.kind != kind {
					continue
				}
				for _, v := range o.l {
					if v < 0 || v >= n {
						continue
					}
					for _, s := range gr.all[gr.head[v]] {
						switch {
						case o.band && o.inv:
							st[s] = vfBS{8, o.a, o.b}
						case o.band:
							st[s] = vfBS{4, o.a, o.b}
						case st[s].st >= 4:
						case o.inv:
							st[s].st |= 2
							st[s].hi = o.a
						default:
							st[s].st |= 1
							st[s].lo = o.a
						}
					}
				}
			}
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					if st[i].hides(ds[i][j]) {
						if pass == 0 {
							set(i, j, 1)
						} else {
							set(j, i, 1)
						}
					}
				}
			}
		}
		cells := func(o vfOpt, f func(i, j int)) {
			for _, i := range o.l {
				for _, j := range o.m {
					if i >= 0 && j >= 0 && i < n && j < n {
						for _, a := range gr.all[i] {
							for _, b := range gr.all[j] {
								f(a, b)
							}
						}
					}
				}
			}
		}
		// VORTEX: what is seen through it is judged as a set
		free := map[int]bool{} // cells of which only one direction is known
		through := false
		lo := append([]byte{}, bits...) // 0: must be visible
		vx := map[int]bool{}
		for _, o := range opts {
			if o.kind != "VORTEX" {
				continue
			}
			through = true
			cells(o, func(i, j int) { lo[i*n+j], lo[j*n+i] = 0, 0; vx[i], vx[j] = true, true })
			for _, l := range [][]int{o.l, o.m} {
				for _, v := range l {
					for b := 0; b < n; b++ {
						if b == v || gr.head[b] == v {
							vx[b] = true
						}
					}
				}
			}
		}
		if through {
			pre := append([]byte{}, lo...)
			for _, o := range opts {
				if o.kind != "VORTEX" {
					continue
				}
				for _, sw := range [][2][]int{{o.l, o.m}, {o.m, o.l}} {
					for _, a := range sw[0] {
						for _, b := range sw[1] {
							if a < 0 || b < 0 || a >= n || b >= n {
								continue
							}
							for x := 0; x < n; x++ {
								for y := 0; y < n; y++ {
									if pre[x*n+a] == 0 && pre[b*n+y] == 0 {
										lo[x*n+y] = 0
									}
								}
							}
						}
					}
				}
			}
			// nothing is seen that could not be by going through vortexes
			reach := append([]byte{}, pre...)
			for _, o := range opts { // one of the lists may name no sector there is
				in := func(l []int) bool {
					for _, v := range l {
						if v >= 0 && v < n {
							return true
						}
					}
					return false
				}
				if o.kind == "VORTEX" && in(o.l) != in(o.m) {
					for v := range vx {
						for w := range vx {
							reach[v*n+w] = 0
						}
					}
				}
			}
			for ch := true; ch; {
				ch = false
				for v := 0; v < n; v++ {
					if !vx[v] {
						continue
					}
					for x := 0; x < n; x++ {
						if reach[x*n+v] != 0 {
							continue
						}
						for w := 0; w < n; w++ {
							if !vx[w] {
								continue
							}
							for y := 0; y < n; y++ {
								if reach[w*n+y] == 0 && reach[x*n+y] != 0 {
									reach[x*n+y] = 0
									ch = true
								}
							}
						}
					}
				}
			}
			for k := range bits {
				bits[k] = lo[k]
				if lo[k] != reach[k] {
					free[k] = true
				}
			}
		}
		for pass, kind := range []string{"INCLUDE", "EXCLUDE"} {
			for _, o := range opts {
				if o.kind == kind {
					cells(o, func(i, j int) { bits[i*n+j] = byte(pass); delete(free, i*n+j) })
				}
			}
		}
		if !bytes.Equal(bits, orig) {
			h.note(desc)
		}
		for k := range bits {
			if got[k] != bits[k] && !free[k] {
				return fmt.Sprintf("sector %d to %d (distance %d): bit %d, not %d; it is %d without the options that are put on top", k/n, k%n, ds[k/n][k%n], got[k], bits[k], orig[k])
			}
		}
		// REPORT: those of the map, or else the global ones
		var asked []int
		for _, os := range [][]vfOpt{own, glob} {
			for _, o := range os {
				if o.kind == "REPORT" {
					asked = append(asked, o.a)
				}
			}
			if len(asked) > 0 {
				break
			}
		}
		var want []string
		for _, d := range asked {
			want = append(want, "#")
			for i := 0; i < n; i++ {
				for j := i + 1; j < n; j++ {
					if ds[i][j] > d && got[i*n+j] == 0 && got[j*n+i] == 0 {
						want = append(want, fmt.Sprintf("%d,%d", i, j))
					}
				}
			}
		}
		var have []string
		ls := strings.Split(rep, ending)
		for i, s := range ls {
			if i == 0 && len(asked) > 0 && !strings.HasPrefix(s, "# ") {
				return fmt.Sprintf("report starts with %q", s)
			}
			if strings.HasPrefix(s, "# MAP01") {
				have = append(have, "#")
			} else if s != "" && s[0] != '#' {
				have = append(have, s)
			}
		}
		if strings.Join(want, " ") != strings.Join(have, " ") {
			return fmt.Sprintf("report %q, not %q", have, want)
		}
		return ""
	})
}

func (o *vfOpt) plain() string {
	s := fmt.Sprintf("%s %d", o.kind, o.a)
	for i, v := range o.l {
		if i == 0 {
			s += " ("
		}
		s += fmt.Sprint(v)
		if i == len(o.l)-1 {
			s += ")"
		} else {
			s += " "
		}
	}
	return s
}

// farCase: DISTANCE and LINE against the map without them
func (h *vfH) farCase() {
	g := vfGeoRand(h.rng, true)
	g.self = 0
	if h.n(2) == 0 {
		g.w, g.h = 3+h.n(8), 1+h.n(2)
		g.secs, g.split = g.w*g.h, 0
	}
	m := vfLattice(h.rng, g)
	n := len(m.Secs)
	var two []int
	for i, l := range m.Lines {
		if l.BackSdef != SIDEDEF_NONE && m.Sides[l.FrontSdef].Sector != m.Sides[l.BackSdef].Sector {
			two = append(two, i)
		}
	}
	if n < 3 || len(two) < 2 {
		return
	}
	in, out := h.path("in.wad"), h.path("out.wad")
	if vfWriteWad(in, m.lumps("MAP01", true)) != nil {
		return
	}
	D := h.n(g.size * vfMax(g.w, g.h))
	if h.n(10) == 0 {
		D = 100000
	}
	var opts []string
	var grp []int
	solid := map[int]bool{}
	dist := h.n(4) > 0
	if dist {
		opts = append(opts, fmt.Sprintf("DISTANCE %d", D))
	}
	if !dist || h.n(3) == 0 {
		for k := 1 + h.n(4); k > 0; k-- {
			i := two[h.n(len(two))]
			solid[i] = true
			opts = append(opts, fmt.Sprintf("LINE %d", i))
		}
	}
	if len(solid) == len(two) {
		return
	}
	if h.n(4) == 0 {
		grp = []int{h.n(n), h.n(n)}
		if grp[0] != grp[1] {
			opts = append(opts, fmt.Sprintf("GROUP %d (%d)", grp[0], grp[1]))
		} else {
			grp = nil
		}
	}
	args := []string{"-rm", "-n-", "-b-"}
	if h.n(3) == 0 {
		args[0] = "-rmg-"
	}
	if h.n(4) == 0 {
		args = append(args, "--nosymm")
	}
	desc := fmt.Sprintf("%s; %d lines, options %s .rej: %s", m.desc, len(m.Lines), strings.Join(args, " "), strings.Join(opts, " / "))
	h.check("far", desc, true, m.vfMap, func() string {
		os.WriteFile(h.path("in.rej"), []byte(strings.Join(opts, "\n")+"\n"), 0644)
		os.Remove(out)
		code, log := h.tool(append(append([]string{}, args...), in, "-o", out)...)
		if code != 0 {
			return fmt.Sprintf("exit code %d: %s", code, vfTail(log))
		}
		w, e := vfReadWad(out)
		if e != "" {
			return e
		}
		var rej []byte
		for _, l := range w.Lumps {
			if l.Name == "REJECT" {
				rej = l.Data
			}
		}
		if len(rej) != (n*n+7)/8 {
			return fmt.Sprintf("REJECT of %d bytes for %d sectors", len(rej), n)
		}
		hidden := func(i, j int) bool { return rej[(i*n+j)/8]>>uint((i*n+j)%8)&1 == 1 }
		head := make([]int, n)
		for i := range head {
			head[i] = i
		}
		if grp != nil {
			head[grp[1]] = grp[0]
		}
		bl := make([][]int, n)
		near := map[[2]int]bool{}
		comp := make([]int, n)
		for i := range comp {
			comp[i] = i
		}
		find := func(i int) int {
			for comp[i] != i {
				i = comp[i]
			}
			return i
		}
		for _, i := range two {
			if solid[i] {
				continue
			}
			a, b := int(m.Sides[m.Lines[i].FrontSdef].Sector), int(m.Sides[m.Lines[i].BackSdef].Sector)
			bl[head[a]] = append(bl[head[a]], i)
			bl[head[b]] = append(bl[head[b]], i)
			near[[2]int{a, b}], near[[2]int{b, a}] = true, true
			comp[find(head[a])] = find(head[b])
		}
		apart := func(s, t int) float64 {
			p := func(i int) (x1, y1, x2, y2 float64) {
				a, b := m.Verts[m.Lines[i].StartVertex], m.Verts[m.Lines[i].EndVertex]
				return float64(a.XPos), float64(a.YPos), float64(b.XPos), float64(b.YPos)
			}
			ax, ay, bx, by := p(s)
			cx, cy, dx, dy := p(t)
			return vfSegDist7(ax, ay, bx, by, cx, cy, dx, dy)
		}
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if i == j || head[i] == head[j] {
					if grp != nil && hidden(i, j) {
						return fmt.Sprintf("sectors %d and %d of one group are hidden from each other", i, j)
					}
					continue
				}
				if hidden(i, j) != hidden(j, i) {
					return fmt.Sprintf("sectors %d and %d: hidden one way only", i, j)
				}
				if near[[2]int{i, j}] && hidden(i, j) {
					return fmt.Sprintf("sectors %d and %d share a line and are hidden from each other", i, j)
				}
				if hidden(i, j) {
					continue
				}
				if args[0] == "-rm" && find(head[i]) != find(head[j]) {
					return fmt.Sprintf("sectors %d and %d are not connected by lines that can be seen through and are visible", i, j)
				}
				if !dist || near[[2]int{i, j}] {
					continue
				}
				if grp != nil { // neighbours of the group's sectors
					skip := false
					for a := range head {
						for b := range head {
							skip = skip || head[a] == head[i] && head[b] == head[j] && near[[2]int{a, b}]
						}
					}
					if skip {
						continue
					}
				}
				best := math.Inf(1)
				for _, s := range bl[head[i]] {
					for _, t := range bl[head[j]] {
						if s != t {
							best = math.Min(best, apart(s, t))
						}
					}
				}
				if best > float64(D)+.001 {
					return fmt.Sprintf("sectors %d and %d see each other; their lines are %.2f apart", i, j, best)
				}
			}
		}
		if D == 100000 && len(solid) == 0 && grp == nil {
			os.Remove(h.path("in.rej"))
			os.Remove(out)
			if code, log := h.tool("-n-", "-b-", strings.Replace(args[0], "m", "", 1), in, "-o", out); code != 0 {
				return fmt.Sprintf("exit code %d: %s", code, vfTail(log))
			}
			w, e := vfReadWad(out)
			if e != "" {
				return e
			}
			for _, l := range w.Lumps {
				if l.Name == "REJECT" && !bytes.Equal(l.Data, rej) {
					return "a DISTANCE greater than the map changes its REJECT"
				}
			}
		}
		return ""
	})
}

// distance between two segments that do not cross
func vfSegDist7(ax, ay, bx, by, cx, cy, dx, dy float64) float64 {
	pd := func(x, y, x1, y1, x2, y2 float64) float64 {
		ux, uy := x2-x1, y2-y1
		t := math.Max(0, math.Min(1, ((x-x1)*ux+(y-y1)*uy)/(ux*ux+uy*uy)))
		return math.Hypot(x-x1-t*ux, y-y1-t*uy)
	}
	d := []float64{pd(ax, ay, cx, cy, dx, dy), pd(bx, by, cx, cy, dx, dy), pd(cx, cy, ax, ay, bx, by), pd(dx, dy, ax, ay, bx, by)}
	sort.Float64s(d)
	return d[0]
}
