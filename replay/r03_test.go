package main

//use: common_wad_test.go
//use: common_wadcase_test.go

import (
	"bytes"
	"fmt"
	"os"
	"strings"
)

func vfRun(h *vfH) {
	h.rule = "random bit strings through the loader of reject tables, and random WADs with an options file that sources rejects from the map itself, from other maps of the same file and from another file, with assertions and changes on top; non-trivial when a reject was sourced"
	syslog.SetOutput(vfNull)
	for h.frac(0.15) {
		h.tableCase()
	}
	for !h.over() {
		h.sourceCase()
	}
}

var vfNull, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)

func (h *vfH) tableCase() {
	n := 1 + h.n([]int{4, 20, 90}[h.n(3)])
	src := make([]byte, (n*n+7)/8+h.n(2))
	h.rng.Read(src)
	dest := make([]byte, n*n+h.n(8))
	h.rng.Read(dest)
	was := append([]byte{}, dest...)
	h.check("table", fmt.Sprintf("%d sectors, lump %x", n, vfTrunc(string(src), 40)), n > 2, nil, func() string {
		if g := rejectLumpSize_nonUDMF(n); g != (n*n+7)/8 {
			return fmt.Sprintf("lump size %d for %d sectors", g, n)
		}
		setRejectTableFromSource(src, n, dest)
		for i := range dest {
			w := byte(VIS_VISIBLE)
			if i >= n*n {
				w = was[i]
			} else if src[i/8]>>(i%8)&1 == 1 {
				w = VIS_HIDDEN
			}
			if dest[i] != w {
				return fmt.Sprintf("cell %d is %d, not %d", i, dest[i], w)
			}
		}
		resetRejectTable(dest)
		for i := range dest {
			if dest[i] != VIS_UNKNOWN {
				return fmt.Sprintf("cell %d is %d after the reset", i, dest[i])
			}
		}
		return ""
	})
}

type vfPair struct{ a, b []int }
type vfAsk struct { // options of one frame
	noproc  bool
	wad, mp string
	asserts []vfPair
	want    []int
	inc, ex []vfPair
	others  bool // a line that is none of these
}

// vfLevels: the lumps of each level by marker, in order
type vfLevel struct {
	name string
	own  []int
}

func vfLevels(names []string) (out []vfLevel) {
	for i := 0; i < len(names); i++ {
		if vfIsMap(names[i]) {
			l := vfLevel{name: names[i]}
			for j := i + 1; j < len(names) && !vfIsMap(names[j]) && vfOwn(names[j]); j++ {
				l.own = append(l.own, j)
			}
			out = append(out, l)
		}
	}
	return
}

func vfListText(h *vfH, l []int, tail bool) string {
	var s []string
	for _, x := range l {
		s = append(s, fmt.Sprint(x))
	}
	if len(l) == 1 && h.n(2) == 0 || tail && h.n(3) == 0 {
		return strings.Join(s, " ")
	}
	switch h.n(3) {
	case 0:
		return "( " + strings.Join(s, " ") + " )"
	case 1:
		return "(" + strings.Join(s, ",") + ")"
	}
	return "(" + strings.Join(s, " ") + ")"
}

func (h *vfH) askFrame(names []string, maxSec int) (a vfAsk, text, base []string) {
	list := func() (l []int) {
		for k := 1 + h.n(3); k > 0; k-- {
			v := h.n(maxSec + 1)
			if h.n(12) == 0 {
				v = maxSec + h.n(9)
			}
			l = append(l, v)
		}
		return
	}
	put := func(b bool, s string) {
		if h.n(4) == 0 {
			s = strings.ToLower(s)
		}
		if h.n(6) == 0 {
			s = "  " + s + "  "
		}
		text = append(text, s)
		if b {
			base = append(base, s)
		}
	}
	for k := []int{1, 1, 1, 2, 4}[h.n(5)]; k > 0; k-- {
		switch h.n(8) {
		case 0, 1, 2, 3:
			s := []string{"NOPROCESS", "NOPRO", "NOP"}[h.n(3)]
			a.noproc = true
			a.wad, a.mp = "", ""
			if h.n(3) > 0 {
				a.wad = []string{"in.wad", "in.wad", "other.wad", "other.wad", "missing.wad"}[h.n(5)]
				q := a.wad
				if h.n(3) == 0 {
					q = "\"" + q + "\""
				}
				s += " " + q
				if h.n(3) > 0 {
					var ms []string
					for _, n := range names {
						if vfIsMap(n) {
							ms = append(ms, n)
						}
					}
					ms = append(ms, "MAP77")
					a.mp = ms[h.n(len(ms))]
					s += " " + a.mp
				}
				text = append(text, s) // names keep their case
				break
			}
			put(false, s)
		case 4:
			p := vfPair{list(), list()}
			a.inc = append(a.inc, p)
			put(true, "INCLUDE "+vfListText(h, p.a, false)+" "+vfListText(h, p.b, true))
		case 5:
			p := vfPair{list(), list()}
			a.ex = append(a.ex, p)
			put(true, "EXCLUDE "+vfListText(h, p.a, false)+" "+vfListText(h, p.b, true))
		case 6:
			p := vfPair{list()[:1], list()[:1]}
			a.asserts = append(a.asserts, p)
			a.want = append(a.want, h.n(2))
			put(false, fmt.Sprintf("ASSERT %s %s %d", vfListText(h, p.a, false), vfListText(h, p.b, false), a.want[len(a.want)-1]))
		case 7:
			put(true, "# NOPROCESS missing.wad")
		}
	}
	return
}

func (h *vfH) sourceCase() {
	names := vfNames(h.rng, true)
	for k := h.n(3); k > 0; k-- {
		names = append(names, vfNames(h.rng, true)...)
	}
	// one REJECT a level
	seen, nn := false, []string{}
	for _, n := range names {
		if vfIsMap(n) {
			seen = false
		}
		if n == "REJECT" && seen {
			continue
		}
		seen = seen || n == "REJECT"
		nn = append(nn, n)
	}
	names = nn
	lumps := vfFill(h.rng, names)
	other := vfFill(h.rng, names)
	levels := vfLevels(names)
	maxSec := 0
	secs := map[string]int{}
	for w, ls := range [][]vfLump{lumps, other} {
		for _, l := range levels {
			n := -1
			for _, i := range l.own {
				if names[i] == "SECTORS" {
					n = len(ls[i].Data) / 26
				}
			}
			if w == 0 {
				secs[l.name] = n
			}
			if n > maxSec {
				maxSec = n
			}
			for _, i := range l.own {
				if names[i] == "REJECT" {
					k := (n*n + 7) / 8
					switch h.n(8) {
					case 0:
						k = 0
					case 1:
						k += h.n(3) - 1
					}
					if k < 0 {
						k = 0
					}
					ls[i].Data = make([]byte, k)
					h.rng.Read(ls[i].Data)
				}
			}
		}
	}
	want, hexen := vfExpect(names, func(string) bool { return true }, false, true)
	if len(hexen) == 0 {
		return
	}
	// the options file
	var text, base []string
	frames := map[string]*vfAsk{}
	add := func(key string) {
		a, t, b := h.askFrame(names, maxSec)
		text = append(text, t...)
		base = append(base, b...)
		f := frames[key]
		if f == nil {
			frames[key] = &a
			return
		}
		if a.noproc {
			f.noproc, f.wad, f.mp = true, a.wad, a.mp
		}
		f.asserts = append(f.asserts, a.asserts...)
		f.want = append(f.want, a.want...)
		f.inc = append(f.inc, a.inc...)
		f.ex = append(f.ex, a.ex...)
	}
	if h.n(2) == 0 {
		add("")
	}
	for k := 1 + h.n(4); k > 0; k-- {
		l := levels[h.n(len(levels))].name
		text = append(text, l)
		base = append(base, l)
		add(l)
	}
	in, out := h.path("in.wad"), h.path("out.wad")
	if vfLayWad(h.rng, in, "PWAD", lumps) != nil || vfLayWad(h.rng, h.path("other.wad"), "PWAD", other) != nil {
		return
	}
	args := []string{"-rm", "-n-", "-b-"}
	if h.n(3) == 0 {
		args = append(args, "-d")
	}
	ending := []string{"\n", "\r\n"}[h.n(2)]
	run := func(lines []string) (*vfWad, string) {
		os.Remove(out)
		if err := os.WriteFile(h.path("in.rej"), []byte(strings.Join(lines, ending)+ending), 0644); err != nil {
			return nil, err.Error()
		}
		code, log := h.tool(append(append([]string{}, args...), in, "-o", out)...)
		if code != 0 {
			return nil, fmt.Sprintf("exit code %d: %s", code, vfTrunc(log, 1500))
		}
		w, e := vfReadWad(out)
		if e == "" && len(w.Lumps) != len(want) {
			e = fmt.Sprintf("%d lumps instead of %d", len(w.Lumps), len(want))
		}
		return w, e
	}
	// what a level gets: source bytes, or nil when it is built
	type plan struct {
		src      []byte
		direct   bool
		inc, ex  []vfPair
		n        int
		anything bool
	}
	planFor := func(level string, own map[string]int) (p plan) {
		g, l := frames[""], frames[level]
		if l == nil {
			l, g = g, nil
		}
		p.n = -1
		if i, ok := own["SECTORS"]; ok {
			p.n = len(lumps[i].Data) / 26
		}
		if l == nil {
			return
		}
		var all []*vfAsk
		if g != nil {
			all = append(all, g)
		}
		all = append(all, l)
		p.direct = l.noproc && len(l.inc)+len(l.ex)+len(l.asserts) == 0 && (g == nil || len(g.inc)+len(g.ex)+len(g.asserts) == 0)
		e := l
		if !e.noproc {
			e = g
		}
		for _, a := range all {
			p.inc = append(p.inc, a.inc...)
			p.ex = append(p.ex, a.ex...)
		}
		if e == nil || !e.noproc {
			return
		}
		p.anything = true
		var src []byte
		if e.wad == "" {
			if i, ok := own["REJECT"]; ok {
				src = lumps[i].Data
			}
		} else if e.wad != "missing.wad" {
			ls := lumps
			if e.wad == "other.wad" {
				ls = other
			}
			m := e.mp
			if m == "" {
				m = level
			}
			for _, v := range levels {
				if v.name == m {
					for _, i := range v.own {
						if names[i] == "REJECT" {
							src = ls[i].Data
						}
					}
					break
				}
			}
		}
		if len(src) == 0 || len(src) != (p.n*p.n+7)/8 {
			return
		}
		for _, a := range all {
			for k, q := range a.asserts {
				for _, i := range q.a {
					for _, j := range q.b {
						if i >= p.n || j >= p.n || int(src[(i*p.n+j)/8]>>((i*p.n+j)%8)&1) != a.want[k] {
							return
						}
					}
				}
			}
		}
		p.src = src
		return
	}
	var plans []plan
	var marks []string
	sourced := false
	for i, x := range want {
		if x.marker {
			own := map[string]int{}
			for k := i + 1; k < len(want) && want[k].level == x.level && !want[k].marker; k++ {
				if want[k].Idx >= 0 {
					own[want[k].Name] = want[k].Idx
				}
			}
			p := planFor(x.Name, own)
			plans = append(plans, p)
			marks = append(marks, x.Name)
			sourced = sourced || p.src != nil
		}
	}
	desc := fmt.Sprintf("file %s options %v .rej: %s", strings.Join(names, " "), args, strings.Join(text, " / "))
	h.check("source", desc, sourced, nil, func() string {
		var b *vfWad
		w, e := run(text)
		if e != "" {
			return e
		}
		for i, x := range want {
			if x.level < 0 || x.Name != "REJECT" {
				continue
			}
			p := plans[x.level]
			got := w.Lumps[i].Data
			if p.src == nil {
				if b == nil {
					if b, e = run(base); e != "" {
						return "without NOPROCESS: " + e
					}
				}
				if !bytes.Equal(got, b.Lumps[i].Data) {
					return fmt.Sprintf("%s: nothing to source, but the reject is %x and not %x as without NOPROCESS", marks[x.level], got, b.Lumps[i].Data)
				}
				continue
			}
			if p.direct {
				if !bytes.Equal(got, p.src) {
					return fmt.Sprintf("%s: reject %x, not the sourced %x", marks[x.level], got, p.src)
				}
				continue
			}
			n := p.n
			bits := make([]byte, n*n)
			for k := range bits {
				bits[k] = p.src[k/8] >> (k % 8) & 1
			}
			for t, ps := range [][]vfPair{p.inc, p.ex} {
				for _, q := range ps {
					for _, i := range q.a {
						for _, j := range q.b {
							if i < n && j < n {
								bits[i*n+j] = byte(t)
							}
						}
					}
				}
			}
			if len(got) != len(p.src) {
				return fmt.Sprintf("%s: reject of %d bytes", marks[x.level], len(got))
			}
			for k := range bits {
				if got[k/8]>>(k%8)&1 != bits[k] {
					return fmt.Sprintf("%s: sector %d to %d is %d in the reject %x; sourced %x", marks[x.level], k/n, k%n, got[k/8]>>(k%8)&1, got, p.src)
				}
			}
		}
		return ""
	})
}
