package main

//use: common_wad_test.go
//use: common_geo_test.go

import (
	"fmt"
	"math"
	"os"
	"strings"
)

var vfNull, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)

func vfRun(h *vfH) {
	h.rule = "whole runs over random maps (jittered lattices with solid cells and diagonals): straight segments between random points of two sectors, compared with the bits of the REJECT lump; non-trivial when some pair is visible and some hidden"
	syslog.SetOutput(vfNull)
	for !h.over() {
		h.sightCase()
	}
}

// distance between the segment p-q and the segment a-b
func vfSegDist(px, py, qx, qy, ax, ay, bx, by float64) float64 {
	side := func(x1, y1, x2, y2, x, y float64) float64 { return (x2-x1)*(y-y1) - (y2-y1)*(x-x1) }
	s1, s2 := side(px, py, qx, qy, ax, ay), side(px, py, qx, qy, bx, by)
	s3, s4 := side(ax, ay, bx, by, px, py), side(ax, ay, bx, by, qx, qy)
	if (s1 > 0) != (s2 > 0) && (s3 > 0) != (s4 > 0) {
		return 0
	}
	pd := func(x, y, x1, y1, x2, y2 float64) float64 {
		dx, dy := x2-x1, y2-y1
		l := dx*dx + dy*dy
		t := 0.0
		if l > 0 {
			t = math.Max(0, math.Min(1, ((x-x1)*dx+(y-y1)*dy)/l))
		}
		return math.Hypot(x-x1-t*dx, y-y1-t*dy)
	}
	return math.Min(math.Min(pd(ax, ay, px, py, qx, qy), pd(bx, by, px, py, qx, qy)), math.Min(pd(px, py, ax, ay, bx, by), pd(qx, qy, ax, ay, bx, by)))
}

func (h *vfH) sightCase() {
	o := vfGeoRand(h.rng, h.n(3) > 0)
	if h.n(2) == 0 { // small maps with corners to look around
		o.w, o.h = 2+h.n(3), 2+h.n(3)
		o.jitter, o.mid, o.secs = .22, 0, 16
		if o.solid == 0 {
			o.solid = .2
		}
	}
	if h.n(4) == 0 { // sectors that only refer to themselves, inside another
		o.w, o.h = 3+h.n(4), 3+h.n(4)
		o.isles = 1 + h.n(3)
	}
	if h.n(4) == 0 {
		o.insets = 1 + h.n(4)
	}
	m := vfLattice(h.rng, o)
	n := len(m.Secs)
	if len(m.Lines) == 0 || n < 2 {
		return
	}
	args := []string{"-n-", []string{"-b-", "-b-", "-b"}[h.n(3)]}
	s := "-r"
	graphs := h.n(3) > 0
	if !graphs {
		s += "g-"
	}
	mode := 0
	if h.n(3) == 0 {
		mode = h.n(4)
		s += fmt.Sprintf("s=%d", mode)
	}
	args = append(args, s)
	if h.n(4) == 0 {
		args = append(args, "--nosymm")
	}
	in, out := h.path("in.wad"), h.path("out.wad")
	if vfWriteWad(in, m.lumps("MAP01", h.n(3) > 0)) != nil {
		return
	}
	os.Remove(out)
	desc := fmt.Sprintf("%s; %d lines, options %s", m.desc, len(m.Lines), strings.Join(args, " "))
	h.check("sight", desc, false, m.vfMap, func() string {
		code, log := h.tool(append(append([]string{}, args...), in, "-o", out)...)
		if code != 0 {
			return fmt.Sprintf("exit code %d: %s", code, vfTail(log))
		}
		w, e := vfReadWad(out)
		if e != "" {
			return e
		}
		var rej []byte
		for _, l := range w.Lumps {
			if l.Name == "REJECT" {
				rej = l.Data
			}
		}
		if len(rej) != (n*n+7)/8 {
			return fmt.Sprintf("REJECT of %d bytes for %d sectors", len(rej), n)
		}
		hidden := func(i, j int) bool { return rej[(i*n+j)/8]>>uint((i*n+j)%8)&1 == 1 }
		// components
		comp := make([]int, n)
		for i := range comp {
			comp[i] = i
		}
		find := func(i int) int {
			for comp[i] != i {
				i = comp[i]
			}
			return i
		}
		var walls [][4]float64
		two := 0
		near, self := map[[2]int]bool{}, map[int]bool{}
		for _, l := range m.Lines {
			a, b := m.Verts[l.StartVertex], m.Verts[l.EndVertex]
			if l.BackSdef == SIDEDEF_NONE {
				walls = append(walls, [4]float64{float64(a.XPos), float64(a.YPos), float64(b.XPos), float64(b.YPos)})
				continue
			}
			if f, g := int(m.Sides[l.FrontSdef].Sector), int(m.Sides[l.BackSdef].Sector); f != g {
				two++
				comp[find(f)] = find(g)
				near[[2]int{f, g}] = true
			} else {
				self[f] = true
			}
		}
		if two == 0 && (mode != 2 || len(m.isle) == 0) {
			for i, b := range rej {
				if b != 0 {
					return fmt.Sprintf("byte %d of the REJECT of a map with no lines to see through is %d", i, b)
				}
			}
			return ""
		}
		vis, hid := 0, 0
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if hidden(i, j) != hidden(j, i) {
					return fmt.Sprintf("sectors %d and %d: hidden one way only", i, j)
				}
				if i == j && hidden(i, j) {
					return fmt.Sprintf("sector %d is hidden from itself", i)
				}
				if near[[2]int{i, j}] && hidden(i, j) {
					return fmt.Sprintf("sectors %d and %d share a two-sided line and are hidden from each other", i, j)
				}
				if mode == 0 && self[i] && hidden(i, j) {
					return fmt.Sprintf("sector %d has a line with both sides in it and is hidden from %d", i, j)
				}
				if mode < 2 && m.isle[i] && hidden(i, j) {
					return fmt.Sprintf("sector %d only refers to itself and is hidden from %d", i, j)
				}
				if graphs && find(i) != find(j) && !hidden(i, j) && !(mode < 3 && (self[i] || self[j])) {
					return fmt.Sprintf("sectors %d and %d are not connected and the REJECT has them visible", i, j)
				}
				if hidden(i, j) {
					hid++
				} else if i != j {
					vis++
				}
			}
		}
		if vis > 0 && hid > 0 {
			h.note(desc)
		}
		for t := 0; t < 60000; t++ {
			a, b := m.tris[h.n(len(m.tris))], m.tris[h.n(len(m.tris))]
			if a.sec < 0 || b.sec < 0 || a.sec == b.sec || !hidden(a.sec, b.sec) {
				continue
			}
			if mode == 3 && (m.isle[a.sec] || m.isle[b.sec]) {
				continue // such a sector is not taken to have neighbours
			}
			px, py := a.at(h.rng)
			qx, qy := b.at(h.rng)
			if !a.in(px, py, 0.01) || !b.in(qx, qy, .01) {
				continue
			}
			clear := math.Inf(1)
			for _, w := range walls {
				clear = math.Min(clear, vfSegDist(px, py, qx, qy, w[0], w[1], w[2], w[3]))
				if clear == 0 {
					break
				}
			}
			if clear > 0 {
				if k := os.Getenv("VF_KEEP"); k != "" {
					b, _ := os.ReadFile(in)
					os.WriteFile(fmt.Sprintf("%s%d-%d.wad", k, len(m.Lines), h.cases), b, 0644)
				}
				return fmt.Sprintf("sectors %d and %d are hidden from each other, and the segment from (%.2f,%.2f) to (%.2f,%.2f) keeps %.3f away from all walls", a.sec, b.sec, px, py, qx, qy, clear)
			}
		}
		return ""
	})
}
