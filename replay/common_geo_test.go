package main

// Random maps on a jittered lattice: cells of four corners, some split by a
// diagonal, given to sectors at random or left solid.

import (
	"fmt"
	"math"
	"math/rand"
)

type vfTri struct {
	x, y [3]float64
	sec  int
}

type vfGeo struct {
	vfMap
	tris      []vfTri // the plane's pieces and their sectors (-1: solid)
	desc      string
	size      int
	hexLines  []HexenLinedef // in place of Lines
	hexThings []HexenThing
	cull      int          // 1, 2: lines without effect may be left out
	isle      map[int]bool // sectors all of whose lines have them on both sides
}

type vfGeoOpt struct {
	solid, self, split, mid, same float64
	jitter                        float64
	w, h, size, secs              int
	insets                        int // so many cells get such a sector in their middle
	isles                         int // so many cells become sectors of their own that only refer to themselves
}

func vfGeoRand(r *rand.Rand, small bool) vfGeoOpt {
	o := vfGeoOpt{w: 1 + r.Intn(5), h: 1 + r.Intn(5), size: []int{64, 128, 200, 512, 1500}[r.Intn(5)]}
	if !small && r.Intn(4) == 0 {
		o.w, o.h = 4+r.Intn(9), 4+r.Intn(9)
	}
	o.solid = []float64{0, .1, .25, .5}[r.Intn(4)]
	o.self = []float64{0, 0, .1, .5}[r.Intn(4)]
	o.split = []float64{0, .2, .6}[r.Intn(3)]
	o.mid = []float64{0, 0, .2}[r.Intn(3)]
	o.jitter = []float64{0, .05, .22, .22}[r.Intn(4)]
	o.secs = 1 + r.Intn(o.w*o.h+2)
	return o
}

func vfLattice(r *rand.Rand, o vfGeoOpt) *vfGeo {
	m := &vfGeo{size: o.size}
	m.desc = fmt.Sprintf("%dx%d cells of %d, solid %.2f, jitter %.2f, split %.2f, self %.2f, mid %.2f, %d sectors, %d isles, %d insets", o.w, o.h, o.size, o.solid, o.jitter, o.split, o.self, o.mid, o.secs, o.isles, o.insets)
	lim := 32000 - (o.w+1)*o.size
	if l := 32000 - (o.h+1)*o.size; l < lim {
		lim = l
	}
	x0, y0 := -o.w*o.size/2, -o.h*o.size/2
	if lim > 0 {
		s := lim
		if r.Intn(3) > 0 {
			s = vfMin(lim, 2000)
		}
		x0 += r.Intn(s) - s/2
		y0 += r.Intn(s) - s/2
	}
	jit := func() int {
		a := int(o.jitter * float64(o.size))
		if a == 0 {
			return 0
		}
		return r.Intn(2*a+1) - a
	}
	for y := 0; y <= o.h; y++ {
		for x := 0; x <= o.w; x++ {
			m.Verts = append(m.Verts, Vertex{XPos: int16(x0 + x*o.size + jit()), YPos: int16(y0 + y*o.size + jit())})
		}
	}
	at := func(x, y int) int { return y*(o.w+1) + x }
	// two halves of each cell; when not split both have the same sector and no line between
	type half struct{ sec [2]int }
	cells := make([]half, o.w*o.h)
	pick := func() int {
		if r.Float64() < o.solid {
			return -1
		}
		return r.Intn(o.secs)
	}
	open := false
	for !open {
		for i := range cells {
			a := pick()
			b := a
			if r.Float64() < o.split {
				b = pick()
			}
			cells[i] = half{[2]int{a, b}}
			open = open || a >= 0 || b >= 0
		}
	}
	isle := map[int]bool{}
	for k := 0; k < o.isles && o.w > 2 && o.h > 2; k++ {
		x, y := 1+r.Intn(o.w-2), 1+r.Intn(o.h-2)
		free := true
		around := []int{(y-1)*o.w + x, (y+1)*o.w + x, y*o.w + x - 1, y*o.w + x + 1}
		for _, i := range append(around, y*o.w+x) {
			free = free && cells[i].sec[0] < o.secs
		}
		for dy := -2; dy <= 2; dy++ { // not next to the surroundings of another
			for dx := -2; dx <= 2; dx++ {
				if u, v := x+dx, y+dy; u >= 0 && v >= 0 && u < o.w && v < o.h && cells[v*o.w+u].sec[0] >= o.secs {
					free = false
				}
			}
		}
		if !free {
			continue
		}
		t := r.Intn(o.secs)
		for _, i := range around {
			cells[i] = half{[2]int{t, t}}
		}
		cells[y*o.w+x] = half{[2]int{o.secs + k, o.secs + k}}
	}
	// only sectors that are used
	ren := map[int]int{-1: -1}
	for i := range cells {
		for k := range cells[i].sec {
			s := cells[i].sec[k]
			if _, ok := ren[s]; !ok {
				ren[s] = len(m.Secs)
				m.Secs = append(m.Secs, Sector{CeilHeight: 128, FloorName: [8]byte{'F'}, CeilName: [8]byte{'C'}, LightLevel: 160})
			}
			if s >= o.secs {
				isle[ren[s]] = true
			}
			cells[i].sec[k] = ren[s]
		}
	}
	// half 0 lies below the diagonal from (x,y) to (x+1,y+1), half 1 above
	get := func(x, y, k int) int {
		if x < 0 || y < 0 || x >= o.w || y >= o.h {
			return -1
		}
		return cells[y*o.w+x].sec[k]
	}
	m.isle = isle
	inset := map[int]bool{}
	for k := 0; k < o.insets; k++ {
		if i := r.Intn(len(cells)); cells[i].sec[0] >= 0 && cells[i].sec[0] == cells[i].sec[1] && !isle[cells[i].sec[0]] {
			inset[i] = true
		}
	}
	edge := func(a, b int, right, left int) { // right: the sector to the right of a->b
		if right != left && isle[right] {
			left = right
		} else if right != left && isle[left] {
			right = left
		} else if right == left && (right < 0 || r.Float64() >= o.self) {
			return
		}
		if right < 0 || left >= 0 && r.Intn(2) == 0 {
			a, b = b, a
			right, left = left, right
		}
		add := func(a, b int) { m.line(a, b, right, left) }
		if r.Float64() < o.mid {
			v := m.Verts
			m.Verts = append(m.Verts, Vertex{XPos: int16((int(v[a].XPos) + int(v[b].XPos)) / 2), YPos: int16((int(v[a].YPos) + int(v[b].YPos)) / 2)})
			n := len(m.Verts) - 1
			add(a, n)
			add(n, b)
			return
		}
		add(a, b)
	}
	for y := 0; y <= o.h; y++ {
		for x := 0; x <= o.w; x++ {
			if x < o.w { // bottom edge of (x,y), going right: left is above, right is below
				edge(at(x, y), at(x+1, y), get(x, y-1, 1), get(x, y, 0))
			}
			if y < o.h { // left edge of (x,y), going up: right is the cell
				edge(at(x, y), at(x, y+1), get(x, y, 1), get(x-1, y, 0))
			}
			if x < o.w && y < o.h && inset[y*o.w+x] {
				c := [4]int{at(x, y), at(x+1, y), at(x+1, y+1), at(x, y+1)}
				mx, my, d := 0, 0, o.size/8
				for _, i := range c {
					mx, my = mx+int(m.Verts[i].XPos), my+int(m.Verts[i].YPos)
				}
				in := [4]int{}
				for k := range in {
					in[k] = len(m.Verts)
					m.Verts = append(m.Verts, Vertex{XPos: int16(mx/4 + []int{-d, d, d, -d}[k] + r.Intn(d/2+1)), YPos: int16(my/4 + []int{-d, -d, d, d}[k] + r.Intn(d/2+1))})
				}
				s := len(m.Secs)
				isle[s] = true
				m.Secs = append(m.Secs, Sector{CeilHeight: 128, FloorName: [8]byte{'F'}, CeilName: [8]byte{'C'}, LightLevel: 160})
				tri := func(a, b, c, sec int) {
					t := vfTri{sec: sec}
					for k, i := range []int{a, b, c} {
						t.x[k], t.y[k] = float64(m.Verts[i].XPos), float64(m.Verts[i].YPos)
					}
					m.tris = append(m.tris, t)
				}
				for k := range c {
					j := (k + 1) % 4
					tri(c[k], c[j], in[j], get(x, y, 0))
					tri(c[k], in[j], in[k], get(x, y, 0))
					if r.Intn(2) == 0 {
						m.line(in[k], in[j], s, s)
					} else {
						m.line(in[j], in[k], s, s)
					}
				}
				tri(in[0], in[1], in[2], s)
				tri(in[0], in[2], in[3], s)
			} else if x < o.w && y < o.h {
				edge(at(x, y), at(x+1, y+1), get(x, y, 0), get(x, y, 1))
				p := func(i int) (float64, float64) { return float64(m.Verts[i].XPos), float64(m.Verts[i].YPos) }
				for k := 0; k < 2; k++ {
					var t vfTri
					t.x[0], t.y[0] = p(at(x, y))
					t.x[1], t.y[1] = p(at(x+1, y+1))
					if k == 0 {
						t.x[2], t.y[2] = p(at(x+1, y))
					} else {
						t.x[2], t.y[2] = p(at(x, y+1))
					}
					t.sec = get(x, y, k)
					m.tris = append(m.tris, t)
				}
			}
		}
	}
	// a sector all of whose lines were left out would have no seg
	for i, l := range m.Lines {
		if len(m.Things) < 4 && i%5 == 0 {
			m.Things = append(m.Things, Thing{XPos: m.Verts[l.StartVertex].XPos, YPos: m.Verts[l.StartVertex].YPos, Type: int16(1 + len(m.Things)), Flags: 7})
		}
	}
	return m
}

// in reports whether the point lies in the piece, at least d from its edges.
func (t *vfTri) in(x, y, d float64) bool {
	var pos, neg bool
	for i := 0; i < 3; i++ {
		j := (i + 1) % 3
		dx, dy := t.x[j]-t.x[i], t.y[j]-t.y[i]
		c := (dx*(y-t.y[i]) - dy*(x-t.x[i])) / math.Hypot(dx, dy)
		if c > -d && c < d {
			return false
		}
		pos = pos || c > 0
		neg = neg || c < 0
	}
	return pos != neg
}

// at gives a random point of the piece.
func (t *vfTri) at(r *rand.Rand) (float64, float64) {
	a, b := r.Float64(), r.Float64()
	if a+b > 1 {
		a, b = 1-a, 1-b
	}
	return t.x[0] + a*(t.x[1]-t.x[0]) + b*(t.x[2]-t.x[0]), t.y[0] + a*(t.y[1]-t.y[0]) + b*(t.y[2]-t.y[0])
}
