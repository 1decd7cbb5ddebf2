package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"strings"
)

func (h *vfH) nodeArgs() (args []string, kind string, cull int) {
	alg := []string{"0", "1", "2", "3", "4"}[h.n(5)]
	s := "-n"
	if h.n(8) > 0 {
		s += "a=" + alg
	}
	kind = []string{"v", "v", "v", "V", "d", "d", "x", "x", "z", "D", "X", "Z"}[h.n(12)]
	if kind != "v" || h.n(2) == 0 {
		s += "c=" + kind
	}
	if h.n(3) == 0 {
		s += fmt.Sprintf("p=%d", h.n(3))
	}
	if h.n(5) == 0 {
		s += fmt.Sprintf("f=%d", 1+h.n(40))
	}
	if h.n(6) == 0 {
		s += fmt.Sprintf("d=%d", h.n(40))
	}
	if (kind == "z" || kind == "Z") && h.n(2) == 0 {
		s += fmt.Sprint(1 + h.n(9))
	}
	if h.n(3) == 0 {
		cull = 1 + h.n(2)
		s += fmt.Sprintf("i=%d", cull)
	}
	if h.n(5) == 0 {
		s += fmt.Sprintf("m=%d", 1+h.n(3))
		if h.n(4) == 0 {
			s += fmt.Sprintf("w=%dr=%d", 2+h.n(3), 1+h.n(3))
		}
		if h.n(2) == 0 {
			s += fmt.Sprintf("t=%d", 1+h.n(4))
		}
	}
	if len(s) == 2 {
		s = "-n"
	}
	args = append(args, s, "-b-", "-r-")
	if h.n(4) == 0 {
		args = append(args, "-d")
	}
	if h.n(4) == 0 {
		args = append(args, "--unreversenodes")
	}
	if h.n(4) == 0 {
		args = append(args, "--stknode=1")
	}
	if h.n(6) == 0 {
		args = append(args, fmt.Sprintf("--detailnodes=%d", h.n(4)))
	}
	if h.n(6) == 0 {
		args = append(args, fmt.Sprintf("--sidecache=%d", h.n(3)))
	}
	if h.n(8) == 0 {
		args = append(args, fmt.Sprintf("--speedtree=%d", h.n(2)))
	}
	if h.n(10) == 0 {
		k := h.n(6)
		if k == 3 && (kind == "X" || kind == "Z") {
			k = 0 // this would not prefer vanilla nodes
		}
		args = append(args, []string{"--roots=1", "--roots=3", "--roots+", "--ableist", "-v", "-vvv"}[k])
	}
	return
}

func (h *vfH) nodesCase() {
	o := vfGeoRand(h.rng, h.n(3) > 0)
	if h.n(4) == 0 { // sectors that only refer to themselves
		o.insets = h.n(4)
		o.isles = h.n(4)
	}
	pillars := h.n(25) == 0
	if pillars { // one room
		o.w, o.h, o.secs, o.solid, o.split, o.self = 4+h.n(5), 4+h.n(5), 1, .15, 0, []float64{0, .1, .2}[h.n(3)]
	}
	m := vfLattice(h.rng, o)
	if len(m.Lines) == 0 {
		return
	}
	if pillars {
		m.spikes(h, 5+h.n(10))
	} else if h.n(4) == 0 {
		m.spikes(h, 1+h.n(5))
	}
	hexen := h.n(5) == 0
	// lines and sides that get no segs
	special := h.n(3) == 0 && !hexen
	if special {
		for i := range m.Lines {
			l := &m.Lines[i]
			if h.n(12) > 0 {
				continue
			}
			switch h.n(5) {
			case 0:
				l.Tag = 998
			case 1:
				l.Action = 1086
			case 2:
				l.Action = 1084
			case 3:
				l.Action = 1085
			case 4:
				no := [8]byte{'B', 'S', 'P', 'N', 'O', 'S', 'E', 'G'}
				if k := h.n(3); l.BackSdef == SIDEDEF_NONE || k < 2 {
					m.Sides[l.FrontSdef].LoName = no
					if l.BackSdef != SIDEDEF_NONE && k == 0 {
						m.Sides[l.BackSdef].LoName = no
					}
				} else if l.BackSdef != SIDEDEF_NONE {
					m.Sides[l.BackSdef].LoName = no
				}
			}
		}
	}
	if h.n(4) == 0 && !hexen { // angles
		for i := range m.Lines {
			if l := &m.Lines[i]; h.n(5) == 0 && l.Action == 0 && l.Tag == 0 {
				l.Action = uint16(1080 + h.n(4))
				l.Tag = uint16(h.n(360))
				if l.Action > 1081 {
					l.Tag = uint16(h.n(65536))
					if l.Tag == 998 || l.Tag == 999 {
						l.Tag = 0
					}
				}
			}
		}
	}
	if h.n(5) == 0 { // vertices nobody uses
		for k := 1 + h.n(4); k > 0; k-- {
			m.Verts = append(m.Verts, Vertex{XPos: int16(h.n(1000)), YPos: int16(h.n(1000))})
		}
	}
	if h.n(6) == 0 { // several vertices at one place
		for i := range m.Lines {
			for _, e := range []*uint16{&m.Lines[i].StartVertex, &m.Lines[i].EndVertex} {
				if h.n(10) == 0 {
					m.Verts = append(m.Verts, m.Verts[*e])
					*e = uint16(len(m.Verts) - 1)
				}
			}
		}
	}
	if h.n(3) == 0 { // vertices in any order
		to := h.rng.Perm(len(m.Verts))
		vs := make([]Vertex, len(to))
		for i, k := range to {
			vs[k] = m.Verts[i]
		}
		m.Verts = vs
		for i := range m.Lines {
			l := &m.Lines[i]
			l.StartVertex, l.EndVertex = uint16(to[l.StartVertex]), uint16(to[l.EndVertex])
		}
	}
	if h.n(5) == 0 && len(m.Lines) > 1 { // a line of no length
		l := m.Lines[h.n(len(m.Lines))]
		l.EndVertex = l.StartVertex
		m.Lines = append(m.Lines, l)
	}
	if h.n(5) == 0 {
		for i := range m.Secs {
			if h.n(4) == 0 {
				m.Secs[i].Tag = 900
			}
		}
	}
	if h.n(5) == 0 && !hexen { // walls that pretend to be far away
		for i := range m.Lines {
			if l := &m.Lines[i]; h.n(4) == 0 && l.BackSdef == SIDEDEF_NONE && l.Tag == 0 && l.Action == 0 {
				l.Tag = 999
				m.Sides[l.FrontSdef].XOffset = int16(h.n(720) - 360)
			}
		}
	}
	args, kind, cull := h.nodeArgs()
	m.cull = cull
	if m.cull > 0 { // textures, tags and flags keep lines
		for i := range m.Lines {
			l := &m.Lines[i]
			if l.BackSdef == SIDEDEF_NONE || h.n(4) > 0 {
				continue
			}
			switch k := h.n(9); k {
			case 0, 1, 2, 3, 4, 5:
				sd := &m.Sides[[]uint16{l.FrontSdef, l.BackSdef}[k/3]]
				if n := []*[8]byte{&sd.UpName, &sd.MidName, &sd.LoName}[k%3]; *n == [8]byte{'-'} {
					*n = [8]byte{'W'}
				}
			case 6:
				if l.Tag == 0 {
					l.Tag = uint16(900 + h.n(98))
				}
			case 7:
				l.Flags &^= 4
			}
		}
	}
	in, out := h.path("in.wad"), h.path("out.wad")
	lumps := m.lumps("MAP01", h.n(2) == 0)
	if hexen {
		m.toHexen(h)
		for i := range lumps {
			switch lumps[i].Name {
			case "LINEDEFS":
				lumps[i].Data = vfBin(m.hexLines)
			case "THINGS":
				lumps[i].Data = vfBin(m.hexThings)
			}
		}
		lumps = append(lumps, vfLump{Name: "BEHAVIOR", Data: []byte("ACS\000\010\000\000\000\000\000\000\000")})
	}
	if vfWriteWad(in, lumps) != nil {
		return
	}
	os.Remove(out)
	desc := fmt.Sprintf("%s; special %v; hexen %v; %d lines, options %s", m.desc, special, hexen, len(m.Lines), strings.Join(args, " "))
	h.check("nodes", desc, false, m.vfMap, func() string {
		if m.sides() < 2 {
			return "" // no partition possible
		}
		code, log := h.tool(append(append([]string{}, args...), in, "-o", out)...)
		if code != 0 {
			return fmt.Sprintf("exit code %d: %s", code, vfTail(log))
		}
		w, e := vfReadWad(out)
		if e != "" {
			return e
		}
		got := map[string][]byte{}
		for _, l := range w.Lumps {
			got[l.Name] = l.Data
		}
		e = m.judge(h, got, kind, desc)
		if e != "" {
			e += "\n" + vfTail(log)
			if k := os.Getenv("VF_KEEP"); k != "" {
				d, _ := os.ReadFile(in)
				os.WriteFile(k+fmt.Sprint(h.cases)+".wad", d, 0644)
			}
		}
		return e
	})
}

// spikes adds lines inside sectors from a corner, some of them twice
func (m *vfGeo) spikes(h *vfH, n int) {
	for k := 0; k < n*4; k++ {
		t := &m.tris[h.n(len(m.tris))]
		x, y := t.at(h.rng)
		x, y = math.Floor(x), math.Floor(y)
		if t.sec < 0 || !t.in(x, y, 5) {
			continue
		}
		c := h.n(3)
		for i, v := range m.Verts {
			if float64(v.XPos) == t.x[c] && float64(v.YPos) == t.y[c] {
				z := len(m.Verts)
				m.Verts = append(m.Verts, Vertex{XPos: int16(x), YPos: int16(y)})
				for l := 1 + h.n(2); l > 0; l-- {
					if h.n(2) == 0 {
						m.line(i, z, t.sec, t.sec)
					} else {
						m.line(z, i, t.sec, t.sec)
					}
				}
				t.sec = -1 // only one to a piece, they might cross, and a point might lie near
				break
			}
		}
	}
}

// toHexen: the same lines and things for Hexen, some with its polyobjects
func (m *vfGeo) toHexen(h *vfH) {
	poly := h.n(2) == 0
	for i := range m.Lines {
		l := &m.Lines[i]
		l.Tag, l.Action = 0, 0
		o := HexenLinedef{StartVertex: l.StartVertex, EndVertex: l.EndVertex, Flags: l.Flags, FrontSdef: l.FrontSdef, BackSdef: l.BackSdef}
		if h.n(4) == 0 {
			o.Action, o.Arg1, o.Arg2, o.Arg3, o.Arg4, o.Arg5 = uint8(h.n(256)), uint8(h.n(256)), uint8(h.n(256)), uint8(h.n(256)), uint8(h.n(256)), uint8(h.n(256))
		}
		if poly && h.n(8) == 0 {
			o.Action = []uint8{HEXEN_ACTION_POLY_START, HEXEN_ACTION_POLY_EXPLICIT}[h.n(2)]
		}
		m.hexLines = append(m.hexLines, o)
	}
	zd := h.n(2) * (ZDOOM_PO_SPAWN_TYPE - PO_SPAWN_TYPE)
	for _, t := range m.Things {
		o := HexenThing{TID: int16(h.n(300)), XPos: t.XPos, YPos: t.YPos, Type: t.Type, Flags: t.Flags, Action: uint8(h.n(256))}
		if poly && h.n(2) == 0 {
			x, y := m.tris[h.n(len(m.tris))].at(h.rng)
			o.XPos, o.YPos, o.Type = int16(x), int16(y), int16(zd+PO_SPAWN_TYPE+h.n(2))
		}
		m.hexThings = append(m.hexThings, o)
	}
}

// side: whether a side of a line is to get segs
func (m *vfGeo) rendered(l Linedef, flip int) bool {
	sd := l.FrontSdef
	if flip == 1 {
		sd = l.BackSdef
	}
	if sd == SIDEDEF_NONE || l.Tag == 998 || l.Action == 1086 {
		return false
	}
	a, b := m.Verts[l.StartVertex], m.Verts[l.EndVertex]
	if a == b {
		return false
	}
	if l.Action == 1085 && flip == 0 || l.Action == 1084 && flip == 1 {
		return false
	}
	return !bytes.Equal(m.Sides[sd].LoName[:], []byte("BSPNOSEG"))
}

// unseen: whether a line may be left out by request
func (m *vfGeo) unseen(l Linedef) bool {
	if l.BackSdef == SIDEDEF_NONE || l.Flags&4 == 0 || l.Tag >= 900 && l.Tag != 998 && l.Tag != 999 {
		return false
	}
	a, b := m.Sides[l.FrontSdef], m.Sides[l.BackSdef]
	no := [8]byte{'-'}
	return a.Sector == b.Sector && a.UpName == no && a.MidName == no && a.LoName == no && b.UpName == no && b.MidName == no && b.LoName == no
}

func (m *vfGeo) sides() (n int) {
	for _, l := range m.Lines {
		for f := 0; f < 2; f++ {
			if m.rendered(l, f) && !(m.cull > 0 && m.unseen(l)) {
				n++
			}
		}
	}
	return
}

func (m *vfGeo) sector(l Linedef, flip int) int {
	if flip == 0 {
		return int(m.Sides[l.FrontSdef].Sector)
	}
	return int(m.Sides[l.BackSdef].Sector)
}

func vfAngle(dx, dy float64) float64 {
	w := math.Atan2(dy, dx) * 65536 / (2 * math.Pi)
	if w < 0 {
		w += 65536
	}
	return w
}

func (m *vfGeo) judge(h *vfH, got map[string][]byte, kind, desc string) string {
	things := vfBin(m.Things)
	if m.hexLines != nil {
		things = vfBin(m.hexThings)
		hl := make([]HexenLinedef, len(got["LINEDEFS"])/16)
		binary.Read(bytes.NewReader(got["LINEDEFS"]), binary.LittleEndian, hl)
		if len(hl) != len(m.hexLines) || len(got["LINEDEFS"])%16 != 0 {
			return fmt.Sprintf("%d bytes for %d lines", len(got["LINEDEFS"]), len(m.hexLines))
		}
		var plain []Linedef
		for i, l := range hl {
			o := m.hexLines[i]
			plain = append(plain, Linedef{StartVertex: l.StartVertex, EndVertex: l.EndVertex, Flags: l.Flags, FrontSdef: l.FrontSdef, BackSdef: l.BackSdef})
			l.StartVertex, l.EndVertex = o.StartVertex, o.EndVertex
			if l != o {
				return fmt.Sprintf("line %d is %v, was %v", i, l, o)
			}
		}
		got["LINEDEFS"] = vfBin(plain)
	}
	for n, d := range map[string][]byte{"THINGS": things, "SIDEDEFS": vfBin(m.Sides), "SECTORS": vfBin(m.Secs)} {
		if !bytes.Equal(got[n], d) {
			return n + " changed"
		}
	}
	b, e := vfParseNodes(got)
	if e != "" {
		return e
	}
	want := map[string]string{"v": "vanilla", "V": "vanilla", "D": "vanilla", "X": "vanilla", "Z": "vanilla", "d": "deep", "x": "extended", "z": "compressed"}[kind]
	if b.kind != want && (len(b.nodes) > 0 || want == "deep") {
		return fmt.Sprintf("%s nodes instead of %s", b.kind, want)
	}
	// lines
	if len(b.lines) != len(m.Lines) {
		return fmt.Sprintf("%d lines instead of %d", len(b.lines), len(m.Lines))
	}
	vs := make([]Vertex, len(got["VERTEXES"])/4)
	binary.Read(bytes.NewReader(got["VERTEXES"]), binary.LittleEndian, vs)
	for i, l := range b.lines {
		o := m.Lines[i]
		if int(l.StartVertex) >= len(vs) || int(l.EndVertex) >= len(vs) || vs[l.StartVertex] != m.Verts[o.StartVertex] || vs[l.EndVertex] != m.Verts[o.EndVertex] {
			return fmt.Sprintf("line %d moved: vertices %d and %d", i, l.StartVertex, l.EndVertex)
		}
		l.StartVertex, l.EndVertex = o.StartVertex, o.EndVertex
		if l != o {
			return fmt.Sprintf("line %d is %v, was %v", i, l, o)
		}
	}
	if e := b.tree(); e != "" {
		return e
	}
	if len(b.first) >= 4 {
		h.note(desc)
	}
	// segs of each side
	wide := b.kind == "extended" || b.kind == "compressed"
	by := map[[2]int][]int{}
	for i, s := range b.segs {
		by[[2]int{s.line, s.flip}] = append(by[[2]int{s.line, s.flip}], i)
	}
	culled := 0
	for i, l := range m.Lines {
		for f := 0; f < 2; f++ {
			list := by[[2]int{i, f}]
			if !m.rendered(l, f) {
				if len(list) > 0 {
					return fmt.Sprintf("line %d, side %d is not to be rendered but has seg %d", i, f, list[0])
				}
				continue
			}
			if m.cull > 0 && m.unseen(l) && len(by[[2]int{i, 0}])+len(by[[2]int{i, 1}]) == 0 {
				culled++
				continue
			}
			a, z := m.Verts[l.StartVertex], m.Verts[l.EndVertex]
			if f == 1 {
				a, z = z, a
			}
			x, y := float64(a.XPos), float64(a.YPos)
			tx, ty := float64(z.XPos), float64(z.YPos)
			ox, oy := x, y
			full := math.Hypot(tx-ox, ty-oy)
			at := 0.0
			used := 0
			for x != tx || y != ty {
				next := -1
				for _, k := range list {
					if s := b.segs[k]; s.x1 == x && s.y1 == y {
						if next >= 0 {
							return fmt.Sprintf("line %d, side %d: segs %d and %d both start at %g %g", i, f, next, k, x, y)
						}
						next = k
					}
				}
				if next < 0 {
					return fmt.Sprintf("line %d, side %d from (%g %g) to (%g %g): no seg starts at %g %g", i, f, ox, oy, tx, ty, x, y)
				}
				s := b.segs[next]
				// along the line, in order, and not away from it
				t := ((s.x2-ox)*(tx-ox) + (s.y2-oy)*(ty-oy)) / full
				d := ((s.x2-ox)*(ty-oy) - (s.y2-oy)*(tx-ox)) / full
				if t <= at || t > full+1 || math.Abs(d) > 1+float64(len(list)) || wide && math.Abs(d) > 0.01 {
					return fmt.Sprintf("line %d, side %d from (%g %g) to (%g %g): seg %d ends at %g %g", i, f, ox, oy, tx, ty, next, s.x2, s.y2)
				}
				if !wide {
					if o := math.Hypot(s.x1-ox, s.y1-oy); math.Abs(o-float64(s.offset)) > 1.01 {
						return fmt.Sprintf("seg %d starts %g along its line but has the offset %d", next, o, s.offset)
					}
					w := vfAngle(s.x2-s.x1, s.y2-s.y1)
					if l.Tag == 999 && l.Action == 0 && l.BackSdef == SIDEDEF_NONE {
						w += float64(m.Sides[l.FrontSdef].XOffset) * 65536 / 360
					}
					switch l.Action {
					case 1080:
						w += float64(l.Tag) * 65536 / 360
					case 1081:
						w = float64(l.Tag) * 65536 / 360
					case 1082:
						w += float64(l.Tag)
					case 1083:
						w = float64(l.Tag)
					}
					if df := math.Mod(w-float64(uint16(s.angle))+4*65536+32768, 65536) - 32768; math.Abs(df) > 2 {
						return fmt.Sprintf("seg %d from (%g %g) to (%g %g) of line with action %d tag %d has the angle %d, not %g", next, s.x1, s.y1, s.x2, s.y2, l.Action, l.Tag, uint16(s.angle), w)
					}
				}
				x, y, at = s.x2, s.y2, t
				used++
			}
			if used != len(list) {
				return fmt.Sprintf("line %d, side %d is covered by %d segs but has %d", i, f, used, len(list))
			}
		}
	}
	// vertices of narrow formats are rounded, at each split of a side
	far := func(k int) float64 {
		if wide {
			return 0.02
		}
		s := b.segs[k]
		return 2 + float64(len(by[[2]int{s.line, s.flip}]))
	}
	most := 0
	for _, l := range by {
		most = vfMax(most, len(l))
	}
	// sectors of subsectors
	secOf := make([]int, len(b.first))
	coalesce := false
	for _, s := range m.Secs {
		coalesce = coalesce || s.Tag >= 900
	}
	for i := range b.first {
		secOf[i] = -1
		for k := b.first[i]; k < b.first[i]+b.count[i]; k++ {
			s := b.segs[k]
			sec := m.sector(m.Lines[s.line], s.flip)
			if secOf[i] < 0 {
				secOf[i] = sec
			}
			if secOf[i] != sec && !coalesce {
				return fmt.Sprintf("subsector %d has segs of sectors %d and %d", i, secOf[i], sec)
			}
		}
	}
	// partitions and boxes
	type span struct{ lx, hx, ly, hy float64 }
	var bad string
	var worst float64
	off := func(got, x float64, f func(float64) float64) bool {
		return got != f(x) && (!wide || got != f(x-1.0/4096) && got != f(x+1.0/4096))
	}
	var walk func(n uint32) (span, []int)
	walk = func(n uint32) (span, []int) {
		r := span{1e9, -1e9, 1e9, -1e9}
		if n>>31 == 1 {
			k := int(n & 0x7FFFFFFF)
			var l []int
			for i := b.first[k]; i < b.first[k]+b.count[k]; i++ {
				s := b.segs[i]
				l = append(l, i)
				r = span{math.Min(r.lx, math.Min(s.x1, s.x2)), math.Max(r.hx, math.Max(s.x1, s.x2)), math.Min(r.ly, math.Min(s.y1, s.y2)), math.Max(r.hy, math.Max(s.y1, s.y2))}
			}
			return r, l
		}
		o := b.nodes[n]
		var all []int
		for side := 0; side < 2; side++ {
			q, l := walk(o.kid[side])
			all = append(all, l...)
			bx := o.box[side]
			if bad == "" && (off(bx[2], q.lx, math.Floor) || off(bx[3], q.hx, math.Ceil) || off(bx[1], q.ly, math.Floor) || off(bx[0], q.hy, math.Ceil)) {
				bad = fmt.Sprintf("node %d, side %d: box %v but the segs span x %g..%g y %g..%g", n, side, bx, q.lx, q.hx, q.ly, q.hy)
			}
			r = span{math.Min(r.lx, q.lx), math.Max(r.hx, q.hx), math.Min(r.ly, q.ly), math.Max(r.hy, q.hy)}
			for _, i := range l {
				s := b.segs[i]
				for e := 0; e < 2; e++ {
					x, y := s.x1, s.y1
					if e == 1 {
						x, y = s.x2, s.y2
					}
					d := (o.dx*(y-o.y) - o.dy*(x-o.x)) / math.Hypot(o.dx, o.dy)
					if side == 1 {
						d = -d
					}
					h.max("ratio "+b.kind, d/far(i))
					if d > worst {
						worst = d
					}
					if d > far(i) && bad == "" {
						bad = fmt.Sprintf("seg %d from (%g %g) to (%g %g) lies %.2f beyond the partition (%g %g)+(%g %g) of node %d", i, s.x1, s.y1, s.x2, s.y2, d, o.x, o.y, o.dx, o.dy, n)
					}
				}
			}
		}
		return r, all
	}
	walk(uint32(len(b.nodes) - 1))
	h.max("worst side "+b.kind, worst)
	if bad != "" {
		return bad
	}
	// leaves
	for i := range b.first {
		for k := b.first[i]; k < b.first[i]+b.count[i]; k++ {
			s := b.segs[k]
			for q := b.first[i]; q < b.first[i]+b.count[i]; q++ {
				t := b.segs[q]
				for e := 0; e < 2; e++ {
					x, y := t.x1, t.y1
					if e == 1 {
						x, y = t.x2, t.y2
					}
					dx, dy := s.x2-s.x1, s.y2-s.y1
					d := (dx*(y-s.y1) - dy*(x-s.x1)) / math.Hypot(dx, dy)
					h.max("worst leaf "+b.kind, d)
					allow := math.Max(far(k), far(q))
					if wide { // the direction of a short seg is off
						allow += 8.0 / 65536 * math.Hypot(x-s.x1, y-s.y1) / math.Hypot(dx, dy)
					}
					h.max("leaf ratio "+b.kind, d/allow)
					if d > allow {
						return fmt.Sprintf("subsector %d is not convex: seg %d (%g %g)-(%g %g) has seg %d (%g %g)-(%g %g) %.2f on its left", i, k, s.x1, s.y1, s.x2, s.y2, q, t.x1, t.y1, t.x2, t.y2, d)
					}
				}
			}
		}
	}
	// points
	for _, l := range m.Lines { // a side without segs bounds nothing
		if a, z := m.Verts[l.StartVertex], m.Verts[l.EndVertex]; a != z && (!m.rendered(l, 0) || l.BackSdef != SIDEDEF_NONE && !m.rendered(l, 1)) {
			return ""
		}
	}
	if coalesce {
		return ""
	}
	for k := 0; k < 40+6*len(m.tris); k++ {
		t := &m.tris[h.n(len(m.tris))]
		x, y := t.at(h.rng)
		if t.sec < 0 || !t.in(x, y, 4) || m.cull == 1 && m.isle[t.sec] { // the faulty check may miss an isle
			continue
		}
		if !wide {
			x, y = math.Floor(x), math.Floor(y)
		}
		leaf, near := b.find(x, y)
		if !wide && near < 4+float64(m.size)/16+float64(most) {
			continue // partitions are through rounded vertices
		}
		// rounding can leave a scrap of a side behind on the wrong side of a
		// partition, where it then owns what is free of other sides
		if !b.solid(leaf, wide) {
			continue
		}
		if g := secOf[leaf]; g != t.sec && !m.isle[g] { // the lines of an isle have it on their outside too
			return fmt.Sprintf("the point (%g %g) of sector %d is in subsector %d, which is of sector %d (%.2f from a partition)", x, y, t.sec, leaf, g, near)
		}
	}
	return ""
}

// solid: whether a subsector is bounded by more than what rounding may leave behind
func (b *vfBSP) solid(leaf int, wide bool) bool {
	least := 8.0
	if wide {
		least = 0.05
	}
	var dx, dy []float64
	for k := b.first[leaf]; k < b.first[leaf]+b.count[leaf]; k++ {
		s := b.segs[k]
		x, y := s.x2-s.x1, s.y2-s.y1
		if n := math.Hypot(x, y); n > least {
			if wide {
				return true
			}
			dx, dy = append(dx, x/n), append(dy, y/n)
			if math.Abs(dx[0]*dy[len(dy)-1]-dy[0]*dx[len(dx)-1]) > 0.2 {
				return true
			}
		}
	}
	return false
}

func (h *vfH) max(k string, v float64) {
	if o, ok := h.extra[k].(float64); !ok || v > o {
		h.extra[k] = v
	}
}
