package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"time"
)

// vfSegBox: whether the segment meets the box [lx,hx]x[ly,hy] (upper sides
// excluded when open is set); exact, in integers.
func vfSegBox(x1, y1, x2, y2, lx, ly, hx, hy int, open bool) bool {
	type fr struct{ n, d int64 }
	lt := func(a, b fr) bool { return a.n*b.d < b.n*a.d }
	tmin, tmax := fr{0, 1}, fr{1, 1}
	minO, maxO := false, false
	ax := func(p, d, lo, hi int) bool {
		if d == 0 {
			return !(p < lo || p > hi || (p == hi && open))
		}
		a, ao := fr{int64(lo - p), int64(d)}, false
		b, bo := fr{int64(hi - p), int64(d)}, open
		if d < 0 {
			a, b, ao, bo = b, a, bo, ao
			a.n, a.d, b.n, b.d = -a.n, -a.d, -b.n, -b.d
		}
		if lt(tmin, a) {
			tmin, minO = a, ao
		} else if !lt(a, tmin) && ao {
			minO = true
		}
		if lt(b, tmax) {
			tmax, maxO = b, bo
		} else if !lt(tmax, b) && bo {
			maxO = true
		}
		return true
	}
	if !ax(x1, x2-x1, lx, hx) || !ax(y1, y2-y1, ly, hy) || lt(tmax, tmin) {
		return false
	}
	return lt(tmin, tmax) || !minO && !maxO
}

type vfBMap struct {
	big bool // near the limits of the encoding
	v   []Vertex
	l   []Linedef
	g   []bool // ignored lines
}

func (h *vfH) bmap() *vfBMap {
	m := &vfBMap{}
	w, ht := 1+h.n(900), 1+h.n(900)
	switch h.n(8) {
	case 0:
		w, ht = 1+h.n(120), 1+h.n(120)
	case 1:
		ht = 1 + h.n(100)
	case 2:
		w, ht = 1+h.n(12000), 1+h.n(3000)
	}
	ox, oy := h.n(3000)-1500, h.n(3000)-1500
	if h.n(12) == 0 {
		ox = []int{-32768, -32768 + h.n(140), 32767 - w}[h.n(3)]
	}
	if h.n(12) == 0 {
		oy = []int{-32768, -32768 + h.n(140), 32767 - ht}[h.n(3)]
	}
	nv := 2 + h.n(30)
	grid := []int{1, 1, 1, 8, 64, 128}[h.n(6)]
	for i := 0; i < nv; i++ {
		x, y := h.n(w+1), h.n(ht+1)
		x, y = x-x%grid, y-y%grid
		if h.n(12) == 0 {
			x = vfMin(x|127, w)
		}
		m.v = append(m.v, Vertex{XPos: int16(ox + x), YPos: int16(oy + y)})
	}
	nl := 1 + h.n(40)
	if h.n(4) == 0 {
		nl = 1 + h.n(200)
	}
	hv := h.n(3) == 0
	for i := 0; i < nl; i++ {
		a := h.n(nv)
		b := (a + 1 + h.n(nv-1)) % nv
		if hv && h.n(4) > 0 { // an upright or level or slanting line
			va := m.v[a]
			switch d := int16(h.n(300) + 1); h.n(4) {
			case 0:
				va.XPos += d
			case 1:
				va.YPos += d
			case 2:
				va.XPos += d
				va.YPos += d
			case 3:
				va.XPos += d
				va.YPos -= d
			}
			if int(va.XPos) >= ox && int(va.XPos) <= ox+w && int(va.YPos) >= oy && int(va.YPos) <= oy+ht {
				b = len(m.v)
				m.v = append(m.v, va)
			}
		}
		if m.v[a] == m.v[b] {
			continue
		}
		if h.n(2) == 0 {
			a, b = b, a
		}
		l := Linedef{StartVertex: uint16(a), EndVertex: uint16(b), FrontSdef: 0, BackSdef: SIDEDEF_NONE}
		m.l = append(m.l, l)
		for h.n(3) == 0 { // the same line again
			m.l = append(m.l, l)
		}
		if h.n(25) == 0 {
			m.l[len(m.l)-1].Tag = 999
		}
	}
	if h.n(3) == 0 {
		m.g = make([]bool, len(m.l))
		for i := range m.g {
			m.g[i] = h.n(5) == 0
		}
	}
	return m
}

func (m *vfBMap) lines() *DoomLinedefs { return &DoomLinedefs{linedefs: m.l, vertices: m.v} }
func (m *vfBMap) skip(i int) bool      { return m.l[i].Tag == 999 || m.g != nil && m.g[i] }
func (m *vfBMap) size() (xmin, ymin, xmax, ymax int, any bool) {
	xmin, ymin, xmax, ymax = 99999, 99999, -99999, -99999
	for i, l := range m.l {
		if !m.skip(i) {
			any = true
			for _, v := range []Vertex{m.v[l.StartVertex], m.v[l.EndVertex]} {
				xmin, xmax = vfMin(xmin, int(v.XPos)), vfMax(xmax, int(v.XPos))
				ymin, ymax = vfMin(ymin, int(v.YPos)), vfMax(ymax, int(v.YPos))
			}
		}
	}
	return
}

// content says what is wrong with the lists of a blockmap at that origin.
func (m *vfBMap) content(x0, y0, xb, yb int, lists [][]uint16, superset bool) string {
	has := make([]map[int]bool, len(lists))
	for i := range lists {
		has[i] = map[int]bool{}
		for _, c := range lists[i] {
			has[i][int(c)] = true
		}
	}
	for c, l := range m.l {
		a, b := m.v[l.StartVertex], m.v[l.EndVertex]
		for i := range lists {
			bx, by := x0+i%xb*128, y0+i/xb*128
			must := !m.skip(c) && vfSegBox(int(a.XPos), int(a.YPos), int(b.XPos), int(b.YPos), bx, by, bx+127, by+127, false)
			may := !m.skip(c) && vfSegBox(int(a.XPos), int(a.YPos), int(b.XPos), int(b.YPos), bx-1, by-1, bx+128, by+128, true)
			if must && !has[i][c] {
				return fmt.Sprintf("line %d %v-%v is missing from block %d,%d (corner %d,%d)", c, a, b, i%xb, i/xb, bx, by)
			}
			if !superset && !may && has[i][c] {
				return fmt.Sprintf("line %d %v-%v is listed in block %d,%d (corner %d,%d) which it does not touch, or it is left out of the map", c, a, b, i%xb, i/xb, bx, by)
			}
		}
	}
	return ""
}

func vfWords(b []byte) []uint16 {
	w := make([]uint16, len(b)/2)
	for i := range w {
		w[i] = binary.LittleEndian.Uint16(b[2*i:])
	}
	return w
}

// vfBlocks reads a lump back: the header and each block's list, the dummies apart.
func vfBlocks(b []byte, zero bool) (hd [4]int, lists [][]uint16, dummies []uint16, offs []int, why string) {
	if len(b)%2 != 0 || len(b) < 8 {
		return hd, nil, nil, nil, fmt.Sprintf("lump of %d bytes", len(b))
	}
	w := vfWords(b)
	hd = [4]int{int(int16(w[0])), int(int16(w[1])), int(w[2]), int(w[3])}
	n := hd[2] * hd[3]
	if len(w) < 4+n {
		return hd, nil, nil, nil, fmt.Sprintf("lump of %d words is too short for %d blocks", len(w), n)
	}
	for i := 0; i < n; i++ {
		p := int(w[4+i])
		offs = append(offs, p)
		if p < 4 || p >= len(w) {
			return hd, nil, nil, nil, fmt.Sprintf("block %d has offset %d; the lump is %d words", i, p, len(w))
		}
		if zero {
			dummies = append(dummies, w[p])
			p++
		}
		var l []uint16
		for ; p < len(w) && w[p] != 0xFFFF; p++ {
			l = append(l, w[p])
		}
		if p >= len(w) {
			return hd, nil, nil, nil, fmt.Sprintf("the list of block %d does not end inside the lump", i)
		}
		lists = append(lists, l)
	}
	return
}

func (m *vfBMap) String() string {
	s := ""
	for i, l := range m.l {
		a, b := m.v[l.StartVertex], m.v[l.EndVertex]
		s += fmt.Sprintf("(%d,%d)-(%d,%d)", a.XPos, a.YPos, b.XPos, b.YPos)
		if m.skip(i) {
			s += "x"
		}
		s += " "
		if len(s) > 400 {
			return fmt.Sprintf("%s.. %d lines", s, len(m.l))
		}
	}
	return s
}

func vfSameSet(a, b []uint16) bool {
	if len(a) != len(b) {
		return false
	}
	x := map[uint16]bool{}
	for _, v := range a {
		x[v] = true
	}
	for _, v := range b {
		if !x[v] {
			return false
		}
	}
	return true
}

// hugeCase tries several origins of maps too large for any encoding
func (h *vfH) hugeCase() {
	for _, s := range [][2]int{{16400, 16400}, {-32768, 32767}, {-20000, 25000}} {
		m := &vfBMap{v: vfVertices(s[0], s[0], s[1], s[1])}
		if s[0] > 0 {
			m.v = vfVertices(-s[0], -s[0], s[1], s[1])
		}
		m.l = []Linedef{{StartVertex: 0, EndVertex: 1, FrontSdef: 0, BackSdef: 65535}}
		for _, th := range []int16{1, 3} {
			config.BlockmapThreads = th
			config.BlockmapOffsetMode = BM_OFFSET_FIXED
			if th > 1 {
				config.BlockmapOffsetMode = BM_OFFSET_THIRTYSIX
			}
			config.BlockmapSearchAbortion = BM_OFFSET_FITS_ANYPORT
			h.check("huge", fmt.Sprintf("one line across %v, %d threads", m.v, th), true, nil, func() string {
				ch := make(chan []byte, 4)
				go BlockmapGenerator(BlockmapInput{lines: m.lines(), useZeroHeader: true}, ch, FORMAT_DOOM, nil, nil)
				select {
				case <-ch:
				case <-time.After(100 * time.Second):
					return "no answer after 100 s"
				}
				return ""
			})
		}
	}
}

// limitMap makes a map whose encoding is close to one of the two limits
func (h *vfH) limitMap() *vfBMap {
	m := &vfBMap{big: true}
	want := []int{32768, 32768, 65536}[h.n(3)]
	w := 1500 + h.n(5000)
	bound := 0
	for n := 1000; ; {
		for len(m.l) < n {
			x, y := h.n(w), h.n(w)
			if len(m.l) < 3 {
				x, y = w*(len(m.l)%2), w*(len(m.l)/2)
			}
			k := len(m.v)
			m.v = append(m.v, Vertex{XPos: int16(x), YPos: int16(y)}, Vertex{XPos: int16(x + h.n(40)), YPos: int16(y + h.n(40))})
			m.l = append(m.l, Linedef{StartVertex: uint16(k), EndVertex: uint16(k + 1)})
		}
		if n > 30000 {
			return m
		}
		L := m.lines()
		bm := CreateBlockmap(&BlockmapInput{lines: L, bounds: RecomputeBounds(L, nil)})
		bm.GetBytes()
		if d := want - bm.largestOffset; d > 40+h.n(60) {
			n += d/4 + 1
		} else if d < -200 && bound < 6 {
			bound++
			n = n * 98 / 100
			m.l, m.v = m.l[:n], m.v[:2*n]
		} else {
			return m
		}
	}
}

func vfVertices(x1, y1, x2, y2 int) []Vertex {
	return []Vertex{{XPos: int16(x1), YPos: int16(y1)}, {XPos: int16(x2), YPos: int16(y2)}}
}

var vfNull, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)

func (m *vfBMap) snapshot(bm *Blockmap) [][]uint16 {
	r := make([][]uint16, len(bm.blocklist))
	for i := range r {
		r[i] = append([]uint16{}, bm.blocklist[i]...)
	}
	return r
}

// judge compares a lump with the lists it must convey
func (m *vfBMap) judge(b []byte, want [][]uint16, zero, zeroIsZero bool, mode int) string {
	hd, got, dum, offs, why := vfBlocks(b, zero)
	if why != "" {
		return why
	}
	_ = hd
	if len(got) != len(want) {
		return fmt.Sprintf("%d blocks instead of %d", len(got), len(want))
	}
	for i := range got {
		if mode == BSUBSET_AGGRESSIVE_ELIMINATION {
			in := map[uint16]bool{}
			for _, v := range got[i] {
				in[v] = true
			}
			for _, v := range want[i] {
				if !in[v] {
					return fmt.Sprintf("line %d is missing from the list of block %d: %v", v, i, got[i])
				}
			}
			found := false
			for j := range want {
				found = found || vfSameSet(got[i], want[j])
			}
			if !found {
				return fmt.Sprintf("block %d has a list that is no block's: %v", i, got[i])
			}
		} else if !vfSameSet(got[i], want[i]) {
			return fmt.Sprintf("block %d should list %v, the lump says %v (offset %d)", i, want[i], got[i], offs[i])
		}
		if zero && zeroIsZero && mode == BSUBSET_NOCOMPRESSION && dum[i] != 0 {
			return fmt.Sprintf("block %d starts with %d instead of 0", i, dum[i])
		}
		if zero && len(m.l) > 0 && int(dum[i]) >= len(m.l) {
			return fmt.Sprintf("block %d starts with a line that does not exist: %d", i, dum[i])
		}
		if zero && mode == BSUBSET_NOCOMPRESSION {
			any := false
			for k := range m.l {
				any = any || IsEligibleAsZero(m.lines(), uint16(k))
			}
			if !zeroIsZero && any && !IsEligibleAsZero(m.lines(), dum[i]) {
				return fmt.Sprintf("block %d starts with line %d, which is long or left out, though there are others", i, dum[i])
			}
		}
	}
	return ""
}

var vfShield *BlockmapGCShield
var vfShieldSize int

func (h *vfH) lumpCase(m *vfBMap) {
	L := m.lines()
	b := RecomputeBounds(L, m.g)
	xmin, ymin, xmax, ymax, any := m.size()
	cx, cy := CutoffOffset(b)
	in := &BlockmapInput{lines: L, bounds: b, linesToIgnore: m.g, useZeroHeader: h.n(3) > 0}
	if h.n(2) == 0 {
		in.XOffset, in.YOffset = int16(h.n(int(cx)+1)), int16(h.n(int(cy)+1))
	}
	config.ZeroHeaderIsZero = h.n(3) == 0
	in.revertibleToZero = in.useZeroHeader && !config.ZeroHeaderIsZero && len(m.l) > 0 && IsEligibleAsZero(L, 0) && h.n(2) == 0
	mode := []int{BSUBSET_NOCOMPRESSION, BSUBSET_PROPER_COMPRESSION, BSUBSET_AGGRESSIVE_ELIMINATION}[h.n(3)]
	reuse := h.n(2) == 0
	desc := fmt.Sprintf("mode %d, zero header %v (is zero %v, revertible %v), shift %d,%d, reused buffers %v, lines %v", mode, in.useZeroHeader, config.ZeroHeaderIsZero, in.revertibleToZero, in.XOffset, in.YOffset, reuse, m)
	h.check("lump", desc, any, nil, func() string {
		if any && (int(b.Xmin) != xmin || int(b.Xmax) != xmax || int(b.Ymin) != ymin || int(b.Ymax) != ymax) {
			return fmt.Sprintf("bounds %v instead of %d,%d..%d,%d", b, xmin, ymin, xmax, ymax)
		}
		if any && (xmin-int(cx) < -32768 || ymin-int(cy) < -32768) {
			return "cutoff lets the origin leave the map's coordinates"
		}
		if reuse {
			if n := BMBeeMaxSize(b); vfShield == nil || n > vfShieldSize {
				vfShield, vfShieldSize = BlockmapCreateGCShield(n, true), n
			}
			in.gcShield = vfShield
		}
		bm := CreateBlockmap(in)
		want := m.snapshot(bm)
		if any {
			xb, yb := (xmax-xmin+int(in.XOffset))/128+1, (ymax-ymin+int(in.YOffset))/128+1
			hd := BlockMapHeader{XMin: int16(xmin - int(in.XOffset)), YMin: int16(ymin - int(in.YOffset)), XBlocks: uint16(xb), YBlocks: uint16(yb)}
			if bm.header != hd || len(want) != xb*yb {
				return fmt.Sprintf("header %v with %d blocks instead of %v", bm.header, len(want), hd)
			}
			if xb*yb < 3000 || h.n(20) == 0 {
				if s := m.content(int(hd.XMin), int(hd.YMin), xb, yb, want, false); s != "" {
					return s
				}
			}
		}
		for i, l := range want {
			for j := 1; j < len(l); j++ {
				if l[j] <= l[j-1] {
					return fmt.Sprintf("list of block %d is not ascending: %v", i, l)
				}
			}
		}
		var data []byte
		if mode == BSUBSET_NOCOMPRESSION {
			data = bm.GetBytes()
		} else {
			data = bm.GetBytesArcane(mode)
		}
		if in.gcShield != nil && h.n(3) == 0 {
			vfShield.RotateLumpPool()
		}
		if len(data) >= 8 {
			w := vfWords(data)
			if w[0] != uint16(bm.header.XMin) || w[1] != uint16(bm.header.YMin) || w[2] != bm.header.XBlocks || w[3] != bm.header.YBlocks {
				return fmt.Sprintf("lump header %v differs from %v", w[:4], bm.header)
			}
		}
		n := 4 + len(want)
		for _, l := range want {
			n += 1 + len(l)
			if in.useZeroHeader {
				n++
			}
		}
		if len(data) > 2*n {
			return fmt.Sprintf("lump of %d bytes, though %d hold every list in full", len(data), 2*n)
		}
		if bm.tooBigForUint16 {
			if 2*n < 65536 {
				return "said to be too big"
			}
			return ""
		}
		if s := m.judge(data, want, in.useZeroHeader, config.ZeroHeaderIsZero, mode); s != "" {
			return s
		}
		big := false
		for i := range want {
			big = big || vfWords(data)[4+i] >= 32768
		}
		if big != bm.tooBigForVanilla {
			return fmt.Sprintf("offsets above 32767: %v, reported: %v", big, bm.tooBigForVanilla)
		}
		return ""
	})
}

func vfTier(bm *Blockmap) int {
	if bm.tooBigForUint16 {
		return 2
	}
	if bm.tooBigForVanilla {
		return 1
	}
	return 0
}

// genCase runs the goroutines that try several origins
func (h *vfH) genCase(m *vfBMap) {
	xmin, ymin, xmax, ymax, any := m.size()
	if !any || !m.big && ((xmax-xmin)*(ymax-ymin) > 900*900 || len(m.l) > 120) {
		return
	}
	L := m.lines()
	config.ZeroHeaderIsZero = h.n(3) == 0
	config.UseZeroHeader = h.n(3) > 0
	config.Deterministic = h.n(2) == 0
	config.BlockmapThreads = int16(1 + h.n(5))
	config.BlockmapSearchAbortion = []int{BM_OFFSET_NOABORT, BM_OFFSET_NOABORT, BM_OFFSET_FITS_VANILLA, BM_OFFSET_FITS_ANYPORT}[h.n(4)]
	config.SubsetCompressBlockmap = h.n(2) == 0
	config.AggressiveSubsets = config.SubsetCompressBlockmap && h.n(2) == 0
	config.BlockmapTryConditionally = BM_TRYCOND_NONE
	config.RemoveNonCollideable = false
	config.BlockmapOffsetMode = []int{BM_OFFSET_THIRTYSIX, BM_OFFSET_THIRTYSIX, BM_OFFSET_FIXED, BM_OFFSET_FIXED}[h.n(4)]
	if m.big {
		config.BlockmapOffsetMode = BM_OFFSET_THIRTYSIX
		config.SubsetCompressBlockmap, config.AggressiveSubsets = false, false
		config.BlockmapSearchAbortion = []int{BM_OFFSET_NOABORT, BM_OFFSET_FITS_VANILLA, BM_OFFSET_FITS_VANILLA, BM_OFFSET_FITS_ANYPORT}[h.n(4)]
	} else if h.n(40) == 0 {
		config.BlockmapOffsetMode = []int{BM_OFFSET_BRUTEFORCE, BM_OFFSET_HEURISTIC}[h.n(2)]
		config.BlockmapThreads = 4
	}
	if !config.SubsetCompressBlockmap && h.n(4) == 0 && !m.big {
		config.BlockmapTryConditionally = []int{BM_TRYCOND_PROPER_SUBSET_COMPRESSION, BM_TRYCOND_AGGRESSIVE_SUBSET_ELIMINATION, 3}[h.n(3)]
	}
	mode := BSUBSET_NOCOMPRESSION
	if config.AggressiveSubsets {
		mode = BSUBSET_AGGRESSIVE_ELIMINATION
	} else if config.SubsetCompressBlockmap {
		mode = BSUBSET_PROPER_COMPRESSION
	}
	in := BlockmapInput{lines: L, useZeroHeader: config.UseZeroHeader, linesToIgnore: m.g}
	if config.BlockmapOffsetMode == BM_OFFSET_FIXED {
		in.XOffset, in.YOffset = int16(h.n(128)), int16(h.n(128))
	}
	desc := fmt.Sprintf("generator: origins %d, fixed %d,%d, mode %d/%d, zero header %v/%v, deterministic %v, threads %d, stop at %d, lines %v", config.BlockmapOffsetMode, in.XOffset, in.YOffset, mode, config.BlockmapTryConditionally, config.UseZeroHeader, config.ZeroHeaderIsZero, config.Deterministic, config.BlockmapThreads, config.BlockmapSearchAbortion, m)
	h.check("generator", desc, true, nil, func() string {
		ch := make(chan []byte, 4)
		go BlockmapGenerator(in, ch, FORMAT_DOOM, nil, nil)
		var data []byte
		select {
		case data = <-ch:
		case <-time.After(30 * time.Second):
			return "no blockmap after 30 s"
		}
		none := len(data) == 0
		var w []uint16
		if none {
			if config.BlockmapOffsetMode != BM_OFFSET_THIRTYSIX || config.BlockmapTryConditionally != 0 {
				return "no lump"
			}
			w = []uint16{uint16(xmin), uint16(ymin), uint16((xmax-xmin)/128 + 1), uint16((ymax-ymin)/128 + 1)}
		} else {
			w = vfWords(data)
		}
		dx, dy := xmin-int(int16(w[0])), ymin-int(int16(w[1]))
		xb, yb := (xmax-xmin+dx)/128+1, (ymax-ymin+dy)/128+1
		if dx < 0 || dy < 0 || dx > 127 || dy > 127 || int(w[2]) != xb || int(w[3]) != yb {
			return fmt.Sprintf("header %v for bounds %d,%d..%d,%d", w[:4], xmin, ymin, xmax, ymax)
		}
		b := RecomputeBounds(L, m.g)
		cx, cy := CutoffOffset(b)
		if config.BlockmapOffsetMode == BM_OFFSET_FIXED {
			ex, ey := int(in.XOffset), int(in.YOffset)
			if ex > int(cx) || ey > int(cy) {
				ex, ey = 0, 0
			}
			if dx != ex || dy != ey {
				return fmt.Sprintf("origin shift %d,%d instead of %d,%d", dx, dy, ex, ey)
			}
		} else if config.BlockmapOffsetMode == BM_OFFSET_THIRTYSIX && cx == 127 && cy == 127 && (dx%8 != 0 || dy%8 != 0 || dx > 40 || dy > 40) {
			return fmt.Sprintf("origin shift %d,%d is none of the 36", dx, dy)
		}
		var got [][]uint16
		maxOff := 0
		if !none {
			var offs []int
			var why string
			_, got, _, offs, why = vfBlocks(data, in.useZeroHeader)
			if why != "" {
				return why
			}
			for _, o := range offs {
				if o > maxOff {
					maxOff = o
				}
			}
		}
		sup := mode == BSUBSET_AGGRESSIVE_ELIMINATION || config.BlockmapTryConditionally != 0
		if none || m.big && h.n(4) > 0 {
		} else if s := m.content(int(int16(w[0])), int(int16(w[1])), xb, yb, got, sup); s != "" {
			return s
		}
		// the choice among the origins
		if config.BlockmapOffsetMode != BM_OFFSET_THIRTYSIX || config.BlockmapTryConditionally != 0 || cx < 127 || cy < 127 {
			return ""
		}
		i2 := in
		i2.bounds = b
		i2.revertibleToZero = in.useZeroHeader && !config.ZeroHeaderIsZero && IsEligibleAsZero(L, 0)
		bestT, bestN := 3, 0
		var first []byte
		firstGood := -1
		k := 0
		bz := false
		for y := int16(0); y < 48; y += 8 {
			for x := int16(0); x < 48; x += 8 {
				i2.XOffset, i2.YOffset = x, y
				bm := CreateBlockmap(&i2)
				var d []byte
				if mode == BSUBSET_NOCOMPRESSION {
					d = bm.GetBytes()
				} else {
					d = bm.GetBytesArcane(mode)
				}
				t := vfTier(bm)
				z := i2.revertibleToZero && bm.zeroLinedef == 0
				if t < bestT || t == bestT && (len(d) < bestN || len(d) == bestN && z && !bz) {
					bestT, bestN, bz = t, len(d), z
					first = d
				}
				good := config.BlockmapSearchAbortion == BM_OFFSET_FITS_VANILLA && t == 0 || config.BlockmapSearchAbortion == BM_OFFSET_FITS_ANYPORT && t < 2
				if good && firstGood < 0 {
					firstGood = k
					if config.Deterministic && string(d) != string(data) {
						return fmt.Sprintf("the first origin that fits is shift %d,%d; the lump is for %d,%d", x, y, dx, dy)
					}
				}
				k++
			}
		}
		if none {
			if bestT < 2 {
				return "no lump, though some origin can be encoded"
			}
			return ""
		}
		if firstGood >= 0 {
			if maxOff >= 32768 && config.BlockmapSearchAbortion == BM_OFFSET_FITS_VANILLA {
				return "the lump does not fit vanilla, another origin does"
			}
			return ""
		}
		if bestT == 0 && maxOff >= 32768 {
			return "the lump does not fit vanilla, another origin does"
		}
		if len(data) != bestN {
			return fmt.Sprintf("a lump of %d bytes was chosen; the smallest that works as well is %d", len(data), bestN)
		}
		if config.Deterministic && string(first) != string(data) {
			return fmt.Sprintf("shift %d,%d was chosen; it is not the first of the best", dx, dy)
		}
		return ""
	})
}
