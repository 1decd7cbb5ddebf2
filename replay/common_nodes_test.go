package main

// Reading of built nodes in every format.

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"math"
	"io"
)

type vfNSeg struct {
	v1, v2      int
	angle       int16
	line        int
	flip        int
	offset      int
	x1, y1      float64
	x2, y2      float64
	ss          int
}

type vfNode struct {
	x, y, dx, dy float64
	box          [2][4]float64 // right, left: top, bottom, left, right
	kid          [2]uint32     // right, left; the top bit marks a subsector
}

type vfBSP struct {
	kind  string
	vx    []float64
	vy    []float64
	lines []Linedef
	segs  []vfNSeg
	first []int
	count []int
	nodes []vfNode
}

// vfParseNodes reads the lumps of one level.
func vfParseNodes(l map[string][]byte) (*vfBSP, string) {
	b := &vfBSP{kind: "vanilla"}
	rd := func(r io.Reader, p interface{}) bool { return binary.Read(r, binary.LittleEndian, p) == nil }
	ld := l["LINEDEFS"]
	if len(ld)%14 != 0 || len(l["VERTEXES"])%4 != 0 {
		return nil, "LINEDEFS or VERTEXES is not a whole number of records"
	}
	b.lines = make([]Linedef, len(ld)/14)
	rd(bytes.NewReader(ld), b.lines)
	vs := make([]Vertex, len(l["VERTEXES"])/4)
	rd(bytes.NewReader(l["VERTEXES"]), vs)
	for _, v := range vs {
		b.vx = append(b.vx, float64(v.XPos))
		b.vy = append(b.vy, float64(v.YPos))
	}
	nd, sg, ss := l["NODES"], l["SEGS"], l["SSECTORS"]
	wide := func(n, k int, wideKids bool, body io.Reader) string {
		for i := 0; i < n; i++ {
			var h struct {
				X, Y, Dx, Dy int16
				Box          [2][4]int16
			}
			if !rd(body, &h) {
				return "NODES ends early"
			}
			o := vfNode{x: float64(h.X), y: float64(h.Y), dx: float64(h.Dx), dy: float64(h.Dy)}
			for s := 0; s < 2; s++ {
				for j := 0; j < 4; j++ {
					o.box[s][j] = float64(h.Box[s][j])
				}
			}
			if wideKids {
				var k [2]uint32
				if !rd(body, &k) {
					return "NODES ends early"
				}
				o.kid = k
			} else {
				var k [2]uint16
				if !rd(body, &k) {
					return "NODES ends early"
				}
				for s := range k {
					o.kid[s] = uint32(k[s]&0x7FFF) | uint32(k[s]&0x8000)<<16
				}
			}
			b.nodes = append(b.nodes, o)
		}
		return ""
	}
	switch {
	case len(nd) >= 8 && string(nd[:8]) == "xNd4\x00\x00\x00\x00":
		b.kind = "deep"
		if (len(nd)-8)%32 != 0 || len(sg)%16 != 0 || len(ss)%6 != 0 {
			return nil, "SEGS, SSECTORS or NODES is not a whole number of records"
		}
		s := make([]struct {
			A, B    uint32
			Angle   int16
			Line    uint16
			Flip, O uint16
		}, len(sg)/16)
		rd(bytes.NewReader(sg), s)
		for _, x := range s {
			b.segs = append(b.segs, vfNSeg{v1: int(x.A), v2: int(x.B), angle: x.Angle, line: int(x.Line), flip: int(x.Flip), offset: int(x.O)})
		}
		q := make([]struct {
			N uint16
			F uint32
		}, len(ss)/6)
		rd(bytes.NewReader(ss), q)
		for _, x := range q {
			b.first, b.count = append(b.first, int(x.F)), append(b.count, int(x.N))
		}
		if e := wide((len(nd)-8)/32, 0, true, bytes.NewReader(nd[8:])); e != "" {
			return nil, e
		}
	case len(nd) >= 4 && (string(nd[:4]) == "XNOD" || string(nd[:4]) == "ZNOD"):
		b.kind = "extended"
		var r io.Reader = bytes.NewReader(nd[4:])
		if nd[0] == 'Z' {
			b.kind = "compressed"
			z, err := zlib.NewReader(r)
			if err != nil {
				return nil, "NODES: " + err.Error()
			}
			all, err := io.ReadAll(z)
			if err != nil {
				return nil, "NODES: " + err.Error()
			}
			r = bytes.NewReader(all)
		}
		if len(sg) > 0 || len(ss) > 0 {
			return nil, "SEGS or SSECTORS is not empty though NODES holds it all"
		}
		var hd [2]uint32
		if !rd(r, &hd) || int(hd[0]) > len(vs) || hd[1] > 1<<20 {
			return nil, fmt.Sprintf("vertex header %v with %d in VERTEXES", hd, len(vs))
		}
		b.vx, b.vy = b.vx[:hd[0]], b.vy[:hd[0]]
		nv := make([][2]int32, hd[1])
		if !rd(r, nv) {
			return nil, "NODES ends early"
		}
		for _, v := range nv {
			b.vx = append(b.vx, float64(v[0])/65536)
			b.vy = append(b.vy, float64(v[1])/65536)
		}
		var n uint32
		if !rd(r, &n) || n > 1<<20 {
			return nil, "NODES ends early"
		}
		c := make([]uint32, n)
		if !rd(r, c) {
			return nil, "NODES ends early"
		}
		at := 0
		for _, x := range c {
			b.first, b.count = append(b.first, at), append(b.count, int(x))
			at += int(x)
		}
		if !rd(r, &n) || n > 1<<20 {
			return nil, "NODES ends early"
		}
		s := make([]struct {
			A, B uint32
			Line uint16
			Side uint8
		}, n)
		if !rd(r, s) {
			return nil, "NODES ends early"
		}
		for _, x := range s {
			b.segs = append(b.segs, vfNSeg{v1: int(x.A), v2: int(x.B), line: int(x.Line), flip: int(x.Side)})
		}
		if !rd(r, &n) || n > 1<<20 {
			return nil, "NODES ends early"
		}
		if e := wide(int(n), 0, true, r); e != "" {
			return nil, e
		}
		var one [1]byte
		if k, _ := r.Read(one[:]); k > 0 {
			return nil, "NODES goes on after the nodes"
		}
	default:
		if len(nd)%28 != 0 || len(sg)%12 != 0 || len(ss)%4 != 0 {
			return nil, "SEGS, SSECTORS or NODES is not a whole number of records"
		}
		s := make([]struct {
			A, B    uint16
			Angle   int16
			Line    uint16
			Flip, O uint16
		}, len(sg)/12)
		rd(bytes.NewReader(sg), s)
		for _, x := range s {
			b.segs = append(b.segs, vfNSeg{v1: int(x.A), v2: int(x.B), angle: x.Angle, line: int(x.Line), flip: int(x.Flip), offset: int(x.O)})
		}
		q := make([]struct{ N, F uint16 }, len(ss)/4)
		rd(bytes.NewReader(ss), q)
		for _, x := range q {
			b.first, b.count = append(b.first, int(x.F)), append(b.count, int(x.N))
		}
		if e := wide(len(nd)/28, 0, false, bytes.NewReader(nd)); e != "" {
			return nil, e
		}
	}
	for i := range b.segs {
		s := &b.segs[i]
		if s.v1 >= len(b.vx) || s.v2 >= len(b.vx) {
			return nil, fmt.Sprintf("seg %d goes from vertex %d to %d of %d", i, s.v1, s.v2, len(b.vx))
		}
		if s.line >= len(b.lines) || s.flip > 1 {
			return nil, fmt.Sprintf("seg %d is of side %d of line %d of %d", i, s.flip, s.line, len(b.lines))
		}
		s.x1, s.y1, s.x2, s.y2 = b.vx[s.v1], b.vy[s.v1], b.vx[s.v2], b.vy[s.v2]
		s.ss = -1
	}
	for i := range b.first {
		if b.count[i] == 0 {
			return nil, fmt.Sprintf("subsector %d is empty", i)
		}
		for k := b.first[i]; k < b.first[i]+b.count[i]; k++ {
			if k >= len(b.segs) {
				return nil, fmt.Sprintf("subsector %d has segs %d to %d of %d", i, b.first[i], b.first[i]+b.count[i]-1, len(b.segs))
			}
			if b.segs[k].ss >= 0 {
				return nil, fmt.Sprintf("seg %d is in subsectors %d and %d", k, b.segs[k].ss, i)
			}
			b.segs[k].ss = i
		}
	}
	for k := range b.segs {
		if b.segs[k].ss < 0 {
			return nil, fmt.Sprintf("seg %d is in no subsector", k)
		}
	}
	return b, ""
}

// tree says what is wrong with the shape of the tree: the root is last and
// every node and subsector is reached once.
func (b *vfBSP) tree() string {
	if len(b.nodes) == 0 {
		return "no nodes"
	}
	nodes, subs := make([]int, len(b.nodes)), make([]int, len(b.first))
	var walk func(n uint32, depth int) string
	walk = func(n uint32, depth int) string {
		if n>>31 == 1 {
			k := int(n & 0x7FFFFFFF)
			if k >= len(subs) {
				return fmt.Sprintf("subsector %d of %d", k, len(subs))
			}
			subs[k]++
			if subs[k] > 1 {
				return fmt.Sprintf("subsector %d reached twice", k)
			}
			return ""
		}
		if int(n) >= len(nodes) {
			return fmt.Sprintf("node %d of %d", n, len(nodes))
		}
		nodes[n]++
		if nodes[n] > 1 {
			return fmt.Sprintf("node %d reached twice", n)
		}
		for s := 0; s < 2; s++ {
			if e := walk(b.nodes[n].kid[s], depth+1); e != "" {
				return e
			}
		}
		return ""
	}
	if e := walk(uint32(len(b.nodes)-1), 0); e != "" {
		return e
	}
	for i, c := range nodes {
		if c == 0 {
			return fmt.Sprintf("node %d of %d is not reached from the last", i, len(nodes))
		}
	}
	for i, c := range subs {
		if c == 0 {
			return fmt.Sprintf("subsector %d is not reached", i)
		}
	}
	return ""
}

// find gives the subsector of a point, and how near the point came to a
// partition line on the way
func (b *vfBSP) find(x, y float64) (leaf int, near float64) {
	n := uint32(len(b.nodes) - 1)
	near = 1e9
	for n>>31 == 0 {
		o := b.nodes[n]
		d := (o.dx*(y-o.y) - o.dy*(x-o.x)) / math.Hypot(o.dx, o.dy)
		near = math.Min(near, math.Abs(d))
		// right: below when heading along the partition
		if d <= 0 {
			n = o.kid[0]
		} else {
			n = o.kid[1]
		}
	}
	return int(n & 0x7FFFFFFF), near
}
