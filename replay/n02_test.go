package main

//use: common_wad_test.go
//use: common_geo_test.go
//use: common_nodes_test.go
//use: common_nodecase_test.go

import (
	"fmt"
	"os"
)

var vfNull, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)

func vfRun(h *vfH) {
	h.rule = "whole runs over random maps under random node formats and options, the lumps decoded and compared with the map; non-trivial when the tree has 4 or more subsectors"
	syslog.SetOutput(vfNull)
	for !h.over() {
		h.nodesCase()
		h.treeCase()
		if h.n(12) == 0 {
			h.deepenCase()
			h.fitCase()
		}
	}
}

// a tree of random shape, written in one of the two orders and formats
func (h *vfH) treeCase() {
	n := 1 + h.n(1+h.n(200))
	leaf := uint32(0)
	id := 0
	var grow func(n int) *NodeInProcess
	grow = func(n int) *NodeInProcess {
		id++
		o := &NodeInProcess{X: int16(id), Y: int16(-id), Dx: int16(h.n(65536)), Dy: int16(h.n(65536))}
		for k := range o.Rbox {
			o.Rbox[k], o.Lbox[k] = int16(h.n(65536)), int16(h.n(65536))
		}
		l := 0
		switch h.n(4) {
		case 0:
			l = n - 1
		case 1, 2:
			l = h.n(n)
		}
		if r := n - 1 - l; r > 0 {
			o.nextR = grow(r)
		} else {
			o.RChild = leaf | SSECTOR_DEEP_MASK
			leaf++
		}
		if l > 0 {
			o.nextL = grow(l)
		} else {
			o.LChild = leaf | SSECTOR_DEEP_MASK
			leaf++
		}
		return o
	}
	root := grow(n)
	leaf = uint32(h.n(3))*10000 + 5
	deep, straight, ext := h.n(2) == 0, h.n(2) == 0, h.n(3) == 0
	deep = deep || ext
	type kid = [2]uint32
	kids := map[*NodeInProcess]kid{}
	var mem func(o *NodeInProcess)
	mem = func(o *NodeInProcess) {
		kids[o] = kid{o.RChild, o.LChild}
		if o.nextR != nil {
			mem(o.nextR)
		}
		if o.nextL != nil {
			mem(o.nextL)
		}
	}
	mem(root)
	h.check("tree", fmt.Sprintf("%d nodes, deep %v, straight %v, extended %v", n, deep, straight, ext), n > 4, nil, func() string {
		defer func(o bool) { config.StraightNodes = o }(config.StraightNodes)
		config.StraightNodes = straight
		var got []DeepNode
		var top uint32
		switch {
		case ext:
			w := &ZExt_NodesWork{totals: &NodesTotals{numNodes: n}, SsectorMask: SSECTOR_DEEP_MASK}
			top = w.reverseDeepNodes(root)
			got = w.deepNodes
		case deep:
			w := &NodesWork{totals: &NodesTotals{numNodes: n}, SsectorMask: SSECTOR_DEEP_MASK}
			top = w.reverseDeepNodes(root)
			got = w.deepNodes
		default:
			w := &NodesWork{totals: &NodesTotals{numNodes: n}, SsectorMask: SSECTOR_NORMAL_MASK}
			top = w.reverseNodes(root)
			for _, o := range w.nodes {
				x := DeepNode{X: o.X, Y: o.Y, Dx: o.Dx, Dy: o.Dy, Rbox: o.Rbox, Lbox: o.Lbox}
				c := func(r int16) int32 {
					if r < 0 {
						return int32(uint32(uint16(r)&0x7fff) | 1<<31)
					}
					return int32(r)
				}
				x.RChild, x.LChild = c(o.RChild), c(o.LChild)
				got = append(got, x)
			}
		}
		if len(got) != n || int(top) != n-1 {
			return fmt.Sprintf("%d of %d nodes, root at %d", len(got), n, top)
		}
		seen := make([]bool, n)
		var walk func(k uint32, o *NodeInProcess) string
		walk = func(k uint32, o *NodeInProcess) string {
			if k >= uint32(n) || seen[k] {
				return fmt.Sprintf("node %d is referred to twice or not there", k)
			}
			seen[k] = true
			g := got[k]
			if g.X != o.X || g.Y != o.Y || g.Dx != o.Dx || g.Dy != o.Dy || g.Rbox != o.Rbox || g.Lbox != o.Lbox {
				return fmt.Sprintf("node %d is %v, not %v", k, g, *o)
			}
			for s, next := range []*NodeInProcess{o.nextR, o.nextL} {
				r := uint32([]int32{g.RChild, g.LChild}[s])
				if next == nil {
					if r != kids[o][s] {
						return fmt.Sprintf("child %d of node %d is %x, not subsector %x", s, k, r, kids[o][s])
					}
				} else if e := walk(r, next); e != "" {
					return e
				}
			}
			return ""
		}
		return walk(top, root)
	})
}

func (h *vfH) vanilla(total int) *NodesWork {
	w := &NodesWork{nodeType: NODETYPE_VANILLA, SsectorMask: SSECTOR_NORMAL_MASK, totals: &NodesTotals{}}
	most := 1 + h.n([]int{4, 100, 3000, 40000}[h.n(4)])
	for len(w.segs) < total {
		k := vfMin(1+h.n(most), total-len(w.segs))
		if h.n(20) == 0 {
			k = vfMin(most, total-len(w.segs))
		}
		w.subsectors = append(w.subsectors, SubSector{FirstSeg: uint16(len(w.segs)), SegCount: uint16(k)})
		w.totals.maxSegCountInSubsector = uint32(vfMax(int(w.totals.maxSegCountInSubsector), k))
		for ; k > 0; k-- {
			i := len(w.segs)
			w.segs = append(w.segs, Seg{Linedef: uint16(i), Offset: uint16(i >> 16), StartVertex: uint16(i * 7), EndVertex: uint16(i * 5), Angle: int16(i * 3), Flip: int16(i & 1)})
		}
	}
	return w
}

// a vanilla tree that turns into a deep one
func (h *vfH) deepenCase() {
	w := h.vanilla(1 + h.n([]int{300, 70000, 140000}[h.n(3)]))
	segs, subs := w.segs, w.subsectors
	h.check("deepen", fmt.Sprintf("%d segs in %d subsectors", len(segs), len(subs)), len(segs) > 65536, nil, func() string {
		w.upgradeToDeep()
		if w.SsectorMask != SSECTOR_DEEP_MASK || w.nodeType != NODETYPE_DEEP || len(w.deepSegs) != len(segs) || len(w.deepSubsectors) != len(subs) {
			return fmt.Sprintf("type %d, mask %x, %d segs, %d subsectors", w.nodeType, w.SsectorMask, len(w.deepSegs), len(w.deepSubsectors))
		}
		at := 0
		for i, s := range subs {
			if d := w.deepSubsectors[i]; int(d.FirstSeg) != at || d.SegCount != s.SegCount {
				return fmt.Sprintf("subsector %d is %v, not %d segs from %d", i, d, s.SegCount, at)
			}
			at += int(s.SegCount)
		}
		for i, s := range segs {
			if d := w.deepSegs[i]; d != (DeepSeg{StartVertex: uint32(s.StartVertex), EndVertex: uint32(s.EndVertex), Angle: s.Angle, Linedef: s.Linedef, Flip: s.Flip, Offset: s.Offset}) {
				return fmt.Sprintf("seg %d is %v, was %v", i, d, s)
			}
		}
		return ""
	})
}

// segs near the limits of the vanilla format
func (h *vfH) fitCase() {
	lim := []int{32768, 65536}[h.n(2)]
	w := h.vanilla(lim - 50 + h.n([]int{100, 3000, 40000}[h.n(3)]))
	segs := append([]Seg{}, w.segs...)
	subs := append([]SubSector{}, w.subsectors...)
	most := int(w.totals.maxSegCountInSubsector)
	h.check("fit", fmt.Sprintf("%d segs in %d subsectors of at most %d", len(segs), len(subs), most), len(segs) > 65536, nil, func() string {
		if w.tooManySegsCantFix(true) != (len(segs)-most > 65535) && len(segs) > 65536 {
			return "foretells wrongly whether the segs fit"
		}
		bad := w.tooManySegsCantFix(false)
		if bad != (len(segs)-most > 65535) {
			return fmt.Sprintf("reports %v", bad)
		}
		if bad {
			return ""
		}
		at := 0
		for i, s := range w.subsectors {
			if s.SegCount != subs[i].SegCount || int(s.FirstSeg)+int(s.SegCount) > len(w.segs) {
				return fmt.Sprintf("subsector %d is %v, was %v", i, s, subs[i])
			}
			for j := 0; j < int(s.SegCount); j++ {
				if w.segs[int(s.FirstSeg)+j] != segs[at+j] {
					return fmt.Sprintf("subsector %d at %d lists a seg that is not its own", i, s.FirstSeg)
				}
			}
			at += int(s.SegCount)
		}
		if len(segs)-most <= 32767 && len(segs) > 32768 {
			for i, s := range w.subsectors {
				if s.FirstSeg > 32767 {
					return fmt.Sprintf("subsector %d starts at %d although all could start within 32767", i, s.FirstSeg)
				}
			}
		}
		return ""
	})
}
