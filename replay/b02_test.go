package main

//use: common_bmap_test.go

import (
	"context"
	"fmt"
	"time"
)

func vfRun(h *vfH) {
	h.rule = "random line sets put through the goroutines that try several origins, with random options; non-trivial when some line counts"
	h.crashy = true // the origins are tried in goroutines of the code under test
	syslog.SetOutput(vfNull)
	old := *config
	if h.mode != "bounded" {
		h.hugeCase()
	}
	for !h.over() {
		*config = old
		h.hiveCase()
		if h.n(100) == 0 {
			h.genCase(h.limitMap())
		} else {
			h.genCase(h.bmap())
		}
	}
	*config = old
}

// hiveCase plays the goroutines that try the origins, in a chosen order of
// events, with made-up blockmaps, and compares what is picked among them.
func (h *vfH) hiveCase() {
	config.ZeroHeaderIsZero = false
	config.Deterministic = h.n(3) > 0
	config.BlockmapSearchAbortion = []int{BM_OFFSET_NOABORT, BM_OFFSET_FITS_VANILLA, BM_OFFSET_FITS_ANYPORT}[h.n(3)]
	config.RemoveNonCollideable = false
	nb := 1 + h.n(4)
	var ctx context.Context
	var cancel context.CancelFunc
	if config.BlockmapSearchAbortion != BM_OFFSET_NOABORT {
		ctx, cancel = context.WithCancel(context.Background())
		defer cancel()
	}
	max := int16(8 * (2 + h.n(5)))
	var sieve *OffsetSieve
	var agg []chan TriedOffsets
	if ctx != nil && config.Deterministic && nb > 1 {
		sieve = BMCreateOffsetSieve(max, max, 8)
		agg = make([]chan TriedOffsets, nb)
	}
	// the map the left-out origins are made for: all of its blockmaps are small
	L := &DoomLinedefs{linedefs: []Linedef{{StartVertex: 0, EndVertex: 1, FrontSdef: 0, BackSdef: 65535}}, vertices: vfVertices(0, 0, 300, 200)}
	in := &BlockmapInput{lines: L, bounds: RecomputeBounds(L, nil), useZeroHeader: h.n(2) == 0}
	in.revertibleToZero = in.useZeroHeader && h.n(2) == 0
	type origin struct {
		x, y  int16
		tier  int
		out   BlockmapBeeOutput
		tried bool
	}
	side := int(max / 8)
	all := make([]*origin, side*side)
	lo := h.n(3)
	for i := range all {
		o := &origin{x: int16(i%side) * 8, y: int16(i/side) * 8}
		o.tier = []int{0, lo, lo, 2, 2, 1}[h.n(6)]
		if h.n(3) > 0 {
			o.tier = vfMax(lo, o.tier)
		}
		o.out = BlockmapBeeOutput{data: make([]byte, 10+2*h.n(4)), XOffset: o.x, YOffset: o.y, blockmap: &Blockmap{
			useZeroHeader: in.useZeroHeader, zeroLinedef: uint16(h.n(2)), largestOffset: i,
			tooBigForVanilla: o.tier > 0, tooBigForUint16: o.tier > 1,
			header: BlockMapHeader{XMin: -o.x, YMin: -o.y, XBlocks: 1, YBlocks: 1},
		}}
		o.out.data[0], o.out.data[1] = byte(i), 77
		all[i] = o
	}
	good := func(t int) bool {
		return config.BlockmapSearchAbortion == BM_OFFSET_FITS_VANILLA && t == 0 || config.BlockmapSearchAbortion == BM_OFFSET_FITS_ANYPORT && t < 2
	}
	// better: tier, then size, then dummy 0, then (when asked for) the order
	better := func(a, b *origin) bool {
		if a.tier != b.tier {
			return a.tier < b.tier
		}
		if len(a.out.data) != len(b.out.data) {
			return len(a.out.data) < len(b.out.data)
		}
		if za, zb := a.out.blockmap.zeroLinedef == 0, b.out.blockmap.zeroLinedef == 0; in.revertibleToZero && za != zb {
			return za
		}
		return config.Deterministic && (a.y < b.y || a.y == b.y && a.x < b.x)
	}
	type bee struct {
		next int
		got  *origin
		best *origin
		done bool
		list []SieveItemNoBool
	}
	bees := make([]*bee, nb)
	chans := make([]chan BlockmapBeeOutput, nb)
	for i := range bees {
		bees[i], chans[i] = &bee{next: i}, make(chan BlockmapBeeOutput)
		if agg != nil {
			agg[i] = make(chan TriedOffsets)
		}
	}
	slow := h.n(nb)
	order := ""
	rnd := make([]int, 0, 4000)
	for i := 0; i < 4000; i++ {
		k := h.n(nb)
		if k == slow && h.n(3) > 0 {
			k = h.n(nb)
		}
		rnd = append(rnd, k)
	}
	var sent []*origin
	play := func() {
		left := nb
		for t := 0; left > 0; t++ {
			i := rnd[t%len(rnd)]
			b := bees[i]
			if b.done {
				continue
			}
			if b.got == nil {
				stop := b.next >= len(all)
				if ctx != nil && !stop {
					select {
					case <-ctx.Done():
						stop = true
					default:
					}
				}
				if stop {
					b.done = true
					left--
					close(chans[i])
					if agg != nil {
						go func(i int, l []SieveItemNoBool) {
							agg[i] <- TriedOffsets{data: l}
							close(agg[i])
						}(i, b.list)
					}
					continue
				}
				b.got = all[b.next]
				b.got.tried = true
				b.list = append(b.list, SieveItemNoBool{XOffset: b.got.x, YOffset: b.got.y})
				b.next += nb
				continue
			}
			o := b.got
			b.got = nil
			if b.best == nil || (sieve == nil || !good(b.best.tier)) && better(o, b.best) {
				b.best = o
				order += fmt.Sprintf(" %d(%d,%d)t%dn%d", i, o.x, o.y, o.tier, len(o.out.data))
				sent = append(sent, o)
				chans[i] <- o.out
			}
		}
	}
	desc := fmt.Sprintf("origins up to %d from %d goroutines, deterministic %v, stop at %d, zero first %v", max, nb, config.Deterministic, config.BlockmapSearchAbortion, in.revertibleToZero)
	h.check("hive", desc, true, nil, func() string {
		ch := make(chan []byte, 1)
		go play()
		go func() { ch <- BlockmapHive(ctx, cancel, chans, sieve, in, agg, 0, BSUBSET_NOCOMPRESSION) }()
		var data []byte
		select {
		case data = <-ch:
		case <-time.After(60 * time.Second):
			return "no answer after 60 s"
		}
		var want, pick *origin
		if data != nil && len(data) > 1 && data[1] == 77 && int(data[0]) < len(all) {
			pick = all[data[0]]
		}
		for _, o := range sent {
			if want == nil || better(o, want) {
				want = o
			}
		}
		stopped := want != nil && good(want.tier)
		if sieve != nil && stopped {
			for _, o := range all {
				if !o.tried { // made by the code itself: it always fits
					i2 := *in
					i2.XOffset, i2.YOffset = o.x, o.y
					bm := CreateBlockmap(&i2)
					if d := bm.GetBytes(); string(d) != string(data) {
						return fmt.Sprintf("the first origin that fits is %d,%d, left out by the goroutines; another was chosen: %v. Results in order:%s", o.x, o.y, data, order)
					}
					return ""
				}
				if good(o.tier) {
					if pick != o {
						return fmt.Sprintf("the first origin that fits is %d,%d; another was chosen: %v. Results in order:%s", o.x, o.y, data, order)
					}
					return ""
				}
			}
			return ""
		}
		if want.tier == 2 {
			if data != nil {
				return "no origin can be encoded, yet there is a lump. Results in order:" + order
			}
			return ""
		}
		if pick == nil {
			return fmt.Sprintf("the lump is none of the goroutines': %v. Results in order:%s", data, order)
		}
		if stopped {
			if !good(pick.tier) {
				return fmt.Sprintf("origin %d,%d was chosen; it does not fit, %d,%d does. Results in order:%s", pick.x, pick.y, want.x, want.y, order)
			}
			return ""
		}
		if better(want, pick) {
			return fmt.Sprintf("origin %d,%d was chosen; %d,%d is better. Results in order:%s", pick.x, pick.y, want.x, want.y, order)
		}
		return ""
	})
}
