package main

import "fmt"

// Visibility writes: random sequences on the three table layouts, compared
// after every step with a plain square model of the table.

type vfVis struct {
	n          int
	at         func(i, j int) *uint8
	mark       func(i, j int, v uint8)
	sector     func(i, j int, v uint8)
	force      func(i, j int, v uint8)
	pair       func(a, b *TransLine)
	setup, end func()
}

func vfRun(h *vfH) {
	h.rule = "random sequences of visibility writes over up to 12 sectors, with and without sector groups; non-trivial when a decided pair is written again"
	for h.frac(1) {
		vfVisCase(h)
	}
}

func vfVisCase(h *vfH) {
	n := 1 + h.n(12)
	kind := h.n(3)
	groups := make([]RejGroup, n)
	hasGroups := h.n(2) == 0
	for i := range groups {
		groups[i] = RejGroup{legal: true, sectors: []int{i}, parent: i, minRepresentative: i}
	}
	if hasGroups {
		for t := 0; t < 3; t++ {
			i, j := h.n(n), h.n(n)
			if i != j && groups[i].legal && groups[j].legal && len(groups[j].sectors) == 1 {
				groups[i].sectors = append(groups[i].sectors, j)
				groups[j].legal = false
				groups[j].parent = i
			}
		}
	}
	share := hasGroups && kind == 0 && h.n(2) == 0
	var v vfVis
	switch kind {
	case 0:
		r := &RejectWork{numSectors: n, hasGroups: hasGroups, groups: groups, groupShareVis: share}
		r.prepareReject()
		v = vfVis{n, r.rejectTableIJ, r.markVisibility, r.markVisibilitySector, r.forceVisibility, r.markPairVisible, r.setupMixer, r.mergeAndDestroyMixer}
	case 1:
		r := &FastRejectWork{numSectors: n, hasGroups: hasGroups, groups: groups}
		r.prepareReject()
		v = vfVis{n, r.rejectTableIJ, r.markVisibility, r.markVisibilitySector, r.forceVisibility, r.markPairVisible, r.setupMixer, r.mergeAndDestroyMixer}
	case 2:
		r := &SymmetricRejectWork{numSectors: n, hasGroups: hasGroups, groups: groups}
		r.prepareReject()
		v = vfVis{n, r.rejectTableIJ, r.markVisibility, r.markVisibilitySector, r.forceVisibility, r.markPairVisible, r.setupMixer, r.mergeAndDestroyMixer}
	}
	model := make([]uint8, n*n)
	var mixer []uint8
	set := func(t []uint8, i, j int, val uint8) {
		if t[i*n+j] == VIS_UNKNOWN {
			t[i*n+j] = val
		}
	}
	desc := fmt.Sprintf("layout %d, %d sectors, groups %v share %v: ", kind, n, hasGroups, share)
	if hasGroups {
		for i := range groups {
			desc += fmt.Sprint(groups[i].sectors, groups[i].parent, " ")
		}
	}
	again := false
	h.check("visibility", desc, false, nil, func() string {
		mark := func(i, j int, val uint8) {
			if share && !(groups[i].legal && len(groups[i].sectors) == 1 && groups[j].legal && len(groups[j].sectors) == 1) {
				t := model
				if val == VIS_HIDDEN && mixer != nil {
					t = mixer
				}
				for _, a := range groups[groups[i].parent].sectors {
					for _, b := range groups[groups[j].parent].sectors {
						set(t, a, b, val)
						set(t, b, a, val)
					}
				}
				return
			}
			again = again || model[i*n+j] != VIS_UNKNOWN
			set(model, i, j, val)
			set(model, j, i, val)
		}
		for step := 0; step < 30; step++ {
			i, j := h.n(n), h.n(n)
			val := uint8(1 + h.n(2))
			op := h.n(7)
			line := fmt.Sprintf("%d(%d,%d,%d) ", op, i, j, val)
			switch op {
			case 0, 1:
				v.mark(i, j, val)
				mark(i, j, val)
			case 2:
				v.sector(i, j, val)
				set(model, i, j, val)
				set(model, j, i, val)
			case 3:
				v.force(i, j, val)
				gi, gj := []int{i}, []int{j}
				if hasGroups {
					gi, gj = groups[i].sectors, groups[j].sectors
				}
				for _, a := range gi {
					for _, b := range gj {
						model[a*n+b] = val
						if kind == 2 {
							model[b*n+a] = val
						}
					}
				}
			case 4:
				k, l := h.n(n), h.n(n)
				line += fmt.Sprintf("%d,%d ", k, l)
				v.pair(&TransLine{frontSector: uint16(i), backSector: uint16(k)}, &TransLine{frontSector: uint16(j), backSector: uint16(l)})
				mark(i, j, VIS_VISIBLE)
				mark(k, j, VIS_VISIBLE)
				mark(i, l, VIS_VISIBLE)
				mark(k, l, VIS_VISIBLE)
			case 5:
				if share && mixer == nil {
					v.setup()
					mixer = append([]uint8{}, model...)
				}
			case 6:
				if share && mixer != nil {
					v.end()
					for k := range model {
						if model[k] == VIS_UNKNOWN {
							model[k] = mixer[k]
						}
					}
					mixer = nil
				}
			}
			desc += line
			for a := 0; a < n; a++ {
				for b := 0; b < n; b++ {
					if *v.at(a, b) != model[a*n+b] {
						return fmt.Sprintf("after %s: pair %d,%d is %d, expected %d", desc, a, b, *v.at(a, b), model[a*n+b])
					}
				}
			}
		}
		if again {
			h.note(desc)
		}
		return ""
	})
}
