package main

import "fmt"

// Reject encoding: random tables of visibility states, compared cell by cell
// against the lump bits.
func vfRun(h *vfH) {
	h.rule = "a table of n sectors filled at random through the table accessors; non-trivial when at least one pair is visible and one hidden"
	for h.frac(1) {
		n := int(h.hint(1, 40))
		if h.n(10) == 0 {
			n = 1 + h.n(200)
		}
		kind := h.n(3)
		cells := make([][]uint8, n)
		nv, nh := 0, 0
		for i := range cells {
			cells[i] = make([]uint8, n)
			for j := range cells[i] {
				cells[i][j] = uint8(h.n(3))
				if kind == 2 && j < i {
					cells[i][j] = cells[j][i]
				}
				if cells[i][j] == VIS_VISIBLE {
					nv++
				} else {
					nh++
				}
			}
		}
		name := []string{"default", "fast", "symmetric"}[kind]
		desc := fmt.Sprintf("%s table, %d sectors, seed case %d", name, n, h.cases)
		if n <= 8 {
			desc += fmt.Sprint(" cells ", cells)
		}
		h.check("encode-"+name, desc, nv > 0 && nh > 0, map[string]interface{}{"kind": name, "cells": cells}, func() string {
			var res []byte
			var fresh func(i, j int) *uint8
			switch kind {
			case 0:
				r := &RejectWork{numSectors: n}
				r.prepareReject()
				fresh = r.rejectTableIJ
				if w := vfFill(cells, fresh); w != "" {
					return w
				}
				res = r.getResult()
			case 1:
				r := &FastRejectWork{numSectors: n}
				r.prepareReject()
				fresh = r.rejectTableIJ
				if w := vfFill(cells, fresh); w != "" {
					return w
				}
				res = r.getResult()
			case 2:
				r := &SymmetricRejectWork{numSectors: n}
				r.prepareReject()
				fresh = r.rejectTableIJ
				if w := vfFill(cells, fresh); w != "" {
					return w
				}
				res = r.getResult()
			}
			if len(res) != (n*n+7)/8 {
				return fmt.Sprintf("lump of %d bytes for %d sectors", len(res), n)
			}
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					p := i*n + j
					bit := res[p/8]&(1<<uint(p%8)) != 0
					if bit != (cells[i][j] != VIS_VISIBLE) {
						return fmt.Sprintf("bit for sectors %d,%d is %v but the table says %d", i, j, bit, cells[i][j])
					}
				}
			}
			return ""
		})
	}
}

func vfFill(cells [][]uint8, at func(i, j int) *uint8) string {
	for i := range cells {
		for j := range cells {
			if *at(i, j) != VIS_UNKNOWN {
				if cells[i][j] != *at(i, j) {
					return fmt.Sprintf("cell %d,%d of the new table is already decided", i, j)
				}
			}
			*at(i, j) = cells[i][j]
		}
	}
	for i := range cells {
		for j := range cells {
			if *at(i, j) != cells[i][j] {
				return fmt.Sprintf("cell %d,%d reads back %d, wrote %d", i, j, *at(i, j), cells[i][j])
			}
		}
	}
	return ""
}
