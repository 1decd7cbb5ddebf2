package main

//use: common_wad_test.go
//use: common_wadcase_test.go

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"strings"
)

func vfRun(h *vfH) {
	h.rule = "random lists of reject sizes through the pool of zeros, and small WADs with 1 to 9 levels of 1 to 120 sectors through the whole program with zero-filled rejects; non-trivial with two rejects or more"
	syslog.SetOutput(vfNull)
	for h.frac(0.2) {
		h.poolCase()
	}
	for !h.over() {
		h.zeroCase()
	}
}

var vfNull, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)

func (h *vfH) poolCase() {
	k := h.n(9)
	var sizes []uint32
	for i := 0; i < k; i++ {
		sizes = append(sizes, uint32(h.n([]int{2, 4, 12, 400}[h.n(4)])))
	}
	order := h.rng.Perm(k)
	h.check("pool", fmt.Sprintf("sizes %v taken in order %v", sizes, order), k > 1, nil, func() string {
		t := CreateTroll()
		for _, s := range sizes {
			t.AddSize(s)
		}
		n := t.Compile()
		seen := map[uint32]bool{}
		for _, i := range order {
			o := t.PopOffset(sizes[i])
			if seen[o] {
				return fmt.Sprintf("offset %d given twice", o)
			}
			seen[o] = true
			if o+sizes[i] > n {
				return fmt.Sprintf("%d bytes at %d do not fit the %d zeros", sizes[i], o, n)
			}
		}
		return ""
	})
	x := []uint32{0, 1, 255, 256, 65535, 65536, 1 << 24, 1<<24 - 1, 1 << 31}[h.n(9)] + uint32(h.n(3))
	if h.n(2) == 0 {
		x = uint32(h.hint(0, 1<<32-1))
	}
	h.check("trailzeros", fmt.Sprintf("bytes of %d", x), true, nil, func() string {
		w := 0
		for b := 3; b >= 0 && byte(x>>(8*b)) == 0; b-- {
			w++
		}
		if g := RightTrailZeros(x); g != uint32(w) {
			return fmt.Sprintf("%d zero bytes at the end, not %d", g, w)
		}
		return ""
	})
}

// more sectors, which no side uses
func vfPad(r *rand.Rand, lumps []vfLump) {
	for i := range lumps {
		if lumps[i].Name == "SECTORS" && len(lumps[i].Data) >= 26 && r.Intn(2) == 0 {
			d := append([]byte{}, lumps[i].Data...)
			for k := r.Intn(110); k > 0; k-- {
				d = append(d, d[:26]...)
			}
			lumps[i].Data = d
		}
	}
}

func (h *vfH) zeroCase() {
	var names []string
	for k := 1 + h.n(3); k > 0; k-- {
		names = append(names, vfNames(h.rng, true)...)
	}
	if h.n(2) == 0 && !vfIsMap(names[0]) {
		names = append([]string{fmt.Sprintf("MAP%02d", 20+h.n(9)), "THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SECTORS"}, names...)
	}
	lumps := vfFill(h.rng, names)
	vfPad(h.rng, lumps)
	args := []string{"-rz", "-n-"}
	if h.n(2) == 0 {
		args = append(args, "-b-")
	}
	eject := h.n(6) == 0
	if eject {
		args = append(args, "--eject")
	}
	if h.n(3) == 0 {
		args = append(args, "-d")
	}
	filter := map[string]bool{}
	if h.n(5) == 0 {
		for _, n := range names {
			if vfIsMap(n) && h.n(2) == 0 && !filter[n] {
				filter[n] = true
				args = append(args, "")
				args[len(args)-1] = "-m:" + n
			}
		}
		if len(filter) > 1 { // one list
			var f, a []string
			for _, x := range args {
				if strings.HasPrefix(x, "-m:") {
					f = append(f, x[3:])
				} else {
					a = append(a, x)
				}
			}
			args = append(a, "-m:"+strings.Join(f, "+"))
		}
	}
	want, hexen := vfExpect(names, func(n string) bool { return len(filter) == 0 || filter[n] }, eject, true)
	if len(hexen) == 0 {
		return
	}
	var sizes []int
	in, out := h.path("in.wad"), h.path("out.wad")
	if err := vfLayWad(h.rng, in, "PWAD", lumps); err != nil {
		return
	}
	os.Remove(out)
	for _, x := range want {
		if x.level >= 0 && x.Name == "SECTORS" {
			sizes = append(sizes, len(lumps[x.Idx].Data)/26)
		}
	}
	desc := fmt.Sprintf("file %s options %v sectors %v first lump of %d bytes", strings.Join(names, " "), args, sizes, len(lumps[0].Data))
	h.check("zeros", desc, len(hexen) > 1, nil, func() string {
		code, log := h.tool(append(append([]string{}, args...), in, "-o", out)...)
		if code != 0 {
			return fmt.Sprintf("exit code %d: %s", code, vfTrunc(log, 1500))
		}
		w, e := vfReadWad(out)
		if e != "" {
			return e
		}
		if len(w.Lumps) != len(want) {
			return fmt.Sprintf("%d lumps instead of %d", len(w.Lumps), len(want))
		}
		seen := map[uint32]int{}
		for i, l := range w.Lumps {
			x := want[i]
			if x.level < 0 || x.Name != "REJECT" {
				if x.Idx >= 0 && (x.level < 0 || x.Name != "BLOCKMAP") && !bytes.Equal(l.Data, lumps[x.Idx].Data) {
					return fmt.Sprintf("lump %d (%s) of %d bytes differs from the input's %d bytes", i, x.Name, len(l.Data), len(lumps[x.Idx].Data))
				}
				if len(l.Data) > 0 && (l.Pos < 12 || l.Pos < w.DirStart+16*uint32(len(want)) && l.Pos+uint32(len(l.Data)) > w.DirStart) {
					return fmt.Sprintf("lump %d (%s) at %d overlaps the header or the directory at %d", i, x.Name, l.Pos, w.DirStart)
				}
				continue
			}
			n := sizes[x.level]
			if len(l.Data) != (n*n+7)/8 {
				return fmt.Sprintf("lump %d: reject of %d bytes for %d sectors", i, len(l.Data), n)
			}
			for k, b := range l.Data {
				if b != 0 {
					return fmt.Sprintf("lump %d: reject at %d, byte %d is %d (directory at %d)", i, l.Pos, k, b, w.DirStart)
				}
			}
			if j, ok := seen[l.Pos]; ok {
				return fmt.Sprintf("rejects %d and %d both start at %d", j, i, l.Pos)
			}
			seen[l.Pos] = i
		}
		return ""
	})
}
