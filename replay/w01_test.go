package main

//use: common_wad_test.go
//use: common_wadcase_test.go

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"sort"
	"strings"
)

func vfRun(h *vfH) {
	h.rule = "random directories (levels complete, unbuilt, with missing, repeated, misplaced and foreign lumps, UDMF levels, filters) through the directory code, and small WADs with random layout through the whole program; non-trivial when some level is rebuilt"
	syslog.SetOutput(vfNull)
	old := *config
	for h.frac(0.4) {
		h.dirCase()
	}
	*config = old
	for !h.over() {
		h.fileCase()
	}
}

var vfNull, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)

func (h *vfH) dirCase() {
	names := vfNames(h.rng, false)
	if len(names) == 0 {
		return
	}
	config.Eject = h.n(4) == 0
	config.DisableUDMF = true // no option turns it off
	config.FilterLevel = nil
	config.FilterProhibitsLevels = false
	filter := map[string]bool{}
	if h.n(3) == 0 {
		for _, n := range names {
			if vfIsMap(n) && h.n(2) == 0 {
				filter[n] = true
				config.FilterLevel = append(config.FilterLevel, []byte(n))
			}
		}
		config.FilterProhibitsLevels = h.n(2) == 0
	}
	reb := func(n string) bool {
		return len(filter) == 0 || filter[n] != config.FilterProhibitsLevels
	}
	want, hexen := vfExpect(names, reb, config.Eject, config.DisableUDMF)
	desc := fmt.Sprintf("directory %s eject %v no-udmf %v filter %q/%v", strings.Join(names, " "), config.Eject, config.DisableUDMF, config.FilterLevel, config.FilterProhibitsLevels)
	h.check("directory", desc, len(hexen) > 0, nil, func() string {
		le := make([]LumpEntry, len(names))
		for i, n := range names {
			k := copy(le[i].Name[:], n)
			if k < 7 && i%3 == 0 {
				le[i].Name[7] = 'q'
			}
			le[i].FilePos = uint32(1000 + i)
			le[i].Size = uint32(26 * (i % 7))
		}
		in := append([]LumpEntry{}, le...)
		rs := map[int]uint32{}
		d := LoadWadDirectory(true, le, rs, CreateTroll(), config.Eject, nil)
		if d.scheduleRoot == nil {
			return "no schedule"
		}
		root := d.scheduleRoot
		out := UpdateDirectoryAndSchedule(le, &root, d.validities)
		if len(out) != len(want) {
			return fmt.Sprintf("%d entries instead of %d", len(out), len(want))
		}
		for i, w := range want {
			if w.Idx >= 0 {
				if out[i] != in[w.Idx] {
					return fmt.Sprintf("entry %d is %v, not the input's entry %d (%s)", i, out[i], w.Idx, w.Name)
				}
			} else if nm := string(bytes.TrimRight(out[i].Name[:], "\x00")); nm != w.Name || out[i].Size != 0 {
				return fmt.Sprintf("entry %d is %q, not a new %s", i, nm, w.Name)
			}
		}
		// the schedule visits every entry once, in order
		pos, lv := 0, 0
		for a := root; a != nil; a = a.Next {
			if a.Drop {
				continue
			}
			if a.DirIndex != pos {
				return fmt.Sprintf("the schedule comes to entry %d, not %d", a.DirIndex, pos)
			}
			if (a.Level != nil && len(a.Level) > 0) != want[pos].marker {
				return fmt.Sprintf("entry %d: level %v, expected %v", pos, a.Level != nil, want[pos].marker)
			}
			pos++
			if len(a.Level) > 0 {
				if (a.LevelFormat == FORMAT_HEXEN) != hexen[lv] {
					return fmt.Sprintf("entry %d: format %d", pos-1, a.LevelFormat)
				}
				var idx []int
				for _, s := range a.Level {
					idx = append(idx, s.DirIndex)
				}
				sort.Ints(idx)
				for _, k := range idx {
					if k != pos || want[pos].level != lv {
						return fmt.Sprintf("level %d has entries %v", lv, idx)
					}
					pos++
				}
				lv++
			}
			if pos > len(want) {
				return "the schedule goes past the directory"
			}
		}
		if pos != len(want) || lv != len(hexen) {
			return fmt.Sprintf("the schedule ends at entry %d of %d", pos, len(want))
		}
		return ""
	})
}

func (h *vfH) fileCase() {
	names := vfNames(h.rng, true)
	lumps := vfFill(h.rng, names)
	magic := []string{"PWAD", "PWAD", "IWAD"}[h.n(3)]
	var args []string
	eject := h.n(6) == 0
	if eject {
		args = append(args, "--eject")
	}
	nodes := h.n(5) > 0
	if !nodes {
		args = append(args, "-n-")
	}
	blk := h.n(5) > 0
	if !blk {
		args = append(args, "-b-")
	}
	rej := h.n(4) // 0 rebuilt, 1 rebuilt, 2 not touched, 3 zeros
	if rej == 2 {
		args = append(args, "-r-")
	} else if rej == 3 {
		args = append(args, "-rz")
	}
	if h.n(3) == 0 {
		args = append(args, "-d")
	}
	filter := map[string]bool{}
	prohibit := false
	if h.n(4) == 0 {
		var f []string
		for _, n := range names {
			if vfIsMap(n) && h.n(2) == 0 && !filter[n] {
				filter[n] = true
				f = append(f, strings.ToLower(n))
			}
		}
		if len(f) > 0 {
			prohibit = h.n(2) == 0
			a := "-m:"
			if prohibit {
				a = "-!m:"
			}
			args = append(args, a+strings.Join(f, "+"))
		}
	}
	reb := func(n string) bool { return len(filter) == 0 || filter[n] != prohibit }
	want, hexen := vfExpect(names, reb, eject, true)
	own := h.n(3) == 0 && !eject // written over the input
	desc := fmt.Sprintf("file %s options %v over itself %v (%s)", strings.Join(names, " "), args, own, magic)
	in, out := h.path("in.wad"), h.path("out.wad")
	if err := vfLayWad(h.rng, in, magic, lumps); err != nil {
		return
	}
	os.Remove(out)
	h.check("file", desc, len(hexen) > 0, nil, func() string {
		a := append(args, in)
		if own {
			out = in
		} else {
			a = append(a, "-o", out)
		}
		before, _ := os.ReadFile(in)
		code, log := h.tool(a...)
		if len(hexen) == 0 {
			after, _ := os.ReadFile(in)
			if code == 0 || !bytes.Equal(before, after) {
				return fmt.Sprintf("no level can be rebuilt, but exit code %d", code)
			}
			return ""
		}
		if code != 0 {
			return fmt.Sprintf("exit code %d: %s", code, vfTrunc(log, 1500))
		}
		if !own {
			after, _ := os.ReadFile(in)
			if !bytes.Equal(before, after) {
				return "the input file changed"
			}
		}
		b, _ := os.ReadFile(out)
		if len(b) < 12 || string(b[:4]) != magic {
			return "the output does not start with the input's kind of header"
		}
		copy(b, "PWAD")
		os.WriteFile(h.path("chk.wad"), b, 0644)
		w, e := vfReadWad(h.path("chk.wad"))
		if e != "" {
			return e
		}
		if len(w.Lumps) != len(want) {
			return fmt.Sprintf("%d lumps instead of %d", len(w.Lumps), len(want))
		}
		type span struct {
			a, b uint32
			i    int
		}
		sp := []span{{0, 12, -1}, {w.DirStart, w.DirStart + 16*uint32(len(want)), -2}}
		for i, l := range w.Lumps {
			x := want[i]
			if l.Name != x.Name && strings.TrimRight(strings.SplitN(l.Name, "\x00", 2)[0], "\x00") != x.Name {
				return fmt.Sprintf("lump %d is %q, not %q", i, l.Name, x.Name)
			}
			zero := rej == 3 && x.level >= 0 && x.Name == "REJECT"
			if len(l.Data) > 0 && !zero {
				sp = append(sp, span{l.Pos, l.Pos + uint32(len(l.Data)), i})
			}
			keep := x.level < 0 || x.marker
			switch x.Name {
			case "THINGS", "SIDEDEFS", "SECTORS", "BEHAVIOR", "SCRIPTS":
				keep = true
			case "LINEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES":
				keep = keep || !nodes
			case "REJECT":
				keep = keep || rej == 2
			case "BLOCKMAP":
				keep = keep || !blk
			}
			if keep && x.Idx >= 0 && !bytes.Equal(l.Data, lumps[x.Idx].Data) {
				return fmt.Sprintf("lump %d (%s) of %d bytes differs from the input's %d bytes", i, x.Name, len(l.Data), len(lumps[x.Idx].Data))
			}
			if keep && x.Idx < 0 && len(l.Data) > 0 {
				return fmt.Sprintf("lump %d (%s) was not to be built", i, x.Name)
			}
			if !keep && x.Name == "VERTEXES" && !bytes.HasPrefix(l.Data, lumps[x.Idx].Data) {
				return fmt.Sprintf("lump %d: vertices of the map were moved", i)
			}
			if !keep && x.Name == "LINEDEFS" && !bytes.Equal(l.Data, lumps[x.Idx].Data) {
				return fmt.Sprintf("lump %d: lines of the map changed", i)
			}
			if !keep && len(l.Data) == 0 {
				return fmt.Sprintf("lump %d (%s) is empty", i, x.Name)
			}
			if !keep && x.Name == "REJECT" {
				n := 0
				for j := i; !want[j].marker; j-- {
					if want[j].Name == "SECTORS" {
						n = len(lumps[want[j].Idx].Data) / 26
					}
				}
				if len(l.Data) != (n*n+7)/8 {
					return fmt.Sprintf("lump %d: reject of %d bytes for %d sectors", i, len(l.Data), n)
				}
			}
			if !keep && x.Name == "BLOCKMAP" && len(l.Data) > 8 {
				if n := int(binary.LittleEndian.Uint16(l.Data[4:])) * int(binary.LittleEndian.Uint16(l.Data[6:])); len(l.Data) < 8+2*n {
					return fmt.Sprintf("lump %d: blockmap of %d bytes for %d blocks", i, len(l.Data), n)
				}
			}
		}
		sort.Slice(sp, func(i, j int) bool { return sp[i].a < sp[j].a })
		for i := 1; i < len(sp); i++ {
			if sp[i].a < sp[i-1].b {
				return fmt.Sprintf("lumps %d and %d overlap (%v, %v)", sp[i-1].i, sp[i].i, sp[i-1], sp[i])
			}
		}
		return ""
	})
}
