package main

// Random WAD directories and an independent account of what becomes of them.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"strings"
)

type vfEnt struct {
	Name string
	Idx  int // entry of the input it comes from, -1 when it is new
}

type vfOutLump struct {
	vfEnt
	level  int // number of the level it belongs to when that level is rebuilt, else -1
	marker bool
}

func vfIsMap(n string) bool {
	d := func(c byte) bool { return c >= '0' && c <= '9' }
	if len(n) == 5 && n[:3] == "MAP" && d(n[3]) && d(n[4]) {
		return true
	}
	if (len(n) == 4 || len(n) == 5) && n[0] == 'E' && n[2] == 'M' && d(n[1]) && n[1] != '0' && d(n[3]) {
		return len(n) == 4 || d(n[4])
	}
	return false
}

var vfOrder = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "SECTORS", "REJECT", "BLOCKMAP", "BEHAVIOR", "SCRIPTS"}

func vfOwn(n string) bool {
	for _, o := range vfOrder {
		if o == n {
			return true
		}
	}
	return false
}

// vfExpect says which lumps the output must have, in order.
func vfExpect(names []string, rebuild func(string) bool, eject, noUdmf bool) (out []vfOutLump, hexen []bool) {
	n := len(names)
	text := func(i int) bool { return !noUdmf && i+1 < n && names[i+1] == "TEXTMAP" }
	mark := func(i int) bool { return vfIsMap(names[i]) || text(i) }
	level := 0
	for i := 0; i < n; {
		if !mark(i) {
			if !eject {
				out = append(out, vfOutLump{vfEnt{names[i], i}, -1, false})
			}
			i++
			continue
		}
		j := i + 1
		if text(i) {
			for j < n && names[j] != "ENDMAP" {
				j++
			}
			if j < n {
				j++
				// such lumps are kept by --eject too
				for rebuild(names[i]) && j < n && !mark(j) && vfOwn(names[j]) {
					j++
				}
			}
		} else {
			for j < n && !mark(j) && vfOwn(names[j]) {
				j++
			}
		}
		if !rebuild(names[i]) || text(i) {
			if rebuild(names[i]) || !eject {
				for k := i; k < j; k++ {
					out = append(out, vfOutLump{vfEnt{names[k], k}, -1, false})
				}
			}
			i = j
			continue
		}
		last := map[string]int{}
		for k := i + 1; k < j; k++ {
			last[names[k]] = k
		}
		ok := true
		for _, w := range []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SECTORS"} {
			if _, has := last[w]; !has {
				ok = false
			}
		}
		if !ok {
			for k := i; k < j; k++ {
				out = append(out, vfOutLump{vfEnt{names[k], k}, -1, false})
			}
			i = j
			continue
		}
		out = append(out, vfOutLump{vfEnt{names[i], i}, level, true})
		for _, o := range vfOrder {
			if k, has := last[o]; has {
				out = append(out, vfOutLump{vfEnt{o, k}, level, false})
			} else if o != "BEHAVIOR" && o != "SCRIPTS" {
				out = append(out, vfOutLump{vfEnt{o, -1}, level, false})
			}
		}
		_, hx := last["BEHAVIOR"]
		hexen = append(hexen, hx)
		level++
		i = j
	}
	return
}

// vfNames makes a random directory; maps are named MAPxx or ExMx.
func vfNames(r *rand.Rand, whole bool) []string {
	var d []string
	k := r.Intn(7)
	if whole {
		k = 1 + r.Intn(3)
	}
	junk := []string{"PLAYPAL", "THINGS", "S_START", "S_END", "REJECT", "TEXTMAP2", "ENDMAP", "SCRIPTS", "BEHAVIOR", "MAP1", "E0M1", "MAP123", "DEMO1", "SECTORS", "GL_MAP01"}
	for i := 0; i < k; i++ {
		for r.Intn(3) == 0 {
			d = append(d, junk[r.Intn(len(junk))])
		}
		name := fmt.Sprintf("MAP%02d", 1+r.Intn(12))
		if r.Intn(4) == 0 {
			name = fmt.Sprintf("E%dM%d", 1+r.Intn(3), 1+r.Intn(12))
		}
		switch {
		case !whole && r.Intn(5) == 0 || whole && i > 0 && r.Intn(6) == 0: // UDMF
			if r.Intn(3) == 0 {
				name = "TITLEMAP"
			}
			d = append(d, name, "TEXTMAP")
			for r.Intn(2) == 0 {
				d = append(d, []string{"ZNODES", "BEHAVIOR", "SCRIPTS", "DIALOGUE", "REJECT", "MAP02", "THINGS"}[r.Intn(7)])
			}
			if r.Intn(6) > 0 {
				d = append(d, "ENDMAP", "AFTER") // what counts as part of a UDMF level ends here
			}
		default:
			d = append(d, name)
			own := []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES"}
			built := r.Intn(3) > 0
			if built {
				own = append(own, "SEGS", "SSECTORS", "NODES")
			}
			own = append(own, "SECTORS")
			if built {
				own = append(own, "REJECT", "BLOCKMAP")
			}
			if r.Intn(4) == 0 {
				own = append(own, "BEHAVIOR")
				if r.Intn(2) == 0 {
					own = append(own, "SCRIPTS")
				}
			} else if r.Intn(8) == 0 {
				own = append(own, "SCRIPTS")
			}
			if r.Intn(3) == 0 { // out of order
				r.Shuffle(len(own), func(a, b int) { own[a], own[b] = own[b], own[a] })
			}
			for q := r.Intn(4) - 1; q > 0; q-- { // one lump twice
				p := r.Intn(len(own) + 1)
				own = append(own[:p], append([]string{vfOrder[r.Intn(10)]}, own[p:]...)...)
			}
			for q := r.Intn(4) - 1; q > 0; q-- { // one lump missing
				if p := r.Intn(len(own)); !whole || !strings.Contains("THINGS LINEDEFS SIDEDEFS VERTEXES SECTORS", own[p]) {
					own = append(own[:p], own[p+1:]...)
				}
			}
			if r.Intn(8) == 0 { // a foreign lump in between
				p := r.Intn(len(own) + 1)
				own = append(own[:p], append([]string{"JUNK"}, own[p:]...)...)
			}
			d = append(d, own...)
		}
	}
	for r.Intn(3) == 0 {
		d = append(d, junk[r.Intn(len(junk))])
	}
	return d
}

// vfLayWad writes lumps with the given layout: directory first or last, lump
// data in any order, gaps, equal data stored once.
func vfLayWad(r *rand.Rand, path, magic string, lumps []vfLump) error {
	n := len(lumps)
	order := r.Perm(n)
	if r.Intn(2) == 0 {
		for i := range order {
			order[i] = i
		}
	}
	first := r.Intn(3) == 0
	share := r.Intn(3) == 0
	pos := 12
	if first {
		pos += 16 * n
	}
	var data bytes.Buffer
	at := make([]int, n)
	seen := map[string]int{}
	for _, i := range order {
		if p, ok := seen[string(lumps[i].Data)]; share && ok && len(lumps[i].Data) > 0 {
			at[i] = p
			continue
		}
		for r.Intn(6) == 0 {
			data.WriteByte(0xEE)
		}
		at[i] = pos + data.Len()
		seen[string(lumps[i].Data)] = at[i]
		data.Write(lumps[i].Data)
		if len(lumps[i].Data) == 0 && r.Intn(2) == 0 {
			at[i] = []int{0, 12}[r.Intn(2)]
		}
	}
	var dir bytes.Buffer
	for i, l := range lumps {
		var nm [8]byte
		k := copy(nm[:], l.Name)
		if k < 7 && r.Intn(8) == 0 {
			nm[7] = 'x' // after the terminator
		}
		binary.Write(&dir, binary.LittleEndian, uint32(at[i]))
		binary.Write(&dir, binary.LittleEndian, uint32(len(l.Data)))
		dir.Write(nm[:])
	}
	var all bytes.Buffer
	all.WriteString(magic)
	binary.Write(&all, binary.LittleEndian, uint32(n))
	if first {
		binary.Write(&all, binary.LittleEndian, uint32(12))
		all.Write(dir.Bytes())
		all.Write(data.Bytes())
	} else {
		binary.Write(&all, binary.LittleEndian, uint32(pos+data.Len()))
		all.Write(data.Bytes())
		all.Write(dir.Bytes())
	}
	return os.WriteFile(path, all.Bytes(), 0644)
}

// vfFill gives every lump of a directory contents: maps for the levels, and
// random bytes for the rest.
func vfFill(r *rand.Rand, names []string) (lumps []vfLump) {
	m := vfRooms(r, 1+r.Intn(4), 1+r.Intn(3), 128, 0.3)
	mark := ""
	hexen := false
	for i, n := range names {
		if vfIsMap(n) {
			m = vfRooms(r, 1+r.Intn(4), 1+r.Intn(3), 128, 0.3)
			mark = n
			hexen = false
			for j := i + 1; j < len(names) && vfOwn(names[j]); j++ {
				hexen = hexen || names[j] == "BEHAVIOR"
			}
		}
		var d []byte
		switch {
		case mark == "" || !vfOwn(n) || n == "BEHAVIOR" || n == "SCRIPTS":
			if !vfIsMap(n) && r.Intn(4) > 0 {
				d = make([]byte, 1+r.Intn(40))
				r.Read(d)
			}
			if !vfOwn(n) && !vfIsMap(n) {
				mark = ""
			}
		default:
			for _, l := range m.lumps("x", true) {
				if l.Name == n {
					d = l.Data
				}
			}
			if hexen && n == "LINEDEFS" {
				d = nil
				for _, l := range m.Lines {
					d = append(d, vfBin(HexenLinedef{StartVertex: l.StartVertex, EndVertex: l.EndVertex, Flags: l.Flags, FrontSdef: l.FrontSdef, BackSdef: l.BackSdef})...)
				}
			} else if hexen && n == "THINGS" {
				d = nil
				for _, t := range m.Things {
					d = append(d, vfBin(HexenThing{XPos: t.XPos, YPos: t.YPos, Type: t.Type})...)
				}
			}
		}
		lumps = append(lumps, vfLump{Name: n, Data: d})
	}
	return
}
