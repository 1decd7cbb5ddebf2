package main

//use: common_wad_test.go

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
)

// A series of lumps of every kind goes through the write bus into a real
// file; the directory entries must then lead back to each lump's bytes.
func vfRun(h *vfH) {
	h.rule = "a random series of lump requests of the three kinds over a random directory; non-trivial when at least two lumps are not empty"
	for h.frac(1) {
		n := 1 + h.n(8)
		le := make([]LumpEntry, n)
		for i := range le {
			copy(le[i].Name[:], fmt.Sprintf("LUMP%d", i))
			le[i].FilePos, le[i].Size = uint32(h.n(5000)), uint32(h.n(3))
		}
		orig := append([]LumpEntry{}, le...)
		want := make([][]byte, n)
		pre := make([]byte, h.n(100))
		h.rng.Read(pre)
		f, err := os.Create(h.path("w02.bin"))
		if err != nil {
			panic(err)
		}
		f.Write(pre)
		perm := h.rng.Perm(n)[:1+h.n(n)]
		kinds, order := "", []int{}
		full := 0
		h.check("bus", fmt.Sprintf("%d entries, file starts with %d bytes, case %d", n, len(pre), h.cases), true, nil, func() string {
			c := StartWriteBus(f, le, uint32(len(pre)))
			for _, i := range perm {
				sz := int(h.hint(0, 40))
				if h.n(15) == 0 {
					sz = h.n(20000)
				}
				k := h.n(5)
				kinds += fmt.Sprint(k)
				order = append(order, i)
				switch k {
				case 0:
					b := make([]byte, sz)
					h.rng.Read(b)
					if sz == 0 && h.n(2) == 0 {
						b = nil
					}
					c.SendRawLump(b, i, []string{"", "NAME"}[h.n(2)], "")
					want[i] = append([]byte{}, b...)
				case 1:
					v := make([]Vertex, sz)
					for j := range v {
						v[j] = Vertex{XPos: int16(h.n(65536) - 32768), YPos: int16(h.n(65536) - 32768)}
					}
					c.SendGenericLump(v, i, "VERTEXES", "")
					want[i] = vfBin(v)
				case 2:
					v := make([]uint16, sz)
					for j := range v {
						v[j] = uint16(h.n(65536))
					}
					c.SendGenericLump(v, i, "BLOCKMAP", " (x)")
					want[i] = vfBin(v)
				case 3:
					v := make([]DeepNode, sz)
					for j := range v {
						v[j].X, v[j].LChild, v[j].RChild = int16(h.n(65536)-32768), int32(h.rng.Uint32()), int32(h.rng.Uint32())
					}
					c.SendDeepNodesLump(v, i, "NODES", "")
					want[i] = append([]byte{0x78, 0x4E, 0x64, 0x34, 0, 0, 0, 0}, vfBin(v)...)
				case 4:
					v := make([]Seg, sz)
					for j := range v {
						v[j] = Seg{StartVertex: uint16(h.n(65536)), EndVertex: uint16(h.n(65536)), Linedef: uint16(j), Offset: uint16(h.n(65536))}
					}
					c.SendGenericLump(v, i, "SEGS", "")
					want[i] = vfBin(v)
				}
				if len(want[i]) > 0 {
					full++
				}
				if h.n(3) == 0 {
					c.Sync()
				}
			}
			c.Shutdown()
			f.Close()
			b, err := os.ReadFile(h.path("w02.bin"))
			if err != nil {
				return err.Error()
			}
			tag := fmt.Sprintf(" (kinds %s, order %v)", kinds, order)
			if !bytes.Equal(b[:len(pre)], pre) {
				return "bytes written before the lumps were changed" + tag
			}
			type iv struct{ a, z uint64 }
			var ivs []iv
			tot := len(pre)
			for i := range le {
				if le[i].Name != orig[i].Name {
					return fmt.Sprintf("entry %d changed its name", i) + tag
				}
				sent := false
				for _, o := range order {
					sent = sent || o == i
				}
				if !sent {
					if le[i] != orig[i] {
						return fmt.Sprintf("entry %d was not sent but changed", i) + tag
					}
					continue
				}
				p, s := uint64(le[i].FilePos), uint64(le[i].Size)
				if p+s > uint64(len(b)) {
					return fmt.Sprintf("entry %d at %d, %d bytes, lies outside the file of %d", i, p, s, len(b)) + tag
				}
				if !bytes.Equal(b[p:p+s], want[i]) {
					return fmt.Sprintf("entry %d leads to %d bytes that are not the lump's %d bytes", i, s, len(want[i])) + tag
				}
				for _, q := range ivs {
					if p < q.z && q.a < p+s {
						return fmt.Sprintf("entry %d overlaps another lump", i) + tag
					}
				}
				ivs = append(ivs, iv{p, p + s})
				tot += int(s)
			}
			if tot != len(b) {
				return fmt.Sprintf("file has %d bytes, lumps make up %d", len(b), tot) + tag
			}
			return ""
		})
		f.Close()
		if full > 1 {
			h.note(fmt.Sprint(kinds, order))
		}
	}
	_ = binary.LittleEndian
}
