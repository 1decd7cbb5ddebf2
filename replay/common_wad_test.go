package main

// WAD files and small maps for the harnesses that run the whole program.

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

func init() {
	if os.Getenv("VF_MAIN") != "" {
		os.Args = append([]string{"vigilantbsp"}, os.Args[1:]...)
		main()
		os.Exit(0)
	}
}

// tool runs the program itself in a process of its own.
func (h *vfH) tool(args ...string) (code int, out string) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, os.Args[0], args...)
	c.Env = append(os.Environ(), "VF_MAIN=1", "GOMEMLIMIT=3GiB")
	c.Dir = h.scratch
	var b bytes.Buffer
	c.Stdout = &b
	c.Stderr = &b
	err := c.Run()
	if ctx.Err() != nil {
		return -1, "did not end in 60 s\n" + b.String()
	}
	if err != nil {
		if x, ok := err.(*exec.ExitError); ok {
			return x.ExitCode(), b.String()
		}
		return -2, err.Error()
	}
	return 0, b.String()
}

type vfLump struct {
	Name string
	Data []byte
	Pos  uint32
}

func vfWriteWad(path string, lumps []vfLump) error {
	var data, dir bytes.Buffer
	for _, l := range lumps {
		var n [8]byte
		copy(n[:], l.Name)
		binary.Write(&dir, binary.LittleEndian, uint32(12+data.Len()))
		binary.Write(&dir, binary.LittleEndian, uint32(len(l.Data)))
		dir.Write(n[:])
		data.Write(l.Data)
	}
	var all bytes.Buffer
	all.WriteString("PWAD")
	binary.Write(&all, binary.LittleEndian, uint32(len(lumps)))
	binary.Write(&all, binary.LittleEndian, uint32(12+data.Len()))
	all.Write(data.Bytes())
	all.Write(dir.Bytes())
	return os.WriteFile(path, all.Bytes(), 0644)
}

type vfWad struct {
	Raw      []byte
	DirStart uint32
	Lumps    []vfLump
}

func vfReadWad(path string) (*vfWad, string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err.Error()
	}
	if len(b) < 12 || string(b[:4]) != "PWAD" {
		return nil, "the output does not start with a WAD header"
	}
	n := binary.LittleEndian.Uint32(b[4:])
	d := binary.LittleEndian.Uint32(b[8:])
	w := &vfWad{Raw: b, DirStart: d}
	if uint64(d)+16*uint64(n) > uint64(len(b)) || n > 100000 {
		return nil, fmt.Sprintf("the directory (%d entries at %d) does not fit the file of %d bytes", n, d, len(b))
	}
	for i := uint32(0); i < n; i++ {
		e := b[d+16*i:]
		p, s := binary.LittleEndian.Uint32(e), binary.LittleEndian.Uint32(e[4:])
		name := string(bytes.TrimRight(e[8:16], "\x00"))
		if s == 0 { // its place means nothing
			w.Lumps = append(w.Lumps, vfLump{name, nil, p})
			continue
		}
		if uint64(p)+uint64(s) > uint64(len(b)) {
			return nil, fmt.Sprintf("lump %d (%s) at %d, %d bytes, lies outside the file of %d bytes", i, name, p, s, len(b))
		}
		w.Lumps = append(w.Lumps, vfLump{name, b[p : p+s], p})
	}
	return w, ""
}

type vfMap struct {
	Verts  []Vertex
	Lines  []Linedef
	Sides  []Sidedef
	Secs   []Sector
	Things []Thing
}

func vfBin(v interface{}) []byte {
	var b bytes.Buffer
	binary.Write(&b, binary.LittleEndian, v)
	return b.Bytes()
}

// line adds a linedef; back < 0 makes it one-sided.
func (m *vfMap) line(a, b int, front, back int) {
	tex := [8]byte{'S', 'T', 'A', 'R', 'T', 'A', 'N', '3'}
	no := [8]byte{'-'}
	l := Linedef{StartVertex: uint16(a), EndVertex: uint16(b), Flags: 1, FrontSdef: uint16(len(m.Sides)), BackSdef: 0xFFFF}
	s := Sidedef{UpName: no, LoName: no, MidName: tex, Sector: uint16(front)}
	if back >= 0 {
		s.MidName = no
		l.Flags = 4
	}
	m.Sides = append(m.Sides, s)
	if back >= 0 {
		l.BackSdef = uint16(len(m.Sides))
		s.Sector = uint16(back)
		m.Sides = append(m.Sides, s)
	}
	m.Lines = append(m.Lines, l)
}

// vfRooms makes a w by h grid of square rooms, one sector each, with open
// passages or walls between them.
func vfRooms(r *rand.Rand, w, h, size int, walls float64) *vfMap {
	m := &vfMap{}
	x0, y0 := r.Intn(2000)-1000, r.Intn(2000)-1000
	for y := 0; y <= h; y++ {
		for x := 0; x <= w; x++ {
			m.Verts = append(m.Verts, Vertex{XPos: int16(x0 + x*size), YPos: int16(y0 + y*size)})
		}
	}
	at := func(x, y int) int { return y*(w+1) + x }
	sec := func(x, y int) int { return y*w + x }
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			m.Secs = append(m.Secs, Sector{FloorHeight: 0, CeilHeight: 128, FloorName: [8]byte{'F'}, CeilName: [8]byte{'C'}, LightLevel: 160})
			m.Things = append(m.Things, Thing{XPos: int16(x0 + x*size + size/2), YPos: int16(y0 + y*size + size/2), Type: 1, Flags: 7})
			s := sec(x, y)
			// right sides face the room: clockwise
			if x == 0 {
				m.line(at(x, y), at(x, y+1), s, -1)
			}
			if y == 0 {
				m.line(at(x+1, y), at(x, y), s, -1)
			}
			right, up := x+1 < w, y+1 < h
			if right && r.Float64() >= walls {
				m.line(at(x+1, y+1), at(x+1, y), s, sec(x+1, y))
			} else {
				m.line(at(x+1, y+1), at(x+1, y), s, -1)
				if right {
					m.line(at(x+1, y), at(x+1, y+1), sec(x+1, y), -1)
				}
			}
			if up && r.Float64() >= walls {
				m.line(at(x, y+1), at(x+1, y+1), s, sec(x, y+1))
			} else {
				m.line(at(x, y+1), at(x+1, y+1), s, -1)
				if up {
					m.line(at(x+1, y+1), at(x, y+1), sec(x, y+1), -1)
				}
			}
		}
	}
	return m
}

// lumps gives the map's lumps, marker first; built adds empty built lumps.
func (m *vfMap) lumps(name string, built bool) []vfLump {
	l := []vfLump{{Name: name}, {Name: "THINGS", Data: vfBin(m.Things)}, {Name: "LINEDEFS", Data: vfBin(m.Lines)},
		{Name: "SIDEDEFS", Data: vfBin(m.Sides)}, {Name: "VERTEXES", Data: vfBin(m.Verts)}}
	if built {
		l = append(l, vfLump{Name: "SEGS"}, vfLump{Name: "SSECTORS"}, vfLump{Name: "NODES"})
	}
	l = append(l, vfLump{Name: "SECTORS", Data: vfBin(m.Secs)})
	if built {
		l = append(l, vfLump{Name: "REJECT"}, vfLump{Name: "BLOCKMAP"})
	}
	return l
}

func (h *vfH) path(name string) string { return filepath.Join(h.scratch, name) }

func vfTail(s string) string {
	if i := strings.Index(s, "panic:"); i >= 0 {
		return vfTrunc(s[i:], 1500)
	}
	if len(s) > 1500 {
		return s[len(s)-1500:]
	}
	return s
}
