package main

//use: common_bmap_test.go

func vfRun(h *vfH) {
	h.rule = "random line sets (level, upright, 45 degrees, at block edges, repeated, left out, near the coordinate limits) with random origin shift, encoding and reused buffers; non-trivial when some block has a list"
	syslog.SetOutput(vfNull)
	old := *config
	for !h.over() {
		*config = old
		h.lumpCase(h.bmap())
	}
	*config = old
}
