package main

//use: common_wad_test.go
//use: common_geo_test.go
//use: common_nodes_test.go
//use: common_nodecase_test.go

import "os"

var vfNull, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)

func vfRun(h *vfH) {
	h.rule = "whole runs over random maps (jittered lattices with solid cells, diagonals, self-referencing lines, lines and sides that are not to be rendered) under random node options; non-trivial when the tree has 4 or more subsectors"
	syslog.SetOutput(vfNull)
	for !h.over() {
		h.nodesCase()
	}
}
