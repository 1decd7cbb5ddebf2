# per property: what is proved, what is bounded, why it reaches further than tests
D = {
"R01": """Proved for every sector count up to 65536 and every table: `getResult` and `prepareReject` of the three table
layouts, the cell arithmetic of the full and the triangular table (`rejectTableIJ`, `symmMoveIJ`, `symmDiag`), with the inverse
of the triangular numbering as a lemma. The packed bytes are specified bit by bit. Nothing bounded;
the harness only looks for a failing input after an obligation has failed. The tests build no reject.""",
"R02": """Proved for every table, grouping and pair: `markVisibility`, `markPairVisible`, `markVisibilitySector/Group`, `forceVisibility`,
the mixer of set-aside verdicts and its merge, in the three layouts. Specified as: undecided cells of exactly the named pairs, both directions,
and the frame (all other cells unchanged); monotonicity over any history follows because each single write has it.""",
"R03": """Proved: which NOPROCESS is in effect and where it points, the ASSERT checks on a loaded table, decoding of a lump
into the table and its reset. Bounded: nagging, the search for the source lump and RejectWork.main, with random WADs and
options files through the whole program (a few hundred runs a minute).""",
"B01": """Proved: the positioned writer, list comparison and hash groups, subset tests, block bounds, limits, buffers handed from one
attempt to the next. Bounded: the walk of lines over blocks and the encoders: random maps, every block of
the decoded lump compared with exact integer geometry.""",
"B02": """Proved: the order of blockmaps (total, by fit, size, empty first list), cut-off, buffer pool discipline (a kept lump's buffer is not
handed out), buffer sizes for every origin. Bounded: the goroutines, compared with a sequential search over all origins.""",
"W01": """Proved: name comparison, record of a level's lumps, the -m/eject filter. Bounded: directory loading, schedule and the whole program on random small
WADs, against an independent description of the expected directory.""",
"W02": """Proved, with a ghost file: every kind of lump writing adds exactly its bytes at the end and records offset and length; the bus
loop does so for any sequence of requests, in any order of arrival.""",
"W03": """Proved: pool of zeros, its size (at least ceil(n*n/8) beyond every start handed out, no start twice) and trailing zeros of a lump.
Bounded: the arithmetic in main, through whole runs.""",
"N01": """Proved: convexity test of segs in both number types (against an abstract side test), the raising of side bits by both
side tests, bounds, the pruning of vertices (every line keeps its place and its other fields; both formats), what a line asks for (horizon,
no rendering, angle effects, precious), its ends and sides, which lines may be left out as invisible, that exactly the sides to be drawn become
segs (with ends, direction, sector and angle), and what a seg is after a split (position, angle). Bounded: partition choice, splitting and recursion: random maps through the whole program with random node
options, in Doom and Hexen format, with sectors that only refer to themselves, lines culled on request, horizon and angle effects; each
output is judged by decoding it: every rendered side is walked end to end, every
subsector is tested for convexity, every seg against every partition above it, every box, and random
points of known sectors are looked up. Exact to 1/50 unit in formats with fractions, within the rounding of whole vertices otherwise.""",
"N02": """Proved for all trees and lists: writing of nodes in both orders and widths (children by position, leaf marks, coordinates, boxes),
subsectors and their segs in all formats, conversion of a vanilla tree into a deep one, fitting of segs to 15 and 16 bits (each
subsector keeps its own segs), vertex numbers, and the laying out anew of `--stknode=1` per subsector. Bounded: format choice, compressed
output, recursion of the new layout.""",
"V01": """Proved for all tables, sector lists and lines, for the three builders: what the trivial cases decide (a sector sees itself and its
neighbours; sectors with a self-referencing line are seen by all; only pairs with an exitless sector are hidden, never one of those), the
graph cuts hide exactly the pairs across the cut and only undecided ones, one bit per pair of lines (numbering of pairs is one-to-one, lemma
pairInj; marking touches that bit alone), when a pair needs no test, which pairs can be ruled out by sides alone, and how a pair is turned
(target left of source, opposite ways; a bisecting target points away; both lines stay the lines they were, by path enumeration over signed
areas). Bounded: the line-of-sight test (float64 polylines), order of pairs, line setup, sectors referring to themselves in the three modes
that look for them. Not claimed: how tightly pairs are hidden.
Genuine defects repaired: d73ae88 (every bit set where zeros were announced), edf29e4 and f8580e1 (visible pairs hidden), b57db81 (a sector
visible to all hidden from exitless sectors), 37edc70 (the sector around a self-referencing one in pedantic mode).""",
"R07": """Proved for all tables, frames, sector numbers, groupings and distances, in the full and the fast builder: which cells a blind or safe
sector's record hides (`applyBlind`, `applySafe` and the simple forms, with lemma simpleIsBand tying the two), how options combine
into the record (`prepareBlind`, `prepareSafe`, with groups), what INCLUDE and EXCLUDE write, VORTEX (nothing but visible is
written; its lists see each other; whatever saw a sector of one list sees what a sector of the other saw), limits by LENGTH and DISTANCE (128-bit product: exact), precedence of frames, when distances are needed, when a
symmetric table may be used, and which lines are solid. Bounded: parsing, the partition of sectors into groups, order of the steps,
reports: random maps and options files through the whole program; each bit of REJECT is compared with an independent evaluation of
the manual on top of the same run without options, malformed lines must be refused. Ten genuine defects repaired (see below).""",
}
CAUGHT = {
"R07-leader": "harness", "R07-solid": "proof and harness", "R07-fastband": "proof and harness", "R07-vortexback": "proof", "R07-length": "proof and harness",
"B01-reorder": "proof and harness", "B01-stale": "proof and harness", "B02-hive": "harness", "B02-rotate": "proof",
"R01-lastbyte": "proof and harness", "R02-groupmember": "proof and harness", "R02-mixer": "proof and harness",
"R03-first": "proof and harness", "R03-reset": "proof and harness", "R03-transposed": "proof and harness",
"W01-eject": "harness", "W01-invalid": "harness", "W02-empty": "proof and harness", "W02-sig": "proof and harness", "W03-tiny": "harness",
"V01-trim": "harness", "V01-bother": "proof and harness", "V01-cut": "proof and harness",
"N01-midback": "proof and harness", "N01-pruned": "proof and harness", "W03-room": "proof and harness", "N01-bam": "proof and harness", "N01-box": "harness", "N02-deepen": "proof and harness", "N02-zreuse": "harness",
}
