NOTES = "Every check loads /repo's current source, generates the obligations of the functions listed for the property in contracts/*.spec and sends them to z3 and cvc5. A replay harness runs the real code when an obligation fails."
COMMON = " Trusted: the generator gover, the solvers, callers outside the listed functions keeping the stated preconditions; 64-bit arithmetic is mathematical."
PROPS = [
 dict(id="R01", title="The reject lump says hidden for exactly the pairs not known visible",
  statement="For every number of sectors and every state of the visibility table, the reject lump has exactly ceil(n*n/8) bytes, and bit i*n+j (least significant bit first) is clear exactly when sector i can see sector j. This holds alike for the full, the fast and the symmetric (triangular) table layouts, and a newly made table has every pair undecided.",
  over=["inputs"], forall="all sector counts 1..65536, all contents of the visibility table, all three table layouts",
  tests="No test builds a reject lump; the triangular indexing and the 8-at-a-time walk over row ends only fail for particular n.",
  files=["reject.go", "rejectFAST.go", "rejectSYMM.go", "rejectSymmDefs.go"],
  state=[("rejectTable", "one byte per sector pair: undecided, visible or hidden", "reject.go")],
  mechanism=[("getResult", "reject.go, rejectFAST.go, rejectSYMM.go"), ("prepareReject", "reject.go, rejectFAST.go, rejectSYMM.go"), ("rejectTableIJ / symmMoveIJ", "rejectSYMM.go, rejectSymmDefs.go")],
  observe=["the bytes of the REJECT lump", "the visibility table after it is made"],
  note="Proved for all inputs." + COMMON),
 dict(id="R02", title="Visibility decisions are never overturned and touch only the meant pairs",
  statement="Recording that two sectors see or do not see each other changes only undecided pairs, in both directions, for exactly the named sectors (or, when sectors are grouped for shared visibility, for exactly the pairs between the two groups). Hidden verdicts set aside for groups reach the table later and only where it is still undecided. An option that forces visibility writes exactly the named pairs or group pairs.",
  over=["inputs", "histories"], forall="all table contents, sector numbers, groupings and orders of writes, in all three table layouts",
  tests="No test exercises visibility marking; a wrong transposed cell or an overwritten verdict depends on the order of earlier writes.",
  files=["reject.go", "rejectDFS.go", "rejectdefs.go", "rejectFAST.go", "rejectSYMM.go", "rejectSymmDefs.go"],
  state=[("rejectTable", "one byte per sector pair", "reject.go"), ("extra.mixer", "hidden verdicts held back for groups", "reject.go")],
  mechanism=[("markVisibility, markVisibilityGroup, markPairVisible", "reject.go and generated copies"), ("setupMixer, mergeAndDestroyMixer", "rejectDFS.go"), ("forceVisibility", "reject.go and generated copies")],
  observe=["the visibility table after each write"],
  note="Proved for all inputs." + COMMON),
 dict(id="W01", title="Output keeps every lump and gives rebuilt levels the right lumps in order",
  statement="For every input directory the output has the lumps that are not part of a rebuilt level unchanged and in order (or drops them with --eject), and each rebuilt level has its marker followed by its lumps in the standard order, each once, with missing buildable lumps added and duplicates dropped; a level without a mandatory lump, not selected by -m, or in UDMF form is copied as it is. Lumps that are not rebuilt keep their bytes, the input file is not changed unless it is also the output, and every directory entry lies inside the file and overlaps no other.",
  over=["inputs"], forall="all directories (names, order, repeats, foreign and empty lumps), file layouts and build options",
  tests="No test reads or writes a WAD; lost, repeated or foreign lumps and levels that cannot be rebuilt need particular directories.",
  files=["wad.go", "vigilantbsp.go", "level.go", "zdefs.go"],
  state=[("ScheduledLump", "what becomes of each input lump", "wad.go"), ("LevelValidity", "which lumps a level has", "wad.go")],
  mechanism=[("LoadWadDirectory, UpdateDirectoryAndSchedule", "wad.go"), ("main", "vigilantbsp.go"), ("DoLevel", "level.go")],
  observe=["names, order and bytes of the output's lumps", "the input file"],
  note="Name, filter and lump-count helpers are proved; the directory code and the whole program are bounded (see evidence)." + COMMON),
 dict(id="W03", title="Zero-filled rejects are all zero, long enough and start at different places",
  statement="With zero-filled rejects, the reject of each rebuilt level is a region of exactly ceil(n*n/8) zero bytes inside the output file for its n sectors, no two rejects start at the same offset, and sharing one pool of zeros with the header and the directory never damages the header, the directory or any other lump.",
  over=["inputs"], forall="all numbers of levels and sectors, first lumps and options",
  tests="No test writes zero-filled rejects; the pool's size and its overlap with header and directory depend on sector counts and the first lump.",
  files=["trollgen.go", "wad.go", "vigilantbsp.go"],
  state=[("Troll", "sizes registered and offsets handed out", "trollgen.go"), ("zerosToInsert, rejectStart, DirectoryStart", "place of the pool and of the directory", "vigilantbsp.go")],
  mechanism=[("Troll.AddSize, Compile, PopOffset", "trollgen.go"), ("RightTrailZeros", "wad.go"), ("main", "vigilantbsp.go")],
  observe=["offset, size and bytes of every REJECT entry", "all other lumps"],
  note="The pool's size and its hand-out are proved; the arithmetic in main is bounded (see evidence)." + COMMON),
 dict(id="W02", title="The output file holds every lump at the place its directory entry says",
  statement="Lumps are written one after another with no byte lost, repeated or reordered: each directory entry gets the offset where its bytes start and the length of its bytes, the running end of file advances by exactly that length, entries of other lumps keep their values, and a typed lump is laid out little-endian field by field. This holds for any order in which results arrive on the write bus.",
  over=["inputs", "histories"], forall="all sequences of write requests, lump contents and kinds of lumps",
  tests="No test writes an output file through the write bus; order of arrival and empty lumps vary between runs.",
  files=["writebus.go", "lumpwrite.go"],
  state=[("le", "directory entries of the output file", "writebus.go"), ("curPos", "the end of what is written so far", "writebus.go")],
  mechanism=[("WriteBusLoop", "writebus.go"), ("WriteSliceLump, ConvertAndWriteGenericLump, ConvertAndWriteDeepNodes", "lumpwrite.go")],
  observe=["the bytes of the output file", "the directory entries"],
  note="Proved for all inputs; os.File.Write and encoding/binary are assumed to write all they are given." + COMMON),
 dict(id="B01", title="A blockmap lists for each block exactly the lines that pass through it",
  statement="For every map and origin shift, a line that counts for collision is in the list of each 128-unit block it passes through and in none that it does not reach, each once and in ascending order. Decoding the written lump gives those lists for every block: sharing of equal lists, subset compression, the choice of first list entry and reuse of buffers from an earlier attempt change nothing but the size (aggressive subset elimination may only add lines), and a lump whose offsets do not fit is reported as such.",
  over=["inputs", "histories"], forall="all line sets and coordinates, origin shifts, encodings and contents of reused buffers",
  tests="No test builds a blockmap; block edges, list sharing and stale buffers need particular maps.",
  files=["bblocks.go", "blockmapgen.go", "fixedwriter.go"],
  state=[("Blockmap.blocklist", "the lines of each block", "bblocks.go"), ("BlockmapGCShield", "buffers reused between attempts", "bblocks.go")],
  mechanism=[("CreateBlockmap", "bblocks.go"), ("GetBytes, GetBytesArcane, CompressSubsets, EliminateSubsets", "bblocks.go"), ("FixedWriterWrapper", "fixedwriter.go")],
  observe=["the decoded lists of the BLOCKMAP lump", "its header"],
  note="Writer, list comparison, subset tests, limits, bounds and buffers are proved; the walk of a line and the encoders are bounded (see evidence)." + COMMON),
 dict(id="B02", title="Of all blockmap origins tried the best one is written",
  statement="When several origins are tried, the lump written is one that no tried origin beats: first by fitting the format's limits, then by size, then by an empty first list; with a search that stops early, one that meets the wanted limit. In deterministic mode the result does not depend on the number of goroutines or their timing. Buffers passed between attempts never hold the lump that is to be kept, and are large enough for every origin of any map.",
  over=["inputs", "schedules", "histories"], forall="all line sets, options, numbers of goroutines and orders in which they finish",
  tests="No test builds a blockmap; which attempt finishes first differs from run to run.",
  files=["blockmapgen.go", "bblocks.go"],
  state=[("lumpPool.slots", "which of three buffers holds the new, the kept or no lump", "bblocks.go"), ("OffsetSieve", "origins already tried", "blockmapgen.go")],
  mechanism=[("IsBlockmapBetter, OffsetPreceedes", "blockmapgen.go"), ("GetLumpFromPool, RotateLumpPool", "bblocks.go"), ("OffsetSieve.Mark, CountHoles", "blockmapgen.go")],
  observe=["the BLOCKMAP lump", "its origin"],
  note="The comparison, the sieve and the buffer pool are proved; the goroutines that use them are bounded (see evidence)." + COMMON),
 dict(id="R03", title="A reject sourced with NOPROCESS is the source's reject with the options on top",
  statement="When the options of a map (or of all maps) ask for NOPROCESS and nothing overrides it, the written reject is bit for bit the reject of the named map in the named file (or of the map itself), with only the options that NOPROCESS permits applied on top: INCLUDE and EXCLUDE, BLIND and SAFE of 0 or 1, GROUP. Without any of these the lump is copied unchanged. A source that is missing or of another size, or fails one ASSERT, is declined and the reject is built normally; an ASSERT holds exactly if every pair it names has the stated value.",
  over=["inputs"], forall="all source rejects, sector numbers, option frames and positions of the source lump",
  tests="No test sources a reject; map names, duplicate lumps and assertions combine in ways that need particular options and files.",
  files=["level.go", "rejectRMB.go", "reject.go", "wad.go", "filecontrol.go"],
  state=[("RejectNagger", "where the source is and whether it was accepted", "level.go"), ("RMBFrame.Commands", "options of one map and of all maps", "rmbunit.go"), ("cloneSchedule", "the input directory as it was before changes", "wad.go")],
  mechanism=[("IsNOPROCESSInEffect, ThereIsONLY_NOPROCESS, SetNaggerFromActiveNOPROCESS, CheckASSERTions", "rejectRMB.go"), ("handleRejectNagging", "level.go"), ("setRejectTableFromSource", "reject.go")],
  observe=["the bytes of the REJECT lump", "the bytes of the source's REJECT lump"],
  note="The decisions on options, the assertions and the loader of the table are proved; finding and reading the source is bounded (see evidence)." + COMMON),
 dict(id="N01", title="The BSP tree covers every rendered side once and leads points to their sector",
  statement="For every map and node option each side of a linedef that is to be rendered is covered exactly once, end to end and in direction, by segs, sides meant to be left out (by tag, action or BSPNOSEG) get none, and lines left out on request (-ni) are only such that show nothing and bound no sector. Segs of a subsector are convex and of one sector, each node's segs lie on the proper side of its partition and within its box, and walking down from a point inside a sector ends in a subsector of that sector (within the rounding of the node format). Vertices, lines and things keep their place and meaning.",
  over=["inputs"], forall="all maps in Doom and Hexen format with at least two rendered sides, partition selection methods, tree modes and node formats",
  tests="No test builds a tree of a map; splits, nearly collinear lines and repeated vertices depend on the map's geometry.",
  files=["nodegen.go", "znodegen.go", "picknode.go", "zenscore.go", "zensideness.go", "multitree_plain.go", "diffgeometry.go", "convexity.go", "node_vmap.go", "node_intro.go", "selfref.go"],
  state=[("NodeSeg", "segs as linked lists during the build", "nodegen.go"), ("NodeInProcess", "the tree", "nodegen.go")],
  mechanism=[("CreateNode, DivideSegs, CategoriseAndMaybeDivideSeg", "nodegen.go"), ("isItConvex", "nodegen.go, znodegen.go"), ("doLinesIntersect*", "nodegen.go")],
  observe=["NODES, SSECTORS, SEGS and VERTEXES of the output, in every format"],
  note="Side tests, convexity test and bounds are proved; the splitting and the recursion are bounded (see evidence)." + COMMON),
 dict(id="N02", title="Node lumps of every format describe the tree that was built",
  statement="Vanilla, deep, extended and compressed node lumps describe the tree that was built: each node keeps its partition and boxes, its children are referred to by the place they are written at (with the mark of a subsector), subsectors list their own segs, one after another without gaps, and each seg keeps its line, side, angle, offset and vertices also when tree, segs and vertices are laid out anew. When the tree does not fit the vanilla format it is turned into a deep one without loss where that is allowed; otherwise it is fitted or reported.",
  over=["inputs"], forall="all trees and seg lists, node formats, orders of output and sizes near and beyond the formats' limits",
  tests="No test writes node lumps; limits of 15, 16 and 32 bits and the two output orders only matter for trees no test builds.",
  files=["nodegen.go", "znodegen.go", "node_rearrange.go", "node_outro.go", "stknode.go"],
  state=[("NodesWork.nodes, segs, subsectors", "records to be written", "nodegen.go"), ("RearrangeTracker", "records laid out anew", "node_rearrange.go")],
  mechanism=[("reverseNodes, convertNodesStraight, reverseDeepNodes, convertDeepNodesStraight", "nodegen.go"), ("CreateSSector, upgradeToDeep, fitSegsToTarget", "nodegen.go"), ("putSegs, reallyRearrangeExtendedVertices", "node_rearrange.go")],
  observe=["NODES, SSECTORS, SEGS and VERTEXES of the output, decoded"],
  note="Encoding functions are proved for all trees and lists; recursion over the tree and compressed output are bounded (see evidence)." + COMMON),
 dict(id="V01", title="REJECT never hides a clear line of sight",
  statement="Without RMB options the REJECT a run writes is symmetric and lets every sector see itself, the sectors it shares a two-sided line with and, unless turned off, lets sectors with a line both of whose sides they own be seen by all. Whenever some straight segment between points of two sectors touches no one-sided line, the pair is visible, in every mode of the builder. With graphs on (the default), sectors with no chain of two-sided lines between them are hidden from each other; and a map without two-sided lines between sectors gets an all-zero table. How tightly remaining pairs are hidden is not promised.",
  over=["inputs"], forall="all maps, builder variants and options of -r (graphs, symmetry, perfection of self-referencing sectors)",
  tests="The tests of the repository build no REJECT. Whether a pair is visible depends on the whole map: on the turn of two lines, on which lines lie between and on decisions made for other pairs.",
  files=["reject.go", "rejectLOS.go", "rejectDFS.go", "rejectFAST.go", "rejectSYMM.go"],
  state=[("RejectWork.rejectTable", "visibility of sector pairs while it is worked out", "reject.go"), ("RejectWork.lineVisDone", "one bit per pair of lines already tested", "reject.go")],
  mechanism=[("eliminateTrivialCases, HideComponents, HideSectorFromComponents", "reject.go, rejectDFS.go"), ("testLinePair, adjustLinePair, divideRegion, ShouldTest", "reject.go, rejectDFS.go"), ("checkLOS, TrimLines, FindPolyLines, FindObstacles", "rejectLOS.go")],
  observe=["bits of the REJECT lump of the output"],
  note="Decisions made before and around the test of two lines are proved for the three builders; the test itself (float64 polylines) is bounded (see evidence)." + COMMON),
 dict(id="R07", title="RMB options do on top of lines of sight what the manual says",
  statement="BLIND, SAFE, their INVERT and BAND forms, INCLUDE, EXCLUDE, GROUP, LENGTH, DISTANCE, LINE, LEFT with RIGHT, VORTEX and REPORT change the REJECT exactly as the RMB manual says: a band hides distances from its start up to its end and its inversion all others, distances are counted in sectors along two-sided lines with a group counting as one, an effect on a group is an effect on every member, forced visibility overrides all but EXCLUDE, the last LENGTH or DISTANCE of a map wins over that of all maps. An option that names a sector or line the map lacks is reported and otherwise has no effect.",
  over=["inputs"], forall="all options files (order, combinations, scopes, numbers), maps, groupings and the builders without and with self-referencing effects",
  tests="No test applies an option; what combined options do depends on their order, on groups and on distances between all sectors of a map.",
  files=["rejectRMB.go", "reject.go", "rejectFAST.go", "rejectSYMM.go", "rmbparse.go", "rmbunit.go"],
  state=[("SectorRMB", "what the options ask of one sector", "rejectRMB.go"), ("distanceTable", "distances between sectors", "rejectRMB.go"), ("groups", "which sectors share visibility", "rejectRMB.go")],
  mechanism=[("prepareBlind, applyBlind, prepareSafe, applySafe", "rejectRMB.go, rejectFAST.go"), ("CreateDistanceTable, ApplyDistanceLimits, linesTooFarApart", "rejectRMB.go"), ("processINCLUDEs, processEXCLUDEs, processVORTEXes", "rejectRMB.go"), ("LoadGroups, loadLineEffectsForFrame", "rejectRMB.go")],
  observe=["bits of the REJECT lump of the output", "lines of the report"],
  note="The effect of each option on the table is proved for all inputs; distances, parsing and their order are bounded (see evidence)." + COMMON),
]
