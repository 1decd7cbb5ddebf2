From 541cf78a536098a6a2987f1d2bdec784a14fd8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:25 +0000
Subject: [PATCH 01/31] fix: creating a missing level lump panicked on names
 shorter than 8 characters

The conversion of a string to a byte slice does not have spare capacity to
reslice to 8 bytes.
---
 wad.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wad.go b/wad.go
index 4b59b29..f94d0d0 100644
--- a/wad.go
+++ b/wad.go
@@ -254,7 +254,7 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 							FilePos: 0,
 							Size:    0,
 						}
-						copy(leOut[curOut].Name[:], []byte(LUMP_SORT_ORDER[key])[:8])
+						copy(leOut[curOut].Name[:], LUMP_SORT_ORDER[key])
 						oldIdxsToNew[-1*inss] = curOut
 						curOut++
 						inss++
-- 
2.43.0


From 6a7bf5a1d89c076756289c9ab7eecf5f948dc7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:25 +0000
Subject: [PATCH 02/31] fix: directory was misplaced when a zero-length first
 lump covers the zero pool

With 1, 2, or 5 to 8 zero bytes left to insert, the directory was put over the
header or over the first lump. It has to move back by exactly the number of
zero bytes that are no longer inserted.
---
 vigilantbsp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vigilantbsp.go b/vigilantbsp.go
index ef5d7b8..e78fec4 100755
--- a/vigilantbsp.go
+++ b/vigilantbsp.go
@@ -213,7 +213,7 @@ func main() {
 		if zerosToInsert > 8 {
 			zerosToInsert = uint32(zerosToInsert - 8)
 		} else {
-			decr = 8 - zerosToInsert // how much to move directory back
+			decr = zerosToInsert // how much to move directory back
 			zerosToInsert = 0
 		}
 		wh.DirectoryStart = wh.DirectoryStart - decr
-- 
2.43.0


From b68e55ce947450e9ad0b712f1c6309d76c6c547e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:15 +0000
Subject: [PATCH 03/31] fix: SCRIPTS lump of a level was dropped and the lumps
 after it misplaced

The lump belongs to the level but had no place in the output order, so the
new directory came out one entry short of its computed size and every later
lump was copied under the wrong entry.
---
 wad.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wad.go b/wad.go
index f94d0d0..5284d3a 100644
--- a/wad.go
+++ b/wad.go
@@ -26,7 +26,7 @@ import (
 	"os"
 )
 
-var LUMP_SORT_ORDER = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "SECTORS", "REJECT", "BLOCKMAP", "BEHAVIOR"}
+var LUMP_SORT_ORDER = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "SECTORS", "REJECT", "BLOCKMAP", "BEHAVIOR", "SCRIPTS"}
 var LUMP_MUSTEXIST = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SECTORS"}
 var LUMP_CREATE = []string{"SEGS", "SSECTORS", "NODES", "REJECT", "BLOCKMAP"}
 
-- 
2.43.0


From 1b8cd98da268e11373ad3af4b07b89a2aa081703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:15 +0000
Subject: [PATCH 04/31] fix: zero-filled reject panicked when an earlier level
 changed its lump count

The size was stored under the marker's index in the input directory but looked
up under its index in the output directory.
---
 level.go | 4 ++--
 wad.go   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/level.go b/level.go
index 5870a50..9445ef7 100755
--- a/level.go
+++ b/level.go
@@ -112,9 +112,9 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 		if bytes.Equal(bname, []byte("REJECT")) && config.Reject != REJECT_DONTTOUCH {
 			l.RejectLumpIdx = idx
 			if config.Reject == REJECT_ZEROFILLED {
-				calcrejectsize, leidx_ok := rejectsize[action.DirIndex]
+				calcrejectsize, leidx_ok := rejectsize[action.id]
 				if !leidx_ok {
-					panic("Rejectsize was not stored for key = <level marker lump DirIndex>")
+					panic("Rejectsize was not stored for key = <level marker lump schedule id>")
 				}
 				le[idx].Size = calcrejectsize
 				private_offset := troll.PopOffset(calcrejectsize)
diff --git a/wad.go b/wad.go
index 5284d3a..c35b0dd 100644
--- a/wad.go
+++ b/wad.go
@@ -442,7 +442,7 @@ func LoadWadDirectory(isInputWad bool, le []LumpEntry, rejectsize map[int]uint32
 			fracBytes := float64(numSectors) * float64(numSectors) / 8.0
 			numRejectSize := uint32(math.Ceil(fracBytes))
 			troll.AddSize(numRejectSize)
-			rejectsize[action.DirIndex] = numRejectSize
+			rejectsize[action.id] = numRejectSize
 		}
 	}
 
-- 
2.43.0


From 433d2b1b2e25584cd17e50381dcc5badd62cd504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:15 +0000
Subject: [PATCH 05/31] fix: duplicate level lumps were processed as if they
 were directory entry 0

Also makes room accounting right for duplicates of lumps that are neither
mandatory nor creatable (BEHAVIOR).
---
 wad.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/wad.go b/wad.go
index c35b0dd..8087d86 100644
--- a/wad.go
+++ b/wad.go
@@ -201,7 +201,6 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 			// Now let's conform lump order and existence to the specification
 			valid := true
 			lvlName := string(ByteSliceBeforeTerm(le[oldMainEntryIdx].Name[:]))
-			pendingDel := 0
 			for key, value := range validities[curLevel].requisites {
 				if value == 0 {
 					Log.Error("Level %s is not valid: missing lump %s\n", lvlName,
@@ -210,14 +209,10 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 				} else if value > 1 {
 					Log.Error("Level %s has one or more duplicate of lump %s - only one instance of this lump will remain\n",
 						lvlName, LUMP_MUSTEXIST[key])
-					// Some entries are not copied (ignored) to the output
-					pendingDel += value - 1
 				}
 			}
 			oldLevelLen := len(scheduleEntry.Level)
 			if valid {
-				nSize -= pendingDel
-				deltaCur -= pendingDel
 				// Level is valid. Create missing creatable lump entries,
 				// but delete duplicates
 				for key, value := range validities[curLevel].creatable {
@@ -237,10 +232,6 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 								DirIndex: (-1) * (len(scheduleEntry.Level) - oldLevelLen + 1),
 								Level:    nil,
 							})
-					} else if value > 1 {
-						// Some entries are not copied (ignored) to the output
-						nSize -= value - 1
-						deltaCur -= value - 1
 					}
 				}
 
@@ -264,9 +255,19 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 						curOut++
 					} // else can happen - BEHAVIOR is HEXEN-specific, not needs to be present otherwise
 				}
+				kept := make([]*ScheduledLump, 0, len(scheduleEntry.Level))
 				for _, subEntry := range scheduleEntry.Level {
-					subEntry.DirIndex = oldIdxsToNew[subEntry.DirIndex]
+					newIdx, ok := oldIdxsToNew[subEntry.DirIndex]
+					if !ok {
+						// Duplicate, is not copied (ignored) to the output
+						nSize--
+						deltaCur--
+						continue
+					}
+					subEntry.DirIndex = newIdx
+					kept = append(kept, subEntry)
 				}
+				scheduleEntry.Level = kept
 			} else {
 				// Level is not valid, cannot be processed, will copy verbatim.
 				// To do this, a level record in schedule needs to be converted
-- 
2.43.0


From 43c2d32b7535d9ce936997f1ca9196741515d97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:25 +0000
Subject: [PATCH 06/31] fix: unterminated UDMF level left out by -m took away
 another level's record

---
 wad.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wad.go b/wad.go
index 8087d86..e9c1564 100644
--- a/wad.go
+++ b/wad.go
@@ -458,8 +458,10 @@ func LoadWadDirectory(isInputWad bool, le []LumpEntry, rejectsize map[int]uint32
 			prev.Next = subaction
 			prev = subaction
 		}
+		if action.Level != nil { // else the level was not selected for rebuild
+			validities = validities[:len(validities)-1]
+		}
 		action.Level = nil
-		validities = validities[:len(validities)-1]
 	}
 
 	// first meaningful lump
-- 
2.43.0


From d54b95682834b1f51fa802774884728de4861286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:59 +0000
Subject: [PATCH 07/31] fix: blockmap left offsets unset when only the last
 block's list is written first

---
 bblocks.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bblocks.go b/bblocks.go
index 8a9fdf0..4e2b92d 100755
--- a/bblocks.go
+++ b/bblocks.go
@@ -770,10 +770,9 @@ func (bm *Blockmap) GetBytesArcane(subsetMode int) []byte {
 	}
 
 	if bm.stealOneWord {
+		// part 0 still has to follow even if this writes everything there is
+		// to write, for it sets the offsets of all the other blocks
 		part_min = -1
-		if part_max == 0 { // we have a single unique identity of zero size
-			part_max = -1
-		}
 	}
 
 	// 4. Write out
-- 
2.43.0


From 3621901f71fe9d2a434dc54742db48be3882c7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:01 +0000
Subject: [PATCH 08/31] fix: blockmap of maps over 32640 units both ways
 crashed when trying several origins

---
 bblocks.go     | 3 ++-
 blockmapgen.go | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/bblocks.go b/bblocks.go
index 4e2b92d..39e6e2e 100755
--- a/bblocks.go
+++ b/bblocks.go
@@ -1368,7 +1368,8 @@ func (gcs *BlockmapGCShield) RotateLumpPool() {
 }
 
 func (gcs *BlockmapGCShield) GetLumpFromPool(expectedSize, expectedCapacity int) []byte {
-	if gcs == nil {
+	if gcs == nil || expectedSize > MAX_ADDRESSABLE_BLOCKMAP_SIZE {
+		// Nothing that exceeds a slot could be a blockmap that works
 		return make([]byte, expectedSize, expectedCapacity)
 	}
 	if expectedCapacity > MAX_ADDRESSABLE_BLOCKMAP_SIZE {
diff --git a/blockmapgen.go b/blockmapgen.go
index 6f65a5b..272f386 100755
--- a/blockmapgen.go
+++ b/blockmapgen.go
@@ -589,7 +589,7 @@ func BMBeeMaxSize(b LevelBounds) int {
 	ymax := int(b.Ymax)
 	xblocks := uint16(xmax-xmin)>>BLOCK_BITS + 1
 	yblocks := uint16(ymax-ymin)>>BLOCK_BITS + 1
-	return int((xblocks + 1) * (yblocks + 1))
+	return int(xblocks+1) * int(yblocks+1) // can be well over 65536
 }
 
 func StatBlockmap(bm *Blockmap) {
-- 
2.43.0


From 930dcd25bf91dc9e891d5d88ba0f410ac9136f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 09/31] fix: NOPROCESS took rejects from wrong lumps of the
 input file

The schedule kept for other maps of the input file shared its level lumps
with the one that is renumbered for the output.
---
 wad.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wad.go b/wad.go
index e9c1564..52c0573 100644
--- a/wad.go
+++ b/wad.go
@@ -516,6 +516,14 @@ func cloneSchedule(scheduleRoot *ScheduledLump) *ScheduledLump {
 	rootSch := newSch
 	for sch != nil {
 		*newSch = *sch
+		if sch.Level != nil {
+			// lumps of a level get renumbered, too, and the original must not
+			newSch.Level = make([]*ScheduledLump, len(sch.Level))
+			for i, sub := range sch.Level {
+				subCopy := *sub
+				newSch.Level[i] = &subCopy
+			}
+		}
 		if sch.Next != nil {
 			newSch.Next = &ScheduledLump{}
 			newSch = newSch.Next
-- 
2.43.0


From cddc4e7b0bf91d19c9514bf550f70aed282ea518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:29 +0000
Subject: [PATCH 10/31] fix: multi-tree falls back to every linedef when none
 of requested kind exists

---
 multitree_plain.go | 6 ++++++
 znodegen.go        | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/multitree_plain.go b/multitree_plain.go
index ce1bc53..b6f7c08 100755
--- a/multitree_plain.go
+++ b/multitree_plain.go
@@ -526,6 +526,12 @@ func MTPSentinel_GetRootSegCandidates(allSegs []*NodeSeg, rootChoiceMethod int)
 		res = append(res, i)
 	}
 
+	if len(res) == 0 && rootChoiceMethod != MROOT_EVERY {
+		// Map has no linedefs of the requested kind, yet the tree needs a root
+		Log.Printf("Multi-tree: there are no linedefs of the requested kind, will try every linedef for root.\n")
+		return MTPSentinel_GetRootSegCandidates(allSegs, MROOT_EVERY)
+	}
+
 	// Segs that would produce same partition line as other segs need to
 	// be eliminated so that only one of such seg group (alias) is retained
 	alias := make([]bool, len(res))
diff --git a/znodegen.go b/znodegen.go
index 40f11f7..ed469cb 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -4583,6 +4583,12 @@ func ZExt_MTPSentinel_GetRootSegCandidates(allSegs []*ZExt_NodeSeg, rootChoiceMe
 		res = append(res, i)
 	}
 
+	if len(res) == 0 && rootChoiceMethod != MROOT_EVERY {
+
+		Log.Printf("Multi-tree: there are no linedefs of the requested kind, will try every linedef for root.\n")
+		return ZExt_MTPSentinel_GetRootSegCandidates(allSegs, MROOT_EVERY)
+	}
+
 	alias := make([]bool, len(res))
 	for i := 0; i < len(res); i++ {
 		if alias[i] {
-- 
2.43.0


From 688f6c0fb772ad67ad8bdd22591c13706400d687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:51 +0000
Subject: [PATCH 11/31] fix: measure detail within bounds of all lines (those
 without segs lay outside)

---
 nodegen.go  | 6 ++++--
 znodegen.go | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/nodegen.go b/nodegen.go
index 263c074..02ce8c9 100755
--- a/nodegen.go
+++ b/nodegen.go
@@ -486,7 +486,9 @@ func NodesGenerator(input *NodesInput) {
 		if heur {
 			// use heuristic to see if level is detailed, if yes, use
 			// detail-friendly version (but that generates more segs and nodes)
-			detail := IsTooDetailed(input.lines, input.linesToIgnore, rootBox)
+			// Lines that produce no segs can lie outside of rootBox
+			detail := IsTooDetailed(input.lines, input.linesToIgnore,
+				GetLineBounds(input.lines))
 			if detail {
 				doLinesIntersect = doLinesIntersectDetail
 			}
@@ -1042,7 +1044,7 @@ func GetLineBounds(lines AbstractLines) *NodeBounds {
 	r.Ymin = 2147483647
 	l := lines.Len()
 	for i := uint16(0); i < l; i++ {
-		x1, x2, y1, y2 := lines.GetAllXY(i)
+		x1, y1, x2, y2 := lines.GetAllXY(i)
 
 		if x1 < r.Xmin {
 			r.Xmin = x1
diff --git a/znodegen.go b/znodegen.go
index ed469cb..e56a738 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -262,7 +262,9 @@ func ZExt_NodesGenerator(input *NodesInput) {
 		}
 		if heur {
 
-			detail := IsTooDetailed(input.lines, input.linesToIgnore, rootBox)
+
+			detail := IsTooDetailed(input.lines, input.linesToIgnore,
+				GetLineBounds(input.lines))
 			if detail {
 				doLinesIntersect = ZExt_doLinesIntersectDetail
 			}
-- 
2.43.0


From 893bffb8651695b9a52dc78c11e2510a0dadaf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:22 +0000
Subject: [PATCH 12/31] fix: BSPNOSEG of a linedef's back side is read from its
 back sidedef

---
 node_intro.go | 2 +-
 znodegen.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_intro.go b/node_intro.go
index 8b46ac3..5e4dced 100755
--- a/node_intro.go
+++ b/node_intro.go
@@ -346,7 +346,7 @@ func addSegsPerLine(myVertices []NodeVertex, i uint16, lines WriteableLines, vid
 		Log.Printf("Warning: linedef %d doesn't have front sidedef\n", i)
 	}
 	if secondSdef != SIDEDEF_NONE {
-		if !bytes.Equal(sidedefs[firstSdef].LoName[:], []byte("BSPNOSEG")) {
+		if !bytes.Equal(sidedefs[secondSdef].LoName[:], []byte("BSPNOSEG")) {
 			// Action = 1084 is do not render back side (zokumbsp)
 			if action == 1084 {
 				Log.Verbose(1, "Will not create seg for BACK sidedef of linedef %d - instructed so by action's numeric code set to 1084 on linedef.\n",
diff --git a/znodegen.go b/znodegen.go
index e56a738..87f3583 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -1489,7 +1489,7 @@ func ZExt_addSegsPerLine(myVertices []ZExt_NodeVertex, i uint16, lines Writeable
 		Log.Printf("Warning: linedef %d doesn't have front sidedef\n", i)
 	}
 	if secondSdef != SIDEDEF_NONE {
-		if !bytes.Equal(sidedefs[firstSdef].LoName[:], []byte("BSPNOSEG")) {
+		if !bytes.Equal(sidedefs[secondSdef].LoName[:], []byte("BSPNOSEG")) {
 
 			if action == 1084 {
 				Log.Verbose(1, "Will not create seg for BACK sidedef of linedef %d - instructed so by action's numeric code set to 1084 on linedef.\n",
-- 
2.43.0


From 7c78a00c453ba24216fda768d730e09321ba2b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:15 +0000
Subject: [PATCH 13/31] fix: --stknode rearrangement of extended nodes moved
 split vertices (index lacked offset)

---
 node_rearrange.go | 2 +-
 znodegen.go       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_rearrange.go b/node_rearrange.go
index baf6a85..1364ee0 100755
--- a/node_rearrange.go
+++ b/node_rearrange.go
@@ -485,7 +485,7 @@ func (w *NodesWork) reallyRearrangeExtendedVertices(translate []int,
 		newVertices[i] = w.vertices[i]
 	}
 	for i, _ := range w.vertices[reused:] {
-		newVertices[uint32(translate[i])] =
+		newVertices[uint32(translate[uint32(i)+reused])] =
 			w.vertices[uint32(i)+reused]
 	}
 	w.vertices = newVertices
diff --git a/znodegen.go b/znodegen.go
index 87f3583..7fa542f 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -7014,7 +7014,7 @@ func (w *ZExt_NodesWork) reallyRearrangeExtendedVertices(translate []int,
 		newVertices[i] = w.vertices[i]
 	}
 	for i, _ := range w.vertices[reused:] {
-		newVertices[uint32(translate[i])] =
+		newVertices[uint32(translate[uint32(i)+reused])] =
 			w.vertices[uint32(i)+reused]
 	}
 	w.vertices = newVertices
-- 
2.43.0


From f2c3ed870aee1e10737a971e28049c189cf5a9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:04 +0000
Subject: [PATCH 14/31] fix: fitSegsToTarget moves biggest subsector across
 index 65536 (uint16 wrapped, panic)

---
 node_outro.go | 4 ++--
 znodegen.go   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/node_outro.go b/node_outro.go
index 9cd7243..15240bd 100755
--- a/node_outro.go
+++ b/node_outro.go
@@ -145,8 +145,8 @@ func (w *NodesWork) fitSegsToTarget(maxSegIndex uint16, dryRun bool) (bool, int)
 			w.subsectors[biggestSubsector-1].SegCount
 	}
 
-	pivot := w.subsectors[biggestSubsector].FirstSeg
-	pivot2 := pivot + w.subsectors[biggestSubsector].SegCount
+	pivot := int(w.subsectors[biggestSubsector].FirstSeg)
+	pivot2 := pivot + int(w.subsectors[biggestSubsector].SegCount)
 	// Move pivot:pivot2 subslice to the end of w.segs slice
 	w.segs = append(w.segs[:pivot], append(w.segs[pivot2:], w.segs[pivot:pivot2]...)...)
 	for i := biggestSubsector + 1; i < len(w.subsectors); i++ {
diff --git a/znodegen.go b/znodegen.go
index 7fa542f..e46da69 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -1965,8 +1965,8 @@ func (w *ZExt_NodesWork) fitSegsToTarget(maxSegIndex uint16, dryRun bool) (bool,
 			w.subsectors[biggestSubsector-1].SegCount
 	}
 
-	pivot := w.subsectors[biggestSubsector].FirstSeg
-	pivot2 := pivot + w.subsectors[biggestSubsector].SegCount
+	pivot := int(w.subsectors[biggestSubsector].FirstSeg)
+	pivot2 := pivot + int(w.subsectors[biggestSubsector].SegCount)
 
 	w.segs = append(w.segs[:pivot], append(w.segs[pivot2:], w.segs[pivot:pivot2]...)...)
 	for i := biggestSubsector + 1; i < len(w.subsectors); i++ {
-- 
2.43.0


From d73ae88a8ea185940cf1e6ea22d0c8b970a65b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:49 +0000
Subject: [PATCH 15/31] fix: zero-filled REJECT for maps without lines to see
 through

A map in which no two-sided line joins two distinct sectors was announced to
get a zero-filled REJECT, and got one with every bit set, hiding each sector
from itself.
---
 reject.go     | 7 +++++++
 rejectFAST.go | 7 +++++++
 rejectSYMM.go | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/reject.go b/reject.go
index 745a7e4..f4e1192 100755
--- a/reject.go
+++ b/reject.go
@@ -840,6 +840,13 @@ func (r *RejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone bool,
 	r.solidLines = r.solidLines[:numSolidLines]
 	r.transLines = r.transLines[:numTransLines]
 	r.seenLines = make([]uint8, numSolidLines>>3+1)
+	if numTransLines == 0 {
+		// nothing will be computed, so keep the promise made by the message
+		// below rather than leave every cell undecided (that is, hidden)
+		for i := range r.rejectTable {
+			r.rejectTable[i] = VIS_VISIBLE
+		}
+	}
 	// the second return value (message) will be displayed if numTransLines == 0
 	return numTransLines > 0, "Reject builder: not a single two-sided linedef between two distinct sectors was found. You will have a zero-filled REJECT.\n"
 }
diff --git a/rejectFAST.go b/rejectFAST.go
index b6886c5..0d38aa5 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -483,6 +483,13 @@ func (r *FastRejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone bool
 	r.transLines = r.transLines[:numTransLines]
 	r.seenLines = make([]uint8, numSolidLines>>3+1)
 
+	if numTransLines == 0 {
+		// nothing will be computed, so keep the promise made by the message
+		// below rather than leave every cell undecided (that is, hidden)
+		for i := range r.rejectTable {
+			r.rejectTable[i] = VIS_VISIBLE
+		}
+	}
 	return numTransLines > 0, "Reject builder: not a single two-sided linedef between two distinct sectors was found. You will have a zero-filled REJECT.\n"
 }
 
diff --git a/rejectSYMM.go b/rejectSYMM.go
index b8cec01..7da8db7 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -431,6 +431,13 @@ func (r *SymmetricRejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone
 	r.transLines = r.transLines[:numTransLines]
 	r.seenLines = make([]uint8, numSolidLines>>3+1)
 
+	if numTransLines == 0 {
+		// nothing will be computed, so keep the promise made by the message
+		// below rather than leave every cell undecided (that is, hidden)
+		for i := range r.rejectTable {
+			r.rejectTable[i] = VIS_VISIBLE
+		}
+	}
 	return numTransLines > 0, "Reject builder: not a single two-sided linedef between two distinct sectors was found. You will have a zero-filled REJECT.\n"
 }
 
-- 
2.43.0


From edf29e43f4d39c36717616a6aca21ce5fe38aeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:49 +0000
Subject: [PATCH 16/31] fix: orient the target line when divideRegion runs into
 truncation

When the crossing point truncates to the start of the source line, what is
left to check is the second part, for which the target has to be reversed.
---
 reject.go     | 6 ++++++
 rejectFAST.go | 6 ++++++
 rejectSYMM.go | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/reject.go b/reject.go
index f4e1192..2c65942 100755
--- a/reject.go
+++ b/reject.go
@@ -1737,6 +1737,12 @@ func (r *RejectWork) divideRegion(src, tgt *TransLine) bool {
 	// See if we ran into an integer truncation problem (shortcut if we did)
 	if (crossPoint == *(src.start)) || (crossPoint == *(src.end)) {
 		Log.Verbose(3, "Reject: integer truncation detected in divideRegion for lines %d & %d\n", src.index, tgt.index)
+		if crossPoint == *(src.start) {
+			// what is left is the second part, see below
+			tgt.start, tgt.end = tgt.end, tgt.start
+			tgt.DX = -tgt.DX
+			tgt.DY = -tgt.DY
+		}
 		return r.checkLOS(src, tgt)
 	}
 
diff --git a/rejectFAST.go b/rejectFAST.go
index 0d38aa5..0a0be84 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -1036,6 +1036,12 @@ func (r *FastRejectWork) divideRegion(src, tgt *TransLine) bool {
 
 	if (crossPoint == *(src.start)) || (crossPoint == *(src.end)) {
 		Log.Verbose(3, "Reject: integer truncation detected in divideRegion for lines %d & %d\n", src.index, tgt.index)
+		if crossPoint == *(src.start) {
+
+			tgt.start, tgt.end = tgt.end, tgt.start
+			tgt.DX = -tgt.DX
+			tgt.DY = -tgt.DY
+		}
 		return r.checkLOS(src, tgt)
 	}
 
diff --git a/rejectSYMM.go b/rejectSYMM.go
index 7da8db7..3664627 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -968,6 +968,12 @@ func (r *SymmetricRejectWork) divideRegion(src, tgt *TransLine) bool {
 
 	if (crossPoint == *(src.start)) || (crossPoint == *(src.end)) {
 		Log.Verbose(3, "Reject: integer truncation detected in divideRegion for lines %d & %d\n", src.index, tgt.index)
+		if crossPoint == *(src.start) {
+
+			tgt.start, tgt.end = tgt.end, tgt.start
+			tgt.DX = -tgt.DX
+			tgt.DY = -tgt.DY
+		}
 		return r.checkLOS(src, tgt)
 	}
 
-- 
2.43.0


From f8580e1552030f5277f7ce750c0c218874d74ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:49 +0000
Subject: [PATCH 17/31] fix: adjustLinePair swaps the lines themselves

Swapping the local pointers left the caller with the bisecting line as source,
and divideRegion then prolonged it to a point outside of it.
---
 reject.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reject.go b/reject.go
index 2c65942..0a13725 100755
--- a/reject.go
+++ b/reject.go
@@ -1602,7 +1602,7 @@ func adjustLinePair(src, tgt *TransLine, bisects *bool) bool {
 	// Make sure that src doesn't bi-sect tgt
 	if ((y1 > 0) && (y2 < 0)) || ((y1 < 0) && (y2 > 0)) {
 		// Swap src & tgt then recalculate the endpoints
-		src, tgt = tgt, src
+		*src, *tgt = *tgt, *src
 
 		y1 = src.DX*(tgt.start.Y-src.start.Y) - src.DY*(tgt.start.X-src.start.X)
 		y2 = src.DX*(tgt.end.Y-src.start.Y) - src.DY*(tgt.end.X-src.start.X)
-- 
2.43.0


From b57db81f2f1367e3d5a9a47682251ad2f58f40d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 18/31] fix: sectors visible to all stay visible to sectors
 without exits

A sector with no lines to see through hid itself from the self-referencing
sectors that come after it, which were to be visible from every sector.
---
 reject.go     | 5 ++++-
 rejectFAST.go | 4 +++-
 rejectSYMM.go | 4 +++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/reject.go b/reject.go
index 0a13725..0968bef 100755
--- a/reject.go
+++ b/reject.go
@@ -1447,7 +1447,10 @@ func (r *RejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup) {
 			sly, _ := rsetup.slyLinesInSector[uint16(i)]
 			if !sly {
 				for j := 0; j < r.numSectors; j++ {
-					r.markVisibilitySector(i, j, VIS_HIDDEN)
+					// not from those that are going to be visible to all
+					if !rsetup.slyLinesInSector[uint16(j)] {
+						r.markVisibilitySector(i, j, VIS_HIDDEN)
+					}
 				}
 			} else {
 				// If any non-solid lines with both references set to same
diff --git a/rejectFAST.go b/rejectFAST.go
index 0a0be84..a4e890d 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -868,7 +868,9 @@ func (r *FastRejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup) {
 			sly, _ := rsetup.slyLinesInSector[uint16(i)]
 			if !sly {
 				for j := 0; j < r.numSectors; j++ {
-					r.markVisibilitySector(i, j, VIS_HIDDEN)
+					if !rsetup.slyLinesInSector[uint16(j)] {
+						r.markVisibilitySector(i, j, VIS_HIDDEN)
+					}
 				}
 			} else {
 
diff --git a/rejectSYMM.go b/rejectSYMM.go
index 3664627..22d0949 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -800,7 +800,9 @@ func (r *SymmetricRejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup)
 			sly, _ := rsetup.slyLinesInSector[uint16(i)]
 			if !sly {
 				for j := 0; j < r.numSectors; j++ {
-					r.markVisibilitySector(i, j, VIS_HIDDEN)
+					if !rsetup.slyLinesInSector[uint16(j)] {
+						r.markVisibilitySector(i, j, VIS_HIDDEN)
+					}
 				}
 			} else {
 
-- 
2.43.0


From 5d2b3a75e02a35ec87e270a620a45bf85f604fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:04 +0000
Subject: [PATCH 19/31] fix: BLIND or SAFE combined with its inversion hides
 what the manual says

---
 rejectFAST.go | 14 ++++++++++----
 rejectRMB.go  | 14 ++++++++++----
 rejectSYMM.go | 14 ++++++++++----
 3 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/rejectFAST.go b/rejectFAST.go
index a4e890d..8a80f47 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -1233,8 +1233,7 @@ func (r *FastRejectWork) rmbGetGroup(sectors []SectorRMB, num int, command RMBCo
 
 func (r *FastRejectWork) applyBlind(sector SectorRMB, i int) {
 	if sector.Blind == 3 {
-		if sector.BlindLo > sector.BlindHi {
-			sector.BlindLo, sector.BlindHi = sector.BlindHi, sector.BlindLo
+		if sector.BlindLo < sector.BlindHi {
 			sector.Blind = 4
 		}
 	}
@@ -1266,8 +1265,7 @@ func (r *FastRejectWork) applyBlind(sector SectorRMB, i int) {
 
 func (r *FastRejectWork) applySafe(sector SectorRMB, i int) {
 	if sector.Safe == 3 {
-		if sector.SafeLo > sector.SafeHi {
-			sector.SafeLo, sector.SafeHi = sector.SafeHi, sector.SafeLo
+		if sector.SafeLo < sector.SafeHi {
 			sector.Safe = 4
 		}
 	}
@@ -1613,6 +1611,10 @@ func (fr *RMBFrame) FastprocessSimpleBlindSafeOptions(r *FastRejectWork, sectors
 
 func (r *FastRejectWork) applySimpleBlind(sector SectorRMB, i int) {
 
+	if sector.Blind == 3 && sector.BlindLo < sector.BlindHi {
+		// INVERT 1 with 0: only sees everything but itself
+		sector.Blind = 2
+	}
 	grI := r.groups[i].parent
 	for j := 0; j < r.numSectors; j++ {
 		if !r.groups[j].legal {
@@ -1638,6 +1640,10 @@ func (r *FastRejectWork) applySimpleBlind(sector SectorRMB, i int) {
 
 func (r *FastRejectWork) applySimpleSafe(sector SectorRMB, i int) {
 
+	if sector.Safe == 3 && sector.SafeLo < sector.SafeHi {
+		// INVERT 1 with 0: only sees everything but itself
+		sector.Safe = 2
+	}
 	grI := r.groups[i].parent
 	for j := 0; j < r.numSectors; j++ {
 		if !r.groups[j].legal {
diff --git a/rejectRMB.go b/rejectRMB.go
index 1b65028..a2d01c7 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -427,8 +427,7 @@ func rmbCheckSectorInRange(numSectors, i int, command RMBCommand) bool {
 
 func (r *RejectWork) applyBlind(sector SectorRMB, i int) {
 	if sector.Blind == 3 {
-		if sector.BlindLo > sector.BlindHi {
-			sector.BlindLo, sector.BlindHi = sector.BlindHi, sector.BlindLo
+		if sector.BlindLo < sector.BlindHi {
 			sector.Blind = 4
 		}
 	}
@@ -467,8 +466,7 @@ func (r *RejectWork) applyBlind(sector SectorRMB, i int) {
 
 func (r *RejectWork) applySafe(sector SectorRMB, i int) {
 	if sector.Safe == 3 {
-		if sector.SafeLo > sector.SafeHi {
-			sector.SafeLo, sector.SafeHi = sector.SafeHi, sector.SafeLo
+		if sector.SafeLo < sector.SafeHi {
 			sector.Safe = 4
 		}
 	}
@@ -1178,6 +1176,10 @@ func (fr *RMBFrame) processSimpleBlindSafeOptions(r *RejectWork,
 
 func (r *RejectWork) applySimpleBlind(sector SectorRMB, i int) {
 	// Not relying on distanceTable means having to account for groups here
+	if sector.Blind == 3 && sector.BlindLo < sector.BlindHi {
+		// INVERT 1 with 0: only sees everything but itself
+		sector.Blind = 2
+	}
 	grI := r.groups[i].parent
 	for j := 0; j < r.numSectors; j++ {
 		if !r.groups[j].legal {
@@ -1204,6 +1206,10 @@ func (r *RejectWork) applySimpleBlind(sector SectorRMB, i int) {
 
 func (r *RejectWork) applySimpleSafe(sector SectorRMB, i int) {
 	// Not relying on distanceTable means having to account for groups here
+	if sector.Safe == 3 && sector.SafeLo < sector.SafeHi {
+		// INVERT 1 with 0: only sees everything but itself
+		sector.Safe = 2
+	}
 	grI := r.groups[i].parent
 	for j := 0; j < r.numSectors; j++ {
 		if !r.groups[j].legal {
diff --git a/rejectSYMM.go b/rejectSYMM.go
index 22d0949..2b12ce2 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -1165,8 +1165,7 @@ func (r *SymmetricRejectWork) rmbGetGroup(sectors []SectorRMB, num int, command
 
 func (r *SymmetricRejectWork) applyBlind(sector SectorRMB, i int) {
 	if sector.Blind == 3 {
-		if sector.BlindLo > sector.BlindHi {
-			sector.BlindLo, sector.BlindHi = sector.BlindHi, sector.BlindLo
+		if sector.BlindLo < sector.BlindHi {
 			sector.Blind = 4
 		}
 	}
@@ -1198,8 +1197,7 @@ func (r *SymmetricRejectWork) applyBlind(sector SectorRMB, i int) {
 
 func (r *SymmetricRejectWork) applySafe(sector SectorRMB, i int) {
 	if sector.Safe == 3 {
-		if sector.SafeLo > sector.SafeHi {
-			sector.SafeLo, sector.SafeHi = sector.SafeHi, sector.SafeLo
+		if sector.SafeLo < sector.SafeHi {
 			sector.Safe = 4
 		}
 	}
@@ -1530,6 +1528,10 @@ func (fr *RMBFrame) SymmetricprocessSimpleBlindSafeOptions(r *SymmetricRejectWor
 
 func (r *SymmetricRejectWork) applySimpleBlind(sector SectorRMB, i int) {
 
+	if sector.Blind == 3 && sector.BlindLo < sector.BlindHi {
+		// INVERT 1 with 0: only sees everything but itself
+		sector.Blind = 2
+	}
 	grI := r.groups[i].parent
 	for j := 0; j < r.numSectors; j++ {
 		if !r.groups[j].legal {
@@ -1555,6 +1557,10 @@ func (r *SymmetricRejectWork) applySimpleBlind(sector SectorRMB, i int) {
 
 func (r *SymmetricRejectWork) applySimpleSafe(sector SectorRMB, i int) {
 
+	if sector.Safe == 3 && sector.SafeLo < sector.SafeHi {
+		// INVERT 1 with 0: only sees everything but itself
+		sector.Safe = 2
+	}
 	grI := r.groups[i].parent
 	for j := 0; j < r.numSectors; j++ {
 		if !r.groups[j].legal {
-- 
2.43.0


From f0278e4f4bd89a77f5d731ca2b263e12589cf77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 20/31] fix: INVERT BAND hides what is outside the band, not
 everything

---
 rejectFAST.go | 12 ++++++++----
 rejectRMB.go  | 16 ++++++++++++----
 rejectSYMM.go | 12 ++++++++----
 3 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/rejectFAST.go b/rejectFAST.go
index 8a80f47..507d038 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -1149,11 +1149,13 @@ func (r *FastRejectWork) prepareBlind(command RMBCommand, sectors []SectorRMB) {
 				}
 				if command.Invert {
 					sector.Blind = 7
+					sector.BlindLo = command.Data[1]
+					sector.BlindHi = command.Data[0]
 				} else {
 					sector.Blind = 4
+					sector.BlindLo = command.Data[0]
+					sector.BlindHi = command.Data[1]
 				}
-				sector.BlindLo = command.Data[0]
-				sector.BlindHi = command.Data[1]
 			}
 		}
 	} else {
@@ -1189,11 +1191,13 @@ func (r *FastRejectWork) prepareSafe(command RMBCommand, sectors []SectorRMB) {
 				}
 				if command.Invert {
 					sector.Safe = 7
+					sector.SafeLo = command.Data[1]
+					sector.SafeHi = command.Data[0]
 				} else {
 					sector.Safe = 4
+					sector.SafeLo = command.Data[0]
+					sector.SafeHi = command.Data[1]
 				}
-				sector.SafeLo = command.Data[0]
-				sector.SafeHi = command.Data[1]
 			}
 		}
 	} else {
diff --git a/rejectRMB.go b/rejectRMB.go
index a2d01c7..c324d67 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -325,12 +325,16 @@ func (r *RejectWork) prepareBlind(command RMBCommand, sectors []SectorRMB) {
 					continue
 				}
 				if command.Invert {
+					// Two halves: BLIND from the end of band, INVERT BLIND up
+					// to the start of it
 					sector.Blind = 7
+					sector.BlindLo = command.Data[1]
+					sector.BlindHi = command.Data[0]
 				} else {
 					sector.Blind = 4
+					sector.BlindLo = command.Data[0]
+					sector.BlindHi = command.Data[1]
 				}
-				sector.BlindLo = command.Data[0]
-				sector.BlindHi = command.Data[1]
 			}
 		}
 	} else {
@@ -366,12 +370,16 @@ func (r *RejectWork) prepareSafe(command RMBCommand, sectors []SectorRMB) {
 					continue
 				}
 				if command.Invert {
+					// Two halves: SAFE from the end of band, INVERT SAFE up
+					// to the start of it
 					sector.Safe = 7
+					sector.SafeLo = command.Data[1]
+					sector.SafeHi = command.Data[0]
 				} else {
 					sector.Safe = 4
+					sector.SafeLo = command.Data[0]
+					sector.SafeHi = command.Data[1]
 				}
-				sector.SafeLo = command.Data[0]
-				sector.SafeHi = command.Data[1]
 			}
 		}
 	} else {
diff --git a/rejectSYMM.go b/rejectSYMM.go
index 2b12ce2..35a518b 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -1081,11 +1081,13 @@ func (r *SymmetricRejectWork) prepareBlind(command RMBCommand, sectors []SectorR
 				}
 				if command.Invert {
 					sector.Blind = 7
+					sector.BlindLo = command.Data[1]
+					sector.BlindHi = command.Data[0]
 				} else {
 					sector.Blind = 4
+					sector.BlindLo = command.Data[0]
+					sector.BlindHi = command.Data[1]
 				}
-				sector.BlindLo = command.Data[0]
-				sector.BlindHi = command.Data[1]
 			}
 		}
 	} else {
@@ -1121,11 +1123,13 @@ func (r *SymmetricRejectWork) prepareSafe(command RMBCommand, sectors []SectorRM
 				}
 				if command.Invert {
 					sector.Safe = 7
+					sector.SafeLo = command.Data[1]
+					sector.SafeHi = command.Data[0]
 				} else {
 					sector.Safe = 4
+					sector.SafeLo = command.Data[0]
+					sector.SafeHi = command.Data[1]
 				}
-				sector.SafeLo = command.Data[0]
-				sector.SafeHi = command.Data[1]
 			}
 		}
 	} else {
-- 
2.43.0


From 13bee428f62d302f650b76f82cbd5bf6a1f5ada4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:08 +0000
Subject: [PATCH 21/31] fix: GROUP with a negative number is reported instead
 of panicking

---
 rejectRMB.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rejectRMB.go b/rejectRMB.go
index c324d67..a963834 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -78,7 +78,7 @@ func (fr *RMBFrame) loadGroupsForFrame(groups []RejGroup) bool {
 		if cmd.Type == RMB_GROUP {
 			grI := fr.Commands[i].Data[0]
 			dupChecker := make(map[int]bool)
-			if grI >= len(groups) {
+			if grI >= len(groups) || grI < 0 {
 				fr.Commands[i].Error("Map doesn't contain sector %d, it only has %d sectors\n",
 					grI, len(groups))
 				continue
@@ -96,7 +96,7 @@ func (fr *RMBFrame) loadGroupsForFrame(groups []RejGroup) bool {
 					fr.Commands[i].Error("You need not explicitly list sector in its own group - every group always includes sector with the same index\n")
 					continue // because each group already includes corresponding sector
 				}
-				if v >= len(groups) {
+				if v >= len(groups) || v < 0 {
 					fr.Commands[i].Error("Map doesn't contain sector %d, it only has %d sectors\n",
 						v, len(groups))
 					continue
-- 
2.43.0


From 0e577d255ffdc67fb25c2e85b38c97d0fb49f661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:10 +0000
Subject: [PATCH 22/31] fix: members of a group that joins another group join
 with it

---
 rejectRMB.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/rejectRMB.go b/rejectRMB.go
index a963834..09d7b1c 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -112,12 +112,18 @@ func (fr *RMBFrame) loadGroupsForFrame(groups []RejGroup) bool {
 					continue // ignore duplicate
 				}
 				b1 = true
-				groups[grI].sectors = append(groups[grI].sectors, v)
-				if v < groups[grI].minRepresentative {
-					groups[grI].minRepresentative = v
+				// If this sector has had others grouped under it, all of them
+				// become part of this group
+				joined := groups[v].sectors
+				groups[v].sectors = []int{v}
+				for _, s := range joined {
+					groups[grI].sectors = append(groups[grI].sectors, s)
+					if s < groups[grI].minRepresentative {
+						groups[grI].minRepresentative = s
+					}
+					groups[s].legal = false
+					groups[s].parent = grI
 				}
-				groups[v].legal = false
-				groups[v].parent = grI
 				dupChecker[v] = true
 			}
 		}
-- 
2.43.0


From 1f61de13090d4cdd25b502b0cc889f0cbb579bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:12 +0000
Subject: [PATCH 23/31] fix: DISTANCE measures the distance to a line, not a
 fraction of it

---
 rejectFAST.go |  9 ++++++---
 rejectRMB.go  | 10 +++++++---
 rejectSYMM.go |  9 ++++++---
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/rejectFAST.go b/rejectFAST.go
index 507d038..0c157e3 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -19,6 +19,7 @@ package main
 
 import (
 	"io"
+	"math/bits"
 	"sort"
 )
 
@@ -1494,11 +1495,13 @@ func (r *FastRejectWork) pointTooFar(p *IntVertex, line *TransLine) bool {
 		return !(r.mapDistance(p, p2) < r.maxDistance)
 	}
 
-	d := (int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X)) / int64(line.H)
+	d := int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X)
 	if d < 0 {
-		return false
+		d = -d
 	}
-	return !(uint64(d) < r.maxDistance)
+	distHi, distLo := bits.Mul64(uint64(d), uint64(d))
+	limHi, limLo := bits.Mul64(r.maxDistance, uint64(line.H))
+	return distHi > limHi || distHi == limHi && distLo >= limLo
 }
 
 func (r *FastRejectWork) mapDistance(p1, p2 *IntVertex) uint64 {
diff --git a/rejectRMB.go b/rejectRMB.go
index 09d7b1c..b7beed1 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -20,6 +20,7 @@ package main
 
 import (
 	"io"
+	"math/bits"
 )
 
 // This file applies RMB effects to reject and so hosts code that is used
@@ -820,11 +821,14 @@ func (r *RejectWork) pointTooFar(p *IntVertex, line *TransLine) bool {
 		return !(r.mapDistance(p, p2) < r.maxDistance)
 	}
 
-	d := (int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X)) / int64(line.H)
+	// The distance to the line is d / sqrt(line.H), and maxDistance is squared
+	d := int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X)
 	if d < 0 {
-		return false // guaranteed d < r.maxDistance, since maxDistance is non-negative
+		d = -d
 	}
-	return !(uint64(d) < r.maxDistance)
+	distHi, distLo := bits.Mul64(uint64(d), uint64(d))
+	limHi, limLo := bits.Mul64(r.maxDistance, uint64(line.H))
+	return distHi > limHi || distHi == limHi && distLo >= limLo
 }
 
 func (r *RejectWork) mapDistance(p1, p2 *IntVertex) uint64 {
diff --git a/rejectSYMM.go b/rejectSYMM.go
index 35a518b..a25e557 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -19,6 +19,7 @@ package main
 
 import (
 	"io"
+	"math/bits"
 	"sort"
 )
 
@@ -1426,11 +1427,13 @@ func (r *SymmetricRejectWork) pointTooFar(p *IntVertex, line *TransLine) bool {
 		return !(r.mapDistance(p, p2) < r.maxDistance)
 	}
 
-	d := (int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X)) / int64(line.H)
+	d := int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X)
 	if d < 0 {
-		return false
+		d = -d
 	}
-	return !(uint64(d) < r.maxDistance)
+	distHi, distLo := bits.Mul64(uint64(d), uint64(d))
+	limHi, limLo := bits.Mul64(r.maxDistance, uint64(line.H))
+	return distHi > limHi || distHi == limHi && distLo >= limLo
 }
 
 func (r *SymmetricRejectWork) mapDistance(p1, p2 *IntVertex) uint64 {
-- 
2.43.0


From 091a0e7b94f562a6b93a05136935279f5bddcf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:14 +0000
Subject: [PATCH 24/31] fix: LINE, LEFT and RIGHT report numbers that no line
 can have

---
 rejectRMB.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rejectRMB.go b/rejectRMB.go
index b7beed1..b36f561 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -951,6 +951,13 @@ func (r *RejectInternalSetup) loadLineEffectsForFrame(rmbFrame *RMBFrame) bool {
 	// that makes sense to me. Also, manual didn't say options LEFT, RIGHT and
 	// LINE can be overridden by anything
 	for _, cmd := range rmbFrame.Commands {
+		switch cmd.Type {
+		case RMB_LEFT, RMB_RIGHT, RMB_LINE:
+			if int(uint16(cmd.Data[0])) != cmd.Data[0] {
+				cmd.Error("specified line number out of range: %d\n", cmd.Data[0])
+				continue
+			}
+		}
 		switch cmd.Type {
 		case RMB_LEFT:
 			{
-- 
2.43.0


From 5f0ea32b6a3bb15f4ed0b45a45d4dd133f5aa463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 25/31] fix: INVERT without an option is a syntax error, not a
 panic

---
 rmbparse.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rmbparse.go b/rmbparse.go
index bfd1f74..21be69c 100755
--- a/rmbparse.go
+++ b/rmbparse.go
@@ -442,7 +442,13 @@ func ParseINVERT(context *ParseContext, tblIdx int, cmd *RMBCommand) bool {
 	// the cast to ParseContextRecursion is to avoid "loop initialization"
 	// compiler error. What am I really doing is calling parseRMBLine method on
 	// context
-	if ParseContextRecursion(context).parseRMBLine(context.command, true) {
+	rest := bytes.TrimSpace(context.command)
+	if len(rest) == 0 || rest[0] == '#' {
+		// parseRMBLine would skip that, having added no command to invert
+		context.LogError("INVERT must be followed by an option\n")
+		return false
+	}
+	if ParseContextRecursion(context).parseRMBLine(rest, true) {
 		// Hack (bad): need to extract last cmd so that invert flag is applied
 		// to it
 		l := len(context.activeFrame.Commands)
-- 
2.43.0


From bead0db6c59883e4b576e033d528432ab27ce991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:17 +0000
Subject: [PATCH 26/31] fix: LENGTH treats the sectors of a group as one

---
 rejectRMB.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rejectRMB.go b/rejectRMB.go
index b36f561..fcc71dd 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -163,7 +163,7 @@ func (fr *RMBFrame) HasOptionTrickyForGroups() bool {
 	}
 	for _, cmd := range fr.Commands {
 		switch cmd.Type {
-		case RMB_DISTANCE, RMB_LINE:
+		case RMB_DISTANCE, RMB_LENGTH, RMB_LINE:
 			{
 				return true
 			}
-- 
2.43.0


From 02ea13a168f24ceb01e9452569b6e75acebdd58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 27/31] fix: neighbours of one sector of a group are visible to
 the whole group

---
 reject.go     | 2 +-
 rejectFAST.go | 2 +-
 rejectSYMM.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/reject.go b/reject.go
index 0968bef..e391e02 100755
--- a/reject.go
+++ b/reject.go
@@ -1483,7 +1483,7 @@ func (r *RejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup) {
 		for j := 0; j < sec.numNeighbors; j++ {
 			nei := sec.neighbors[j]
 			if nei.index > sec.index {
-				r.markVisibilitySector(sec.index, nei.index, VIS_VISIBLE)
+				r.markVisibility(sec.index, nei.index, VIS_VISIBLE)
 			}
 		}
 	}
diff --git a/rejectFAST.go b/rejectFAST.go
index 0c157e3..0f75b5f 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -895,7 +895,7 @@ func (r *FastRejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup) {
 		for j := 0; j < sec.numNeighbors; j++ {
 			nei := sec.neighbors[j]
 			if nei.index > sec.index {
-				r.markVisibilitySector(sec.index, nei.index, VIS_VISIBLE)
+				r.markVisibility(sec.index, nei.index, VIS_VISIBLE)
 			}
 		}
 	}
diff --git a/rejectSYMM.go b/rejectSYMM.go
index a25e557..e309c16 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -827,7 +827,7 @@ func (r *SymmetricRejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup)
 		for j := 0; j < sec.numNeighbors; j++ {
 			nei := sec.neighbors[j]
 			if nei.index > sec.index {
-				r.markVisibilitySector(sec.index, nei.index, VIS_VISIBLE)
+				r.markVisibility(sec.index, nei.index, VIS_VISIBLE)
 			}
 		}
 	}
-- 
2.43.0


From 531f3054662676e764637546af66f92adb1fc00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:47 +0000
Subject: [PATCH 28/31] fix: lines blocked by LEFT and RIGHT share visibility
 of groups as with LINE

---
 rejectRMB.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rejectRMB.go b/rejectRMB.go
index fcc71dd..6ba542e 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -163,7 +163,7 @@ func (fr *RMBFrame) HasOptionTrickyForGroups() bool {
 	}
 	for _, cmd := range fr.Commands {
 		switch cmd.Type {
-		case RMB_DISTANCE, RMB_LENGTH, RMB_LINE:
+		case RMB_DISTANCE, RMB_LENGTH, RMB_LINE, RMB_LEFT, RMB_RIGHT:
 			{
 				return true
 			}
-- 
2.43.0


From 37edc706bb6df23b6a5db9c66a2706543905c8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:04 +0000
Subject: [PATCH 29/31] fix: Find the sector around a self-referencing one in
 pedantic mode

Depending on the direction of the line hit by the ray, traceSelfRefLines took
the sector from its far side, read sidedefs that do not exist, or counted lines
that the ray only touches in a vertex.
---
 reject.go     | 62 +++++++++++++++++++++++++--------------------------
 rejectFAST.go | 45 +++++++++++++++++++------------------
 rejectSYMM.go | 45 +++++++++++++++++++------------------
 selfref.go    |  9 ++++++++
 4 files changed, 85 insertions(+), 76 deletions(-)

diff --git a/reject.go b/reject.go
index e391e02..5a3ae67 100755
--- a/reject.go
+++ b/reject.go
@@ -1013,6 +1013,19 @@ func (r *RejectWork) traceSelfRefLines(numTransLines *int, numSolidLines *int,
 			// Try next line
 			continue
 		}
+		// A proper line touches the traced one, it may separate the sector we
+		// are looking for from where the trace goes
+		touched := false
+		for i := leftStart + 1; i < rightStart; i++ {
+			if !refersToOneSector(r.input.lines, r.input.sidedefs, uint16(trace[i].v.idx)) {
+				touched = true
+				break
+			}
+		}
+		if touched {
+			// Try next line
+			continue
+		}
 		// Pick any point (let's take the first one) of currently traced line
 		// segment to evaluate which side this point is from line segment
 		// intersecting the trace
@@ -1021,7 +1034,10 @@ func (r *RejectWork) traceSelfRefLines(numTransLines *int, numSolidLines *int,
 			Y: Number(Y1),
 		}
 		lineThatWasTraced := i
-		for i := leftStart; i >= 0; i++ {
+		for i := leftStart; i < len(trace)-1; i++ {
+			if i == 0 { // the boundary, not a line
+				continue
+			}
 			aline := uint16(trace[i].v.idx)
 			// Multiple self-referencing sectors can coexist inside one sector
 			// that surrounds them. So, make sure line didn't come from another
@@ -1031,16 +1047,8 @@ func (r *RejectWork) traceSelfRefLines(numTransLines *int, numSolidLines *int,
 			// are possible. The surrounding sector for self-referencing sectors
 			// inside another self-referencing sector wouldn't be correctly
 			// identified then with the current code and needs to be fixed.
-			if uint16(r.input.lines.GetFlags(aline))&LF_TWOSIDED == LF_TWOSIDED {
-				fSide := r.input.lines.GetSidedefIndex(aline, true)
-				bSide := r.input.lines.GetSidedefIndex(aline, false)
-				if fSide != SIDEDEF_NONE || bSide != SIDEDEF_NONE {
-					fSector := r.input.sidedefs[fSide].Sector
-					bSector := r.input.sidedefs[bSide].Sector
-					if fSector == bSector {
-						continue
-					}
-				}
+			if refersToOneSector(r.input.lines, r.input.sidedefs, aline) {
+				continue
 			}
 			// Ok, we are hitting a good line it seems
 			TX1, TY1, TX2, TY2 := r.input.lines.GetAllXY(aline)
@@ -1052,31 +1060,21 @@ func (r *RejectWork) traceSelfRefLines(numTransLines *int, numSolidLines *int,
 				X: Number(TX2),
 				Y: Number(TY2),
 			}
+			// A line that is only touched at its vertex doesn't tell which
+			// sector the trace comes from, try next line of the perimeter
+			if c.pdx*(nv1.Y-c.psy) == c.pdy*(nv1.X-c.psx) ||
+				c.pdx*(nv2.Y-c.psy) == c.pdy*(nv2.X-c.psx) {
+				break
+			}
 			// FIXME there may still be an error here somewhere. Not to say that
 			// apparently changes in selfref.go are warranted. Something to
 			// rule out polygon of 2-sided lines nested in regular sector's true
 			// perimeter becoming a "self-referencing" perimeter
-			// Now calculate which side of line the point is. Whether line goes
-			// AB or BA, there shouldn't be a difference of where the point is
-			// relative to it. The calculation, however, depends on us starting
-			// triangle by walking the line in specific direction so that
-			// nv1'<nv2', which may or may not match the vector direction of
-			// line segment
-			if (nv1.X > nv2.X) || (nv1.X == nv2.X && nv1.Y > nv2.Y) {
-				// Swap the points
-				nv1, nv2 = nv2, nv1
-			} else if nv1.X < nv2.X && nv1.Y > nv2.Y { // recent addition!
-				// Also swap? This seems to fix Hexen map01 (no sectors shall
-				// be self-referencing), but I'm afraid of breaking something
-				// else. Without this, 210 is becoming self-referencing with
-				// 207 assigned to the interior 2-sided lines
-				nv1, nv2 = nv2, nv1
-			}
-			isLeft := !IntIsClockwiseTriangle(nv1, nv2, nv3)
-			Log.Verbose(3, "Reject: sector %d traced line %d hit line %d, left = %t, traceLeft = %t.\n",
-				sector, lineThatWasTraced, aline, isLeft, trace[i].left)
-			// Compare where the point is to where the intersecting line looks
-			if isLeft == trace[i].left { // line is looking towards the point
+			// Front side of a line is to the right of it
+			isFront := IntIsClockwiseTriangle(nv1, nv2, nv3)
+			Log.Verbose(3, "Reject: sector %d traced line %d hit line %d, front = %t.\n",
+				sector, lineThatWasTraced, aline, isFront)
+			if isFront { // line is looking towards the point
 				// front side is where our sector is
 				fSide := r.input.lines.GetSidedefIndex(aline, true)
 				if fSide == SIDEDEF_NONE {
diff --git a/rejectFAST.go b/rejectFAST.go
index 0f75b5f..bc82838 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -634,25 +634,30 @@ func (r *FastRejectWork) traceSelfRefLines(numTransLines *int, numSolidLines *in
 
 			continue
 		}
+		touched := false
+		for i := leftStart + 1; i < rightStart; i++ {
+			if !refersToOneSector(r.input.lines, r.input.sidedefs, uint16(trace[i].v.idx)) {
+				touched = true
+				break
+			}
+		}
+		if touched {
+			continue
+		}
 
 		nv3 := &NodeVertex{
 			X: Number(X1),
 			Y: Number(Y1),
 		}
 		lineThatWasTraced := i
-		for i := leftStart; i >= 0; i++ {
+		for i := leftStart; i < len(trace)-1; i++ {
+			if i == 0 { // the boundary, not a line
+				continue
+			}
 			aline := uint16(trace[i].v.idx)
 
-			if uint16(r.input.lines.GetFlags(aline))&LF_TWOSIDED == LF_TWOSIDED {
-				fSide := r.input.lines.GetSidedefIndex(aline, true)
-				bSide := r.input.lines.GetSidedefIndex(aline, false)
-				if fSide != SIDEDEF_NONE || bSide != SIDEDEF_NONE {
-					fSector := r.input.sidedefs[fSide].Sector
-					bSector := r.input.sidedefs[bSide].Sector
-					if fSector == bSector {
-						continue
-					}
-				}
+			if refersToOneSector(r.input.lines, r.input.sidedefs, aline) {
+				continue
 			}
 
 			TX1, TY1, TX2, TY2 := r.input.lines.GetAllXY(aline)
@@ -664,19 +669,15 @@ func (r *FastRejectWork) traceSelfRefLines(numTransLines *int, numSolidLines *in
 				X: Number(TX2),
 				Y: Number(TY2),
 			}
-
-			if (nv1.X > nv2.X) || (nv1.X == nv2.X && nv1.Y > nv2.Y) {
-
-				nv1, nv2 = nv2, nv1
-			} else if nv1.X < nv2.X && nv1.Y > nv2.Y {
-
-				nv1, nv2 = nv2, nv1
+			if c.pdx*(nv1.Y-c.psy) == c.pdy*(nv1.X-c.psx) ||
+				c.pdx*(nv2.Y-c.psy) == c.pdy*(nv2.X-c.psx) {
+				break
 			}
-			isLeft := !IntIsClockwiseTriangle(nv1, nv2, nv3)
-			Log.Verbose(3, "Reject: sector %d traced line %d hit line %d, left = %t, traceLeft = %t.\n",
-				sector, lineThatWasTraced, aline, isLeft, trace[i].left)
+			isFront := IntIsClockwiseTriangle(nv1, nv2, nv3)
+			Log.Verbose(3, "Reject: sector %d traced line %d hit line %d, front = %t.\n",
+				sector, lineThatWasTraced, aline, isFront)
 
-			if isLeft == trace[i].left {
+			if isFront {
 
 				fSide := r.input.lines.GetSidedefIndex(aline, true)
 				if fSide == SIDEDEF_NONE {
diff --git a/rejectSYMM.go b/rejectSYMM.go
index e309c16..8dafa39 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -582,25 +582,30 @@ func (r *SymmetricRejectWork) traceSelfRefLines(numTransLines *int, numSolidLine
 
 			continue
 		}
+		touched := false
+		for i := leftStart + 1; i < rightStart; i++ {
+			if !refersToOneSector(r.input.lines, r.input.sidedefs, uint16(trace[i].v.idx)) {
+				touched = true
+				break
+			}
+		}
+		if touched {
+			continue
+		}
 
 		nv3 := &NodeVertex{
 			X: Number(X1),
 			Y: Number(Y1),
 		}
 		lineThatWasTraced := i
-		for i := leftStart; i >= 0; i++ {
+		for i := leftStart; i < len(trace)-1; i++ {
+			if i == 0 { // the boundary, not a line
+				continue
+			}
 			aline := uint16(trace[i].v.idx)
 
-			if uint16(r.input.lines.GetFlags(aline))&LF_TWOSIDED == LF_TWOSIDED {
-				fSide := r.input.lines.GetSidedefIndex(aline, true)
-				bSide := r.input.lines.GetSidedefIndex(aline, false)
-				if fSide != SIDEDEF_NONE || bSide != SIDEDEF_NONE {
-					fSector := r.input.sidedefs[fSide].Sector
-					bSector := r.input.sidedefs[bSide].Sector
-					if fSector == bSector {
-						continue
-					}
-				}
+			if refersToOneSector(r.input.lines, r.input.sidedefs, aline) {
+				continue
 			}
 
 			TX1, TY1, TX2, TY2 := r.input.lines.GetAllXY(aline)
@@ -612,19 +617,15 @@ func (r *SymmetricRejectWork) traceSelfRefLines(numTransLines *int, numSolidLine
 				X: Number(TX2),
 				Y: Number(TY2),
 			}
-
-			if (nv1.X > nv2.X) || (nv1.X == nv2.X && nv1.Y > nv2.Y) {
-
-				nv1, nv2 = nv2, nv1
-			} else if nv1.X < nv2.X && nv1.Y > nv2.Y {
-
-				nv1, nv2 = nv2, nv1
+			if c.pdx*(nv1.Y-c.psy) == c.pdy*(nv1.X-c.psx) ||
+				c.pdx*(nv2.Y-c.psy) == c.pdy*(nv2.X-c.psx) {
+				break
 			}
-			isLeft := !IntIsClockwiseTriangle(nv1, nv2, nv3)
-			Log.Verbose(3, "Reject: sector %d traced line %d hit line %d, left = %t, traceLeft = %t.\n",
-				sector, lineThatWasTraced, aline, isLeft, trace[i].left)
+			isFront := IntIsClockwiseTriangle(nv1, nv2, nv3)
+			Log.Verbose(3, "Reject: sector %d traced line %d hit line %d, front = %t.\n",
+				sector, lineThatWasTraced, aline, isFront)
 
-			if isLeft == trace[i].left {
+			if isFront {
 
 				fSide := r.input.lines.GetSidedefIndex(aline, true)
 				if fSide == SIDEDEF_NONE {
diff --git a/selfref.go b/selfref.go
index 8a057a7..6174708 100755
--- a/selfref.go
+++ b/selfref.go
@@ -402,6 +402,15 @@ func FirstStageUncollideable(lines AbstractLines, sidedefs []Sidedef,
 		firstSdef != SIDEDEF_NONE && secondSdef != SIDEDEF_NONE
 }
 
+// returns if line is two-sided and has the same sector on both sides
+func refersToOneSector(lines AbstractLines, sidedefs []Sidedef, i uint16) bool {
+	firstSdef := lines.GetSidedefIndex(i, true)
+	secondSdef := lines.GetSidedefIndex(i, false)
+	return uint16(lines.GetFlags(i))&LF_TWOSIDED == LF_TWOSIDED &&
+		firstSdef != SIDEDEF_NONE && secondSdef != SIDEDEF_NONE &&
+		sidedefs[firstSdef].Sector == sidedefs[secondSdef].Sector
+}
+
 // Sloppy simply looks if whole sector may be declared self-referencing,
 // by comparing the bounds derived from culled lines of a sector N with bounds
 // of all solid or 2-sided lines with different sector that come from sector N
-- 
2.43.0


From 4c584b5fabde0785cc7c0e522991366e5fb77236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:04 +0000
Subject: [PATCH 30/31] fix: Find a root for --roots when no partition is worth
 making

---
 multitree_plain.go | 6 ++++++
 znodegen.go        | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/multitree_plain.go b/multitree_plain.go
index b6f7c08..d847531 100755
--- a/multitree_plain.go
+++ b/multitree_plain.go
@@ -133,6 +133,12 @@ func MTPSentinel_MakeBestBSPTree(w *NodesWork, bbox *NodeBounds,
 		// code tree will pick from global config directly the needed things
 		// not a good API, admittedly
 		rootSegCandidates = MTP_ZenRootEnumerate(w, bbox)
+		if len(rootSegCandidates) == 0 {
+			// The scoring found no partition worth making, which happens when
+			// the whole map is convex, yet the tree needs a root
+			rootSegCandidates = MTPSentinel_GetRootSegCandidates(w.allSegs,
+				rootChoiceMethod)
+		}
 	}
 	// whether vanilla nodes format is required or preferred, AND we should be
 	// choosing best tree among specifically vanilla whenever any vanilla-compatible
diff --git a/znodegen.go b/znodegen.go
index e46da69..8cbb8d5 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -4283,6 +4283,12 @@ func ZExt_MTPSentinel_MakeBestBSPTree(w *ZExt_NodesWork, bbox *NodeBounds,
 	} else {
 
 		rootSegCandidates = ZExt_MTP_ZenRootEnumerate(w, bbox)
+		if len(rootSegCandidates) == 0 {
+			// The scoring found no partition worth making, which happens when
+			// the whole map is convex, yet the tree needs a root
+			rootSegCandidates = ZExt_MTPSentinel_GetRootSegCandidates(w.allSegs,
+				rootChoiceMethod)
+		}
 	}
 
 	vanillaBias := w.nodeType == NODETYPE_VANILLA && !config.Ableist
-- 
2.43.0


From b88a4f48fbc5ec594dc367309d8f8570028e8c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:32 +0000
Subject: [PATCH 31/31] fix: Do not create segs of a line twice when culling
 (-ni=2)

deepAnalysis gave back a line that joins two parts of a sector's border once for
each direction, and all lines of the sector once for each part without a
perimeter.
---
 selfref.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/selfref.go b/selfref.go
index 6174708..2190eae 100755
--- a/selfref.go
+++ b/selfref.go
@@ -645,7 +645,9 @@ func (c *Culler) deepAnalysis(secIdx uint16, allLines, culledLines []uint16,
 				// added to spewOut array
 				for _, lineJ := range borderLines {
 					for k, lineK := range culledLines {
-						if lineJ == lineK {
+						// A line that connects two parts of the border is passed
+						// in both directions, yet must not be added twice
+						if lineJ == lineK && !culledLinesVisibility[k] {
 							if !doingForSegs || !c.writLines.IsDoNotRender(lineJ) {
 								c.spewOut = append(c.spewOut, lineJ)
 								culledLinesVisibility[k] = true
@@ -661,7 +663,7 @@ func (c *Culler) deepAnalysis(secIdx uint16, allLines, culledLines []uint16,
 			// speculated were invisible
 			for _, lineJ := range graph.lines {
 				for k, lineK := range culledLines {
-					if lineJ.id == lineK {
+					if lineJ.id == lineK && !culledLinesVisibility[k] {
 						if !doingForSegs || !c.writLines.IsDoNotRender(lineK) {
 							c.spewOut = append(c.spewOut, lineK)
 							culledLinesVisibility[k] = true
@@ -675,7 +677,7 @@ func (c *Culler) deepAnalysis(secIdx uint16, allLines, culledLines []uint16,
 				for _, perimeter := range perimeters {
 					for _, lineJ := range perimeter {
 						for k, lineK := range culledLines {
-							if lineJ == lineK {
+							if lineJ == lineK && !culledLinesVisibility[k] {
 								if !doingForSegs || !c.writLines.IsDoNotRender(lineK) {
 									c.spewOut = append(c.spewOut, lineK)
 									culledLinesVisibility[k] = true
-- 
2.43.0

