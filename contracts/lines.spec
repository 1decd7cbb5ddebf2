// ---- lines of a map: what they ask for, which sides become segs, vertices left after pruning
foreach T in DoomLinedefs HexenLinedefs
// every line keeps its place; only vertices that lines use remain
func $T.PruneUnusedVertices(o)
  requires allocated(o.vertices) && allocated(o.linedefs) && obj(o.vertices) != obj(o.linedefs)
  requires forall k in 0..len(o.linedefs) :: o.linedefs[k].StartVertex < len(o.vertices) && o.linedefs[k].EndVertex < len(o.vertices)
  modifies o.vertices, o.vertices[*], o.linedefs[*]
  loop 0
    invariant len(translate) == len(o.vertices) && (forall k in 0..rangeindex+1 :: translate[k] == -1)
  loop 1
    invariant 0 <= i <= len(o.linedefs) && len(translate) == len(o.vertices)
    invariant forall k in 0..len(translate) :: translate[k] == -1 || translate[k] == 0
    invariant forall k in 0..i :: translate[o.linedefs[k].StartVertex] == 0 && translate[o.linedefs[k].EndVertex] == 0
  loop 2
    invariant 0 <= usedVerts <= i && i <= numVerts && numVerts == len(o.vertices) && len(translate) == numVerts
    invariant forall k in i..numVerts :: translate[k] == -1 || translate[k] == 0
    invariant forall k in i..numVerts :: o.vertices[k] == old(o.vertices[k])
    invariant forall k in 0..i :: translate[k] == -1 || 0 <= translate[k] && translate[k] < usedVerts && translate[k] <= k && o.vertices[translate[k]] == old(o.vertices[k])
    invariant forall k in 0..len(o.linedefs) :: translate[o.linedefs[k].StartVertex] >= 0 && translate[o.linedefs[k].EndVertex] >= 0
  loop 3
    invariant 0 <= i <= len(o.linedefs) && numVerts == len(o.vertices) && len(translate) == numVerts && 0 <= usedVerts <= numVerts
    invariant forall k in 0..numVerts :: translate[k] == -1 || 0 <= translate[k] && translate[k] < usedVerts && translate[k] <= k && o.vertices[translate[k]] == old(o.vertices[k])
    invariant forall k in 0..len(o.linedefs) :: translate[old(o.linedefs[k].StartVertex)] >= 0 && translate[old(o.linedefs[k].EndVertex)] >= 0
    invariant forall k in 0..i :: o.linedefs[k].StartVertex < usedVerts && o.linedefs[k].EndVertex < usedVerts
    invariant forall k in 0..i :: o.vertices[o.linedefs[k].StartVertex] == old(o.vertices[o.linedefs[k].StartVertex])
    invariant forall k in 0..i :: o.vertices[o.linedefs[k].EndVertex] == old(o.vertices[o.linedefs[k].EndVertex])
    invariant forall k in i..len(o.linedefs) :: o.linedefs[k] == old(o.linedefs[k])
    invariant forall k in 0..i :: o.linedefs[k].StartVertex == translate[old(o.linedefs[k].StartVertex)] && o.linedefs[k].EndVertex == translate[old(o.linedefs[k].EndVertex)]
    invariant forall k in 0..i :: sameBut(o.linedefs[k].Flags, old(o.linedefs[k].Flags)) && sameBut(o.linedefs[k].Action, old(o.linedefs[k].Action)) && sameBut(o.linedefs[k].FrontSdef, old(o.linedefs[k].FrontSdef)) && sameBut(o.linedefs[k].BackSdef, old(o.linedefs[k].BackSdef))
  ensures len(o.linedefs) == old(len(o.linedefs)) && len(o.vertices) <= old(len(o.vertices))
  ensures forall k in 0..len(o.linedefs) :: o.linedefs[k].StartVertex < len(o.vertices) && o.linedefs[k].EndVertex < len(o.vertices)
  ensures forall k in 0..len(o.linedefs) :: o.vertices[o.linedefs[k].StartVertex] == old(o.vertices[o.linedefs[k].StartVertex])
  ensures forall k in 0..len(o.linedefs) :: o.vertices[o.linedefs[k].EndVertex] == old(o.vertices[o.linedefs[k].EndVertex])
  ensures forall k in 0..len(o.linedefs) :: sameBut(o.linedefs[k].Flags, old(o.linedefs[k].Flags)) && sameBut(o.linedefs[k].Action, old(o.linedefs[k].Action)) && sameBut(o.linedefs[k].FrontSdef, old(o.linedefs[k].FrontSdef)) && sameBut(o.linedefs[k].BackSdef, old(o.linedefs[k].BackSdef))
func $T.GetSidedefIndex(o, lidx, front)
  requires lidx < len(o.linedefs)
  ensures result == ite(front, o.linedefs[lidx].FrontSdef, o.linedefs[lidx].BackSdef)
func $T.GetFlags(o, idx)
  requires idx < len(o.linedefs)
  ensures result == o.linedefs[idx].Flags
func $T.GetAction(o, lidx)
  requires lidx < len(o.linedefs)
  ensures result == o.linedefs[lidx].Action
func $T.GetAllXY(o, idx) (x1, y1, x2, y2)
  requires idx < len(o.linedefs) && o.linedefs[idx].StartVertex < len(o.vertices) && o.linedefs[idx].EndVertex < len(o.vertices)
  ensures x1 == o.vertices[o.linedefs[idx].StartVertex].XPos && y1 == o.vertices[o.linedefs[idx].StartVertex].YPos
  ensures x2 == o.vertices[o.linedefs[idx].EndVertex].XPos && y2 == o.vertices[o.linedefs[idx].EndVertex].YPos
func $T.GetLinedefVertices(o, lidx) (a, b)
  requires lidx < len(o.linedefs)
  ensures a == o.linedefs[lidx].StartVertex && b == o.linedefs[lidx].EndVertex
endfor
define sameBut(a, b) = a == b
func DoomLinedefs.IsHorizonEffect(o, lidx)
  requires lidx < len(o.linedefs)
  ensures result == (o.linedefs[lidx].Tag == 999 && !bit(o.linedefs[lidx].Flags, 2))
func DoomLinedefs.IsDoNotRender(o, lidx)
  requires lidx < len(o.linedefs)
  ensures result == (o.linedefs[lidx].Tag == 998 || o.linedefs[lidx].Action == 1086)
func DoomLinedefs.IsTaggedPrecious(o, lidx)
  requires lidx < len(o.linedefs)
  ensures result == (o.linedefs[lidx].Tag >= 900 && o.linedefs[lidx].Tag != 998 && o.linedefs[lidx].Tag != 999)
func HexenLinedefs.IsHorizonEffect(o, lidx)
  ensures !result
func HexenLinedefs.IsDoNotRender(o, lidx)
  ensures !result
func DoomLinedefs.GetBAMEffect(o, lidx)
  requires lidx < len(o.linedefs)
  ensures result.Action == ite(o.linedefs[lidx].Action == 1081 || o.linedefs[lidx].Action == 1083, BAM_REPLACE, ite(o.linedefs[lidx].Action == 1080 || o.linedefs[lidx].Action == 1082, BAM_ADDITIVE, BAM_NOSPECIAL))
  ensures o.linedefs[lidx].Action == 1082 || o.linedefs[lidx].Action == 1083 ==> result.Value == int16(o.linedefs[lidx].Tag)
func HexenLinedefs.GetBAMEffect(o, lidx)
  ensures result.Action == BAM_NOSPECIAL

func IsEmptyTexture(lumpName)
  requires len(lumpName) >= 2
  ensures result == (lumpName[0] == 45 && lumpName[1] == 0)

func storeNodeVertex(vs, x, y, idx)
  requires idx < len(vs)
  modifies vs[*]
  ensures vs[idx].X == x && vs[idx].Y == y && vs[idx].idx == idx
  ensures forall k in 0..len(vs) :: k != idx ==> vs[k] == old(vs[k])

// ---- sides of lines become segs
ghost lnHorizon(int, int, int) bool
ghost lnNoDraw(int, int, int) bool
ghost lnPrecious(int, int, int) bool
ghost lnIgnPrecious(int, int, int) bool
ghost lnBamAction(int, int, int) int
ghost lnBamValue(int, int, int) int
ghost lnAction(int, int, int) int
ghost lnFlags(int, int, int) int
ghost lnSide(int, int, int, bool) int
iface WriteableLines.IsHorizonEffect(o, i)
  ensures result == lnHorizon(tag(o), ifval(o), i)
iface WriteableLines.IsDoNotRender(o, i)
  ensures result == lnNoDraw(tag(o), ifval(o), i)
iface WriteableLines.IsTaggedPrecious(o, i)
  ensures result == lnPrecious(tag(o), ifval(o), i)
iface WriteableLines.SectorIgnorePrecious(o, i)
  ensures result == lnIgnPrecious(tag(o), ifval(o), i)
iface WriteableLines.GetBAMEffect(o, i)
  ensures result.Action == lnBamAction(tag(o), ifval(o), i) && result.Value == lnBamValue(tag(o), ifval(o), i)
iface WriteableLines.GetAction(o, i)
  ensures result == lnAction(tag(o), ifval(o), i)
iface WriteableLines.GetFlags(o, i)
  ensures result == lnFlags(tag(o), ifval(o), i)
iface WriteableLines.GetSidedefIndex(o, i, front)
  ensures result == lnSide(tag(o), ifval(o), i, front)

define noTexture(s) = s.LoName[0] == 45 && s.LoName[1] == 0 && s.MidName[0] == 45 && s.MidName[1] == 0 && s.UpName[0] == 45 && s.UpName[1] == 0
func canBeCulled_ForSegs(lines, sidedefs, i, firstSdef, secondSdef)
  requires lines != nil && (firstSdef == 65535 || firstSdef < len(sidedefs)) && (secondSdef == 65535 || secondSdef < len(sidedefs))
  ensures result ==> !lnPrecious(tag(lines), ifval(lines), i) && firstSdef != 65535 && secondSdef != 65535 && bit(lnFlags(tag(lines), ifval(lines), i), 2)
  ensures result ==> sidedefs[firstSdef].Sector == sidedefs[secondSdef].Sector && noTexture(sidedefs[firstSdef]) && noTexture(sidedefs[secondSdef])

ghost dirAngle(int, int) int
extern computeAngle(dx, dy)
  ensures result == dirAngle(dx, dy)
define inRange(v) = -200000 <= v.X <= 200000 && -200000 <= v.Y <= 200000
define placed(s) = s.psx == s.StartVertex.X && s.psy == s.StartVertex.Y && s.pex == s.EndVertex.X && s.pey == s.EndVertex.Y && s.pdx == s.pex - s.psx && s.pdy == s.pey - s.psy && s.perp == s.pdx * s.psy - s.psx * s.pdy
define segAngle(s, a, v) = s.Angle == ite(a == 1, v, ite(a == 2, int16(int16(dirAngle(s.pdx, s.pdy)) + v), int16(dirAngle(s.pdx, s.pdy))))
func NodesWork.recomputeOneSeg(w, s)
  requires s != nil && w.lines != nil && s.StartVertex != nil && s.EndVertex != nil && inRange(s.StartVertex) && inRange(s.EndVertex)
  requires lnHorizon(tag(w.lines), ifval(w.lines), s.Linedef) ==> lnSide(tag(w.lines), ifval(w.lines), s.Linedef, !bit(s.flags, 0)) < len(w.sides)
  modifies s.psx, s.psy, s.pex, s.pey, s.pdx, s.pdy, s.perp, s.Angle
  ensures placed(s)
  ensures !lnHorizon(tag(w.lines), ifval(w.lines), s.Linedef) ==> segAngle(s, lnBamAction(tag(w.lines), ifval(w.lines), s.Linedef), lnBamValue(tag(w.lines), ifval(w.lines), s.Linedef))

func addSeg(vs, i, vidx1, vidx2, rootCs, sdef, lastCs, horizon, bamEffect, precious, coalesce)
  requires 0 <= vidx1 < len(vs) && 0 <= vidx2 < len(vs) && rootCs != nil && lastCs != nil && sdef != nil && rootCs != lastCs
  requires inRange(vs[vidx1]) && inRange(vs[vidx2])
  modifies *rootCs, *lastCs, old(deref(lastCs)).next
  ensures fresh(result) && deref(lastCs) == result && result.next == nil && result.partner == nil
  ensures old(deref(lastCs)) == nil ==> deref(rootCs) == result
  ensures old(deref(lastCs)) != nil ==> deref(rootCs) == old(deref(rootCs)) && old(deref(lastCs)).next == result
  ensures result.StartVertex == &vs[vidx1] && result.EndVertex == &vs[vidx2]
  ensures placed(result) && result.Linedef == i && result.sector == sdef.Sector && result.Offset == 0
  ensures bit(result.flags, 0) == false
  ensures !horizon ==> segAngle(result, bamEffect.Action, bamEffect.Value)

define noSeg(s) = s.LoName[0] == 66 && s.LoName[1] == 83 && s.LoName[2] == 80 && s.LoName[3] == 78 && s.LoName[4] == 79 && s.LoName[5] == 83 && s.LoName[6] == 69 && s.LoName[7] == 71
define frontDrawn(L, sd, i, f) = f != 65535 && !noSeg(sd[f]) && lnAction(tag(L), ifval(L), i) != 1085
define backDrawn(L, sd, i, b) = b != 65535 && !noSeg(sd[b]) && lnAction(tag(L), ifval(L), i) != 1084
// each side that may be drawn becomes one seg, front before back, and only such sides
func addSegsPerLine(myVertices, i, lines, vidx1, vidx2, firstSdef, secondSdef, rootCs, lastCs, sidedefs, res, extNode, sectors)
  requires 0 <= vidx1 < len(myVertices) && 0 <= vidx2 < len(myVertices) && inRange(myVertices[vidx1]) && inRange(myVertices[vidx2])
  requires rootCs != nil && lastCs != nil && rootCs != lastCs && res != nil && lines != nil
  requires (firstSdef == 65535 || firstSdef < len(sidedefs)) && (secondSdef == 65535 || secondSdef < len(sidedefs))
  requires forall k in 0..len(sidedefs) :: sidedefs[k].Sector < len(sectors)
  requires allocated(deref(res)) && len(deref(res)) < 140000 && obj(rootCs) != obj(deref(res)) && obj(lastCs) != obj(deref(res))
  modifies *rootCs, *lastCs, *res, deref(res)[*], old(deref(lastCs)).next
  ensures len(deref(res)) == old(len(deref(res))) + ite(frontDrawn(lines, sidedefs, i, firstSdef), 1, 0) + ite(backDrawn(lines, sidedefs, i, secondSdef), 1, 0)
  ensures forall k in 0..old(len(deref(res))) :: deref(res)[k] == old(deref(res)[k])
  ensures frontDrawn(lines, sidedefs, i, firstSdef) ==> deref(res)[old(len(deref(res)))].StartVertex == &myVertices[vidx1] && deref(res)[old(len(deref(res)))].EndVertex == &myVertices[vidx2]
  ensures frontDrawn(lines, sidedefs, i, firstSdef) ==> deref(res)[old(len(deref(res)))].Linedef == i && deref(res)[old(len(deref(res)))].sector == sidedefs[firstSdef].Sector && !bit(deref(res)[old(len(deref(res)))].flags, 0)
  ensures backDrawn(lines, sidedefs, i, secondSdef) ==> deref(res)[len(deref(res)) - 1].StartVertex == &myVertices[vidx2] && deref(res)[len(deref(res)) - 1].EndVertex == &myVertices[vidx1]
  ensures backDrawn(lines, sidedefs, i, secondSdef) ==> deref(res)[len(deref(res)) - 1].Linedef == i && deref(res)[len(deref(res)) - 1].sector == sidedefs[secondSdef].Sector && bit(deref(res)[len(deref(res)) - 1].flags, 0)

// the same with coordinates in floating point
ghost zdirAngle(float, float) int
extern ZExt_computeAngle(dx, dy)
  ensures result == zdirAngle(dx, dy)
define zsegAngle(s, a, v) = s.Angle == ite(a == 1, v, ite(a == 2, int16(int16(zdirAngle(s.pdx, s.pdy)) + v), int16(zdirAngle(s.pdx, s.pdy))))
func ZExt_NodesWork.recomputeOneSeg(w, s)
  requires s != nil && w.lines != nil && s.StartVertex != nil && s.EndVertex != nil
  requires lnHorizon(tag(w.lines), ifval(w.lines), s.Linedef) ==> lnSide(tag(w.lines), ifval(w.lines), s.Linedef, !bit(s.flags, 0)) < len(w.sides)
  modifies s.psx, s.psy, s.pex, s.pey, s.pdx, s.pdy, s.perp, s.len, s.Angle
  ensures placed(s)
  ensures !lnHorizon(tag(w.lines), ifval(w.lines), s.Linedef) ==> zsegAngle(s, lnBamAction(tag(w.lines), ifval(w.lines), s.Linedef), lnBamValue(tag(w.lines), ifval(w.lines), s.Linedef))

func ZExt_addSeg(vs, i, vidx1, vidx2, rootCs, sdef, lastCs, horizon, bamEffect, precious, coalesce)
  requires 0 <= vidx1 < len(vs) && 0 <= vidx2 < len(vs) && rootCs != nil && lastCs != nil && sdef != nil && rootCs != lastCs
  modifies *rootCs, *lastCs, old(deref(lastCs)).next
  ensures fresh(result) && deref(lastCs) == result && result.next == nil && result.partner == nil
  ensures old(deref(lastCs)) == nil ==> deref(rootCs) == result
  ensures old(deref(lastCs)) != nil ==> deref(rootCs) == old(deref(rootCs)) && old(deref(lastCs)).next == result
  ensures result.StartVertex == &vs[vidx1] && result.EndVertex == &vs[vidx2]
  ensures placed(result) && result.Linedef == i && result.sector == sdef.Sector && result.Offset == 0
  ensures bit(result.flags, 0) == false
  ensures !horizon ==> zsegAngle(result, bamEffect.Action, bamEffect.Value)

// each side that may be drawn becomes one seg, front before back, and only such sides
func ZExt_addSegsPerLine(myVertices, i, lines, vidx1, vidx2, firstSdef, secondSdef, rootCs, lastCs, sidedefs, res, extNode, sectors)
  requires 0 <= vidx1 < len(myVertices) && 0 <= vidx2 < len(myVertices)
  requires rootCs != nil && lastCs != nil && rootCs != lastCs && res != nil && lines != nil
  requires (firstSdef == 65535 || firstSdef < len(sidedefs)) && (secondSdef == 65535 || secondSdef < len(sidedefs))
  requires forall k in 0..len(sidedefs) :: sidedefs[k].Sector < len(sectors)
  requires allocated(deref(res)) && len(deref(res)) < 140000 && obj(rootCs) != obj(deref(res)) && obj(lastCs) != obj(deref(res))
  modifies *rootCs, *lastCs, *res, deref(res)[*], old(deref(lastCs)).next
  ensures len(deref(res)) == old(len(deref(res))) + ite(frontDrawn(lines, sidedefs, i, firstSdef), 1, 0) + ite(backDrawn(lines, sidedefs, i, secondSdef), 1, 0)
  ensures forall k in 0..old(len(deref(res))) :: deref(res)[k] == old(deref(res)[k])
  ensures frontDrawn(lines, sidedefs, i, firstSdef) ==> deref(res)[old(len(deref(res)))].StartVertex == &myVertices[vidx1] && deref(res)[old(len(deref(res)))].EndVertex == &myVertices[vidx2]
  ensures frontDrawn(lines, sidedefs, i, firstSdef) ==> deref(res)[old(len(deref(res)))].Linedef == i && deref(res)[old(len(deref(res)))].sector == sidedefs[firstSdef].Sector && !bit(deref(res)[old(len(deref(res)))].flags, 0)
  ensures backDrawn(lines, sidedefs, i, secondSdef) ==> deref(res)[len(deref(res)) - 1].StartVertex == &myVertices[vidx2] && deref(res)[len(deref(res)) - 1].EndVertex == &myVertices[vidx1]
  ensures backDrawn(lines, sidedefs, i, secondSdef) ==> deref(res)[len(deref(res)) - 1].Linedef == i && deref(res)[len(deref(res)) - 1].sector == sidedefs[secondSdef].Sector && bit(deref(res)[len(deref(res)) - 1].flags, 0)

property N01: DoomLinedefs.PruneUnusedVertices HexenLinedefs.PruneUnusedVertices DoomLinedefs.GetSidedefIndex HexenLinedefs.GetSidedefIndex DoomLinedefs.GetFlags HexenLinedefs.GetFlags DoomLinedefs.GetAction HexenLinedefs.GetAction DoomLinedefs.GetAllXY HexenLinedefs.GetAllXY DoomLinedefs.GetLinedefVertices HexenLinedefs.GetLinedefVertices DoomLinedefs.IsHorizonEffect DoomLinedefs.IsDoNotRender DoomLinedefs.IsTaggedPrecious HexenLinedefs.IsHorizonEffect HexenLinedefs.IsDoNotRender DoomLinedefs.GetBAMEffect HexenLinedefs.GetBAMEffect IsEmptyTexture storeNodeVertex canBeCulled_ForSegs NodesWork.recomputeOneSeg addSeg addSegsPerLine ZExt_NodesWork.recomputeOneSeg ZExt_addSeg ZExt_addSegsPerLine
