// Lines of sight: what is decided before any line is tested, which pairs of
// lines are tested, and how a pair is turned before the test

// --- trivial cases ---
opaque rowOf(n, k) = k / n
opaque colOf(n, k) = k - n * (k / n)

opaque cpos(n, i, j) = i * n + j

lemma posIn(n, i, j)
  requires 0 <= i < n && 0 <= j < n
  hint reveal(cpos(n, i, j))
  hint reveal(rowOf(n, i * n + j))
  hint reveal(colOf(n, i * n + j))
  hint (i * n + j) / n == i
  hint cellBound(n, i, j)
  ensures 0 <= cpos(n, i, j) < n * n
  ensures rowOf(n, cpos(n, i, j)) == i && colOf(n, cpos(n, i, j)) == j

lemma posIs(n, i, j)
  requires 0 <= i < n && 0 <= j < n
  hint reveal(cpos(n, i, j))
  hint cellBound(n, i, j)
  ensures cpos(n, i, j) == i * n + j
  ensures 0 <= cpos(n, i, j) < n * n

define slyAt(s, i) = has(s.slyLinesInSector, i) && s.slyLinesInSector[i]
define mayHide(r, s, a, b) = a != b && (r.sectors[a].numLines == 0 || r.sectors[b].numLines == 0) && !slyAt(s, a) && !slyAt(s, b)
define secsOk(r) = len(r.sectors) == r.numSectors && (forall a in 0..r.numSectors :: r.sectors[a].index == a && 0 <= r.sectors[a].numNeighbors <= len(r.sectors[a].neighbors) && (r.sectors[a].numNeighbors > 0 ==> r.sectors[a].numLines > 0)) && (forall a in 0..r.numSectors :: forall q in 0..r.sectors[a].numNeighbors :: r.sectors[a].neighbors[q] != nil && secOk(r, r.sectors[a].neighbors[q].index) && r.sectors[r.sectors[a].neighbors[q].index].numLines > 0)

define hideWell(r, s) = forall k in 0..r.numSectors * r.numSectors :: visRange(r.rejectTable[k]) && (r.rejectTable[k] == VIS_HIDDEN ==> mayHide(r, s, rowOf(r.numSectors, k), colOf(r.numSectors, k)))
define visBoth(r, a, b) = r.rejectTable[cpos(r.numSectors, a, b)] == VIS_VISIBLE && r.rejectTable[cpos(r.numSectors, b, a)] == VIS_VISIBLE
define selfVis(r, n) = forall a in 0..n :: r.rejectTable[cpos(r.numSectors, a, a)] == VIS_VISIBLE
define slyVis(r, s, n) = forall a in 0..n :: slyAt(s, a) ==> (forall b in 0..r.numSectors :: visBoth(r, a, b))
define nearVis(r, n) = forall a in 0..n :: forall q in 0..r.sectors[a].numNeighbors :: r.sectors[a].neighbors[q].index > a ==> visBoth(r, a, r.sectors[a].neighbors[q].index)
define trivInv(r, s, n) = hideWell(r, s) && selfVis(r, n) && slyVis(r, s, n) && nearVis(r, n)

define grpsRejectWork(r) = grpOk(r) && mixerOk(r)
define grpsFastRejectWork(r) = true
define modsRejectWork(r) = r.extra.mixer[*]
define modsFastRejectWork(r) = r.rejectTable[*]
foreach T in RejectWork FastRejectWork
func $T.eliminateTrivialCases(r, rsetup)
  requires tblOk(r) && secsOk(r) && !r.groupShareVis && grps$T(r)
  requires forall k in 0..len(r.rejectTable) :: r.rejectTable[k] == VIS_UNKNOWN
  modifies r.rejectTable[*], mods$T(r)
  hint forall a, b in 0..r.numSectors :: posIn(r.numSectors, a, b)
  callhint rejectTableIJ: reveal(cpos(r.numSectors, $arg1, $arg2))
  callhint markVisibilitySector: reveal(cpos(r.numSectors, $arg1, $arg2))
  callhint markVisibilitySector: reveal(cpos(r.numSectors, $arg2, $arg1))
  callhint markVisibility: reveal(cpos(r.numSectors, $arg1, $arg2))
  callhint markVisibility: reveal(cpos(r.numSectors, $arg2, $arg1))
  ensures hideWell(r, rsetup)
  ensures selfVis(r, r.numSectors)
  ensures slyVis(r, rsetup, r.numSectors)
  ensures nearVis(r, r.numSectors)
  loop 3
    invariant 0 <= i <= r.numSectors
    invariant hideWell(r, rsetup)
    invariant selfVis(r, i)
    invariant slyVis(r, rsetup, i)
    invariant nearVis(r, i)
  loop 4
    invariant 0 <= j <= r.numSectors
    invariant hideWell(r, rsetup)
    invariant selfVis(r, i + 1)
    invariant slyVis(r, rsetup, i)
    invariant nearVis(r, i)
  loop 5
    invariant 0 <= j <= r.numSectors
    invariant hideWell(r, rsetup)
    invariant selfVis(r, i + 1)
    invariant slyVis(r, rsetup, i)
    invariant nearVis(r, i)
    invariant forall b in 0..j :: visBoth(r, i, b)
    endhint r.rejectTable[cpos(r.numSectors, i, j - 1)] == VIS_VISIBLE
    endhint r.rejectTable[cpos(r.numSectors, j - 1, i)] == VIS_VISIBLE
  loop 6
    invariant 0 <= j <= r.numSectors
    invariant hideWell(r, rsetup)
    invariant selfVis(r, i + 1)
    invariant slyVis(r, rsetup, i)
    invariant nearVis(r, i)
    invariant forall b in 0..j :: visBoth(r, i, b)
    endhint r.rejectTable[cpos(r.numSectors, i, j - 1)] == VIS_VISIBLE
    endhint r.rejectTable[cpos(r.numSectors, j - 1, i)] == VIS_VISIBLE
  loop 7
    invariant 0 <= j
    invariant hideWell(r, rsetup)
    invariant selfVis(r, i + 1)
    invariant slyVis(r, rsetup, i + 1)
    invariant nearVis(r, i)
    invariant forall q in 0..j :: r.sectors[i].neighbors[q].index > i ==> visBoth(r, i, r.sectors[i].neighbors[q].index)
endfor

// the cell of a pair in the folded table, and the pair of a cell
lemma triStep(n, i, a)
  requires 0 <= i < a < n
  hint reveal(tri(n, i, i))
  hint reveal(tri(n, a, a))
  hint evenProd(i)
  hint evenProd(a)
  hint i * (2 * n - 1 - i) == 2 * (n * i) - (i * i + i)
  hint a * (2 * n - 1 - a) == 2 * (n * a) - (a * a + a)
  hint (a - i - 1) * (2 * (n - i) - (a - i)) >= 0
  hint (a - i) * (2 * (n - i) + 1 - (a - i)) >= 2 * (n - i)
  hint a * (2 * n - 1 - a) - i * (2 * n - 1 - i) == (a - i) * (2 * (n - i) - 1 - (a - i))
  hint (a - i) * (2 * (n - i) + 1 - (a - i)) == (a - i) * (2 * (n - i) - 1 - (a - i)) + 2 * (a - i)
  ensures tri(n, i, i) + (n - i) <= tri(n, a, a)

lemma triInj(n, i, j, a, b)
  requires 0 <= i <= j < n && 0 <= a <= b < n
  hint reveal(tri(n, i, j))
  hint reveal(tri(n, a, b))
  hint reveal(tri(n, i, i))
  hint reveal(tri(n, a, a))
  hint i < a ==> triStep(n, i, a)
  hint a < i ==> triStep(n, a, i)
  ensures tri(n, i, j) == tri(n, a, b) ==> i == a && j == b


// --- which line pairs are done: one bit per unordered pair ---
opaque pairPos(n, a, b) = ite(a < b, (a * (2*n - 1 - a)) / 2 + b - a - 1, (b * (2*n - 1 - b)) / 2 + a - b - 1)

lemma pairTri(n, a, b)
  requires 0 <= a < b < n
  hint reveal(pairPos(n, a, b))
  hint reveal(tri(n - 1, a, b - 1))
  hint a * (2*n - 1 - a) == a * (2*(n-1) - 1 - a) + 2 * a
  ensures pairPos(n, a, b) == tri(n - 1, a, b - 1)

lemma pairSym(n, a, b)
  requires a != b
  hint reveal(pairPos(n, a, b))
  hint reveal(pairPos(n, b, a))
  ensures pairPos(n, a, b) == pairPos(n, b, a)

lemma pairBound(n, a, b)
  requires 0 <= a < n && 0 <= b < n && a != b
  hint pairSym(n, a, b)
  hint a < b ==> pairTri(n, a, b)
  hint b < a ==> pairTri(n, b, a)
  hint a < b ==> triBound(n - 1, a, b - 1)
  hint b < a ==> triBound(n - 1, b, a - 1)
  hint reveal(triLen(n - 1))
  hint (n - 1) * (n - 1) == (n - 2) * (n - 1) + (n - 1)
  hint (n - 1) * n == (n - 2) * (n - 1) + 2 * (n - 1)
  ensures 0 <= pairPos(n, a, b)
  ensures 2 * pairPos(n, a, b) < (n - 1) * n

// two different pairs of lines never share a bit
lemma pairInj(n, a, b, c, d)
  requires 0 <= a < b < n && 0 <= c < d < n
  hint pairTri(n, a, b)
  hint pairTri(n, c, d)
  hint triInj(n - 1, a, b - 1, c, d - 1)
  ensures pairPos(n, a, b) == pairPos(n, c, d) ==> a == c && b == d

define lineIn(n, s) = 0 <= s.indexInLineVis < n
define pairOk(n, s, t) = 1 <= n <= 1000000 && lineIn(n, s) && lineIn(n, t) && s.indexInLineVis != t.indexInLineVis
define pp(n, s, t) = pairPos(n, s.indexInLineVis, t.indexInLineVis)
func getVisTableOffsetPrefab(srcLine, tgtLine, numTransLines)
  requires pairOk(numTransLines, srcLine, tgtLine)
  hint reveal(pairPos(numTransLines, srcLine.indexInLineVis, tgtLine.indexInLineVis))
  hint pairBound(numTransLines, srcLine.indexInLineVis, tgtLine.indexInLineVis)
  ensures result == pp(numTransLines, srcLine, tgtLine)

define nLines(r) = len(r.transLines)
define visOk(r) = len(r.lineVisDone) == ((nLines(r) - 1) * nLines(r) / 2 + 7) / 8
foreach T in RejectWork FastRejectWork SymmetricRejectWork
func $T.finishLineSetup(r, rsetup)
  requires 1 <= nLines(r) <= 1000000
  modifies r.lineVisDone
  ensures visOk(r) && (forall k in 0..len(r.lineVisDone) :: r.lineVisDone[k] == 0)
  loop 0
    invariant forall k in 0..len(r.lineVisDone) :: k < $k ==> r.lineVisDone[k] == 0

func $T.getLineVisibilityDone(r, srcLine, tgtLine)
  requires visOk(r) && (srcLine != tgtLine ==> pairOk(nLines(r), srcLine, tgtLine))
  hint srcLine != tgtLine ==> pairBound(nLines(r), srcLine.indexInLineVis, tgtLine.indexInLineVis)
  ensures srcLine == tgtLine ==> result
  ensures srcLine != tgtLine ==> result == (bitn(r.lineVisDone[pp(nLines(r), srcLine, tgtLine) / 8], pp(nLines(r), srcLine, tgtLine) % 8) == 1)

func $T.setLineVisibilityDone(r, srcLine, tgtLine)
  case pp(nLines(r), srcLine, tgtLine) % 8 == 0; pp(nLines(r), srcLine, tgtLine) % 8 == 1; pp(nLines(r), srcLine, tgtLine) % 8 == 2; pp(nLines(r), srcLine, tgtLine) % 8 == 3; pp(nLines(r), srcLine, tgtLine) % 8 == 4; pp(nLines(r), srcLine, tgtLine) % 8 == 5; pp(nLines(r), srcLine, tgtLine) % 8 == 6; pp(nLines(r), srcLine, tgtLine) % 8 == 7
  requires visOk(r) && (srcLine != tgtLine ==> pairOk(nLines(r), srcLine, tgtLine))
  modifies r.lineVisDone[*]
  hint srcLine != tgtLine ==> pairBound(nLines(r), srcLine.indexInLineVis, tgtLine.indexInLineVis)
  ensures srcLine == tgtLine ==> (forall q in 0..len(r.lineVisDone) :: r.lineVisDone[q] == old(r.lineVisDone[q]))
  ensures srcLine != tgtLine ==> bitn(r.lineVisDone[pp(nLines(r), srcLine, tgtLine) / 8], pp(nLines(r), srcLine, tgtLine) % 8) == 1
  ensures srcLine != tgtLine ==> (forall q in 0..len(r.lineVisDone) :: q != pp(nLines(r), srcLine, tgtLine) / 8 ==> r.lineVisDone[q] == old(r.lineVisDone[q]))
  ensures srcLine != tgtLine && pp(nLines(r), srcLine, tgtLine) % 8 != 0 ==> bitn(r.lineVisDone[pp(nLines(r), srcLine, tgtLine) / 8], 0) == old(bitn(r.lineVisDone[pp(nLines(r), srcLine, tgtLine) / 8], 0))
  ensures srcLine != tgtLine && pp(nLines(r), srcLine, tgtLine) % 8 != 1 ==> bitn(r.lineVisDone[pp(nLines(r), srcLine, tgtLine) / 8], 1) == old(bitn(r.lineVisDone[pp(nLines(r), srcLine, tgtLine) / 8], 1))
  ensures srcLine != tgtLine && pp(nLines(r), srcLine, tgtLine) % 8 != 2 ==> bitn(r.lineVisDone[pp(nLines(r), srcLine, tgtLine) / 8], 2) == old(bitn(r.lineVisDone[pp(nLines(r), srcLine, tgtLine) / 8], 2))
  ensures srcLine != tgtLine && pp(nLines(r), srcLine, tgtLine) % 8 != 3 ==> bitn(r.lineVisDone[pp(nLines(r), srcLine, tgtLine) / 8], 3) == old(bitn(r.lineVisDone[pp(nLines(r), srcLine, tgtLine) / 8], 3))
  ensures srcLine != tgtLine && pp(nLines(r), srcLine, tgtLine) % 8 != 4 ==> bitn(r.lineVisDone[pp(nLines(r), srcLine, tgtLine) / 8], 4) == old(bitn(r.lineVisDone[pp(nLines(r), srcLine, tgtLine) / 8], 4))
  ensures srcLine != tgtLine && pp(nLines(r), srcLine, tgtLine) % 8 != 5 ==> bitn(r.lineVisDone[pp(nLines(r), srcLine, tgtLine) / 8], 5) == old(bitn(r.lineVisDone[pp(nLines(r), srcLine, tgtLine) / 8], 5))
  ensures srcLine != tgtLine && pp(nLines(r), srcLine, tgtLine) % 8 != 6 ==> bitn(r.lineVisDone[pp(nLines(r), srcLine, tgtLine) / 8], 6) == old(bitn(r.lineVisDone[pp(nLines(r), srcLine, tgtLine) / 8], 6))
  ensures srcLine != tgtLine && pp(nLines(r), srcLine, tgtLine) % 8 != 7 ==> bitn(r.lineVisDone[pp(nLines(r), srcLine, tgtLine) / 8], 7) == old(bitn(r.lineVisDone[pp(nLines(r), srcLine, tgtLine) / 8], 7))
endfor

define cellKnown(r, a, b) = r.rejectTable[a * r.numSectors + b] != VIS_UNKNOWN
foreach T in RejectWork FastRejectWork
func $T.dontBother(r, srcLine, tgtLine)
  requires tblOk(r) && lineSec(r, srcLine) && lineSec(r, tgtLine)
  hint cellBound(r.numSectors, srcLine.frontSector, tgtLine.frontSector)
  hint cellBound(r.numSectors, srcLine.backSector, tgtLine.frontSector)
  hint cellBound(r.numSectors, srcLine.frontSector, tgtLine.backSector)
  hint cellBound(r.numSectors, srcLine.backSector, tgtLine.backSector)
  ensures result == (cellKnown(r, srcLine.frontSector, tgtLine.frontSector) && cellKnown(r, srcLine.frontSector, tgtLine.backSector) && cellKnown(r, srcLine.backSector, tgtLine.frontSector) && cellKnown(r, srcLine.backSector, tgtLine.backSector))
endfor

define symKnown(r, a, b) = r.rejectTable[tri(r.numSectors, a, b)] != VIS_UNKNOWN
func SymmetricRejectWork.dontBother(r, srcLine, tgtLine)
  requires symOk(r) && lineSec(r, srcLine) && lineSec(r, tgtLine)
  hint triBound(r.numSectors, srcLine.frontSector, tgtLine.frontSector)
  hint triBound(r.numSectors, srcLine.backSector, tgtLine.frontSector)
  hint triBound(r.numSectors, srcLine.frontSector, tgtLine.backSector)
  hint triBound(r.numSectors, srcLine.backSector, tgtLine.backSector)
  ensures result == (symKnown(r, srcLine.frontSector, tgtLine.frontSector) && symKnown(r, srcLine.frontSector, tgtLine.backSector) && symKnown(r, srcLine.backSector, tgtLine.frontSector) && symKnown(r, srcLine.backSector, tgtLine.backSector))

// --- which pairs can be told invisible from the lines alone, and how a pair is turned ---
define small16(v) = -65536 <= v <= 65536
define lnOk(l) = small16(l.start.X) && small16(l.start.Y) && small16(l.end.X) && small16(l.end.Y) && l.DX == l.end.X - l.start.X && l.DY == l.end.Y - l.start.Y
// > 0: left of line l, < 0: right of it
define crossOf(l, p) = l.DX * (p.Y - l.start.Y) - l.DY * (p.X - l.start.X)
define notLeft(l, m) = crossOf(l, m.start) <= 0 && crossOf(l, m.end) <= 0
define notRight(l, m) = crossOf(l, m.start) >= 0 && crossOf(l, m.end) >= 0
// line m has nothing on the side of line l that faces away from sector c
define behind(l, c, m) = ite(l.frontSector == c, notLeft(l, m), notRight(l, m))
func ShouldTest(src, key, tgt, sector)
  requires lnOk(src) && lnOk(tgt)
  ensures result == (!behind(src, key, tgt) && !behind(tgt, sector, src))

define crossV(a, b, p) = (b.X - a.X) * (p.Y - a.Y) - (b.Y - a.Y) * (p.X - a.X)
define smallV(p) = small16(p.X) && small16(p.Y)
func Intersects(p1, p2, t1, t2)
  requires smallV(p1) && smallV(p2) && smallV(t1) && smallV(t2)
  ensures result == 1 || result == 0 || result == -1 || result == -2
  ensures (result == 1) == (crossV(p1, p2, t1) > 0 && crossV(p1, p2, t2) > 0)
  ensures (result == -1) == (crossV(p1, p2, t1) <= 0 && crossV(p1, p2, t2) <= 0)
  ensures result == 0 ==> (crossV(t1, t2, p1) <= 0 || crossV(t1, t2, p2) <= 0) && (crossV(t1, t2, p1) >= 0 || crossV(t1, t2, p2) >= 0)
  ensures result == -2 ==> crossV(t1, t2, p1) > 0 && crossV(t1, t2, p2) > 0 || crossV(t1, t2, p1) < 0 && crossV(t1, t2, p2) < 0

func BlockMapBounds.update(bound, col)
  modifies bound.lo, bound.hi
  ensures bound.lo == ite(col < old(bound.lo), col, old(bound.lo)) && bound.hi == ite(col > old(bound.hi), col, old(bound.hi))

func TrimSetBounds(set)
  requires 0 <= set.loIndex && set.hiIndex < len(set.lines) && (forall k in 0..len(set.lines) :: k <= set.hiIndex ==> set.lines[k] != nil)
  modifies set.loIndex, set.hiIndex
  ensures old(set.loIndex) <= set.loIndex && set.hiIndex <= old(set.hiIndex)
  ensures result ==> set.loIndex <= set.hiIndex && !set.lines[set.loIndex].ignore && !set.lines[set.hiIndex].ignore
  ensures forall k in old(set.loIndex)..set.loIndex :: set.lines[k].ignore
  ensures forall k in set.hiIndex + 1..old(set.hiIndex) + 1 :: set.lines[k].ignore
  loop 0
    invariant old(set.loIndex) <= set.loIndex && set.loIndex < set.hiIndex && set.hiIndex == old(set.hiIndex)
    invariant forall k in old(set.loIndex)..set.loIndex :: set.lines[k].ignore
  loop 1
    invariant old(set.loIndex) <= set.loIndex && set.loIndex <= set.hiIndex && set.hiIndex <= old(set.hiIndex) && !set.lines[set.loIndex].ignore
    invariant forall k in old(set.loIndex)..set.loIndex :: set.lines[k].ignore
    invariant forall k in set.hiIndex + 1..old(set.hiIndex) + 1 :: set.lines[k].ignore
    decreases set.hiIndex

foreach T in RejectWork FastRejectWork SymmetricRejectWork
func $T.markAndRecall(r, cur)
  requires cur < 8 * len(r.seenLines)
  case cur % 8 == 0; cur % 8 == 1; cur % 8 == 2; cur % 8 == 3; cur % 8 == 4; cur % 8 == 5; cur % 8 == 6; cur % 8 == 7
  modifies r.seenLines[*]
  ensures result == (old(bitn(r.seenLines[cur / 8], cur % 8)) == 1)
  ensures bitn(r.seenLines[cur / 8], cur % 8) == 1
  ensures forall q in 0..len(r.seenLines) :: q != cur / 8 ==> r.seenLines[q] == old(r.seenLines[q])
  ensures cur % 8 != 0 ==> bitn(r.seenLines[cur / 8], 0) == old(bitn(r.seenLines[cur / 8], 0))
  ensures cur % 8 != 1 ==> bitn(r.seenLines[cur / 8], 1) == old(bitn(r.seenLines[cur / 8], 1))
  ensures cur % 8 != 2 ==> bitn(r.seenLines[cur / 8], 2) == old(bitn(r.seenLines[cur / 8], 2))
  ensures cur % 8 != 3 ==> bitn(r.seenLines[cur / 8], 3) == old(bitn(r.seenLines[cur / 8], 3))
  ensures cur % 8 != 4 ==> bitn(r.seenLines[cur / 8], 4) == old(bitn(r.seenLines[cur / 8], 4))
  ensures cur % 8 != 5 ==> bitn(r.seenLines[cur / 8], 5) == old(bitn(r.seenLines[cur / 8], 5))
  ensures cur % 8 != 6 ==> bitn(r.seenLines[cur / 8], 6) == old(bitn(r.seenLines[cur / 8], 6))
  ensures cur % 8 != 7 ==> bitn(r.seenLines[cur / 8], 7) == old(bitn(r.seenLines[cur / 8], 7))
endfor

// parallel vectors: which side of the second a point lies on follows from the first
lemma parSide(ax, ay, bx, by, cx, cy)
  requires ax * by - ay * bx == 0
  requires ax != 0 || ay != 0
  hint (ax*ax+ay*ay)*(bx*cy-by*cx) == (ax*bx+ay*by)*(ax*cy-ay*cx) - (ax*cx+ay*cy)*(ax*by-ay*bx)
  hint (ax*cx+ay*cy)*(ax*by-ay*bx) == 0
  hint ax * ax > 0 || ay * ay > 0
  hint ax * ax + ay * ay > 0
  ensures (ax*bx+ay*by) <= 0 && (ax*cy-ay*cx) <= 0 ==> (bx*cy-by*cx) >= 0
  ensures (ax*bx+ay*by) <= 0 && (ax*cy-ay*cx) >= 0 ==> (bx*cy-by*cx) <= 0
  ensures (ax*bx+ay*by) >= 0 && (ax*cy-ay*cx) <= 0 ==> (bx*cy-by*cx) <= 0
  ensures (ax*bx+ay*by) >= 0 && (ax*cy-ay*cx) >= 0 ==> (bx*cy-by*cx) >= 0

define sameEnds(l, a, b) = l.start == a && l.end == b || l.start == b && l.end == a
define thePair(s, t, sa, sb, ta, tb) = sameEnds(s, sa, sb) && sameEnds(t, ta, tb) || sameEnds(s, ta, tb) && sameEnds(t, sa, sb)
define crosses(l, m) = crossOf(l, m.start) > 0 && crossOf(l, m.end) < 0 || crossOf(l, m.start) < 0 && crossOf(l, m.end) > 0
func adjustLinePair(src, tgt, bisects)
  paths
  requires src != tgt && lnOk(src) && lnOk(tgt) && !deref(bisects)
  hint src.DX * src.end.Y == src.DX * src.start.Y + src.DX * src.DY
  hint src.DY * src.end.X == src.DY * src.start.X + src.DX * src.DY
  hint tgt.DX * tgt.end.Y == tgt.DX * tgt.start.Y + tgt.DX * tgt.DY
  hint tgt.DY * tgt.end.X == tgt.DY * tgt.start.X + tgt.DX * tgt.DY
  modifies *src, *tgt, *bisects
  hint src.DX * tgt.end.Y == src.DX * tgt.start.Y + src.DX * tgt.DY
  hint src.DY * tgt.end.X == src.DY * tgt.start.X + src.DY * tgt.DX
  hint src.DX * tgt.end.X == src.DX * tgt.start.X + src.DX * tgt.DX
  hint src.DY * tgt.end.Y == src.DY * tgt.start.Y + src.DY * tgt.DY
  hint tgt.DX * src.end.Y == tgt.DX * src.start.Y + tgt.DX * src.DY
  hint tgt.DY * src.end.X == tgt.DY * src.start.X + tgt.DY * src.DX
  exithint result && y1 == y2 ==> x2 - x1 == src.DX * tgt.DX + src.DY * tgt.DY || x1 - x2 == src.DX * tgt.DX + src.DY * tgt.DY
  exithint result && y1 == y2 ==> src.DX * tgt.DX + src.DY * tgt.DY <= 0
  exithint result && y1 == y2 ==> src.DX * tgt.DY - src.DY * tgt.DX == 0
  exithint result && y1 == y2 ==> src.DX != 0 || src.DY != 0
  exithint result && y1 == y2 ==> parSide(src.DX, src.DY, tgt.DX, tgt.DY, src.start.X - tgt.start.X, src.start.Y - tgt.start.Y)
  exithint result && y1 == y2 ==> parSide(src.DX, src.DY, tgt.DX, tgt.DY, src.end.X - tgt.start.X, src.end.Y - tgt.start.Y)
  ensures thePair(src, tgt, old(src.start), old(src.end), old(tgt.start), old(tgt.end))
  ensures lnOk(src) && lnOk(tgt)
  ensures !result ==> crossOf(src, tgt.start) == 0 && crossOf(src, tgt.end) == 0 || crosses(src, tgt)
  ensures result ==> notRight(src, tgt)
  ensures result && !deref(bisects) ==> crossOf(tgt, src.start) >= 0
  ensures result && !deref(bisects) ==> crossOf(tgt, src.end) >= 0
  ensures result && deref(bisects) ==> crosses(tgt, src)
  ensures result && deref(bisects) ==> crossOf(src, tgt.start) <= crossOf(src, tgt.end)

// --- trivial cases over the folded table ---
lemma triSwap(n, a, b)
  hint reveal(tri(n, a, b))
  hint reveal(tri(n, b, a))
  ensures tri(n, a, b) == tri(n, b, a)

lemma triApart(n, i, j, a, b)
  requires 0 <= i < n && 0 <= j < n && 0 <= a <= b < n
  hint triSwap(n, i, j)
  hint i <= j ==> triInj(n, i, j, a, b)
  hint j <= i ==> triInj(n, j, i, a, b)
  hint triBound(n, a, b)
  ensures 0 <= tri(n, a, b) < triLen(n)
  ensures tri(n, i, j) == tri(n, a, b) ==> i == a && j == b || i == b && j == a

define symCell(r, a, b) = r.rejectTable[tri(r.numSectors, a, b)]
define symHideWell(r, s) = forall a in 0..r.numSectors :: forall b in a..r.numSectors :: visRange(symCell(r, a, b)) && (symCell(r, a, b) == VIS_HIDDEN ==> mayHide(r, s, a, b))
define symVis(r, a, b) = ite(a <= b, symCell(r, a, b), symCell(r, b, a)) == VIS_VISIBLE
define symSelfVis(r, n) = forall a in 0..n :: symCell(r, a, a) == VIS_VISIBLE
define symSlyVis(r, s, n) = forall a in 0..n :: slyAt(s, a) ==> (forall b in 0..r.numSectors :: symVis(r, a, b))
define symNearVis(r, n) = forall a in 0..n :: forall q in 0..r.sectors[a].numNeighbors :: r.sectors[a].neighbors[q].index > a ==> symVis(r, a, r.sectors[a].neighbors[q].index)

func SymmetricRejectWork.eliminateTrivialCases(r, rsetup)
  requires symOk(r) && secsOk(r) && !r.groupShareVis
  requires forall k in 0..len(r.rejectTable) :: r.rejectTable[k] == VIS_UNKNOWN
  modifies r.rejectTable[*]
  hint forall a, b in 0..r.numSectors :: triSwap(r.numSectors, a, b)
  hint forall a, b in 0..r.numSectors :: a <= b ==> triApart(r.numSectors, a, b, a, b)
  callhint rejectTableIJ: forall a, b in 0..r.numSectors :: a <= b ==> triApart(r.numSectors, $arg1, $arg2, a, b)
  callhint markVisibilitySector: forall a, b in 0..r.numSectors :: a <= b ==> triApart(r.numSectors, $arg1, $arg2, a, b)
  callhint markVisibility: forall a, b in 0..r.numSectors :: a <= b ==> triApart(r.numSectors, $arg1, $arg2, a, b)
  ensures symHideWell(r, rsetup)
  ensures symSelfVis(r, r.numSectors)
  ensures symSlyVis(r, rsetup, r.numSectors)
  ensures symNearVis(r, r.numSectors)
  loop 3
    invariant 0 <= i <= r.numSectors
    invariant symHideWell(r, rsetup)
    invariant symSelfVis(r, i)
    invariant symSlyVis(r, rsetup, i)
    invariant symNearVis(r, i)
  loop 4
    invariant 0 <= j <= r.numSectors
    invariant symHideWell(r, rsetup)
    invariant symSelfVis(r, i + 1)
    invariant symSlyVis(r, rsetup, i)
    invariant symNearVis(r, i)
  loop 5
    invariant 0 <= j <= r.numSectors
    invariant symHideWell(r, rsetup)
    invariant symSelfVis(r, i + 1)
    invariant symSlyVis(r, rsetup, i)
    invariant symNearVis(r, i)
    invariant forall b in 0..j :: symVis(r, i, b)
    endhint symVis(r, i, j - 1)
  loop 6
    invariant 0 <= j <= r.numSectors
    invariant symHideWell(r, rsetup)
    invariant symSelfVis(r, i + 1)
    invariant symSlyVis(r, rsetup, i)
    invariant symNearVis(r, i)
    invariant forall b in 0..j :: symVis(r, i, b)
    endhint symVis(r, i, j - 1)
  loop 7
    invariant 0 <= j
    invariant symHideWell(r, rsetup)
    invariant symSelfVis(r, i + 1)
    invariant symSlyVis(r, rsetup, i + 1)
    invariant symNearVis(r, i)
    invariant forall q in 0..j :: r.sectors[i].neighbors[q].index > i ==> symVis(r, i, r.sectors[i].neighbors[q].index)

// --- graphs: sectors of different components are hidden from each other, nothing else is ---
define graphOk(r, g) = 0 <= g.numSectors <= len(g.sectors) && (forall a in 0..len(g.sectors) :: a < g.numSectors ==> g.sectors[a] != nil && secOk(r, g.sectors[a].index))
define cellOfPair(r, k, a, b) = k == a.index * r.numSectors + b.index || k == b.index * r.numSectors + a.index
define compsOf(r, o, n, k) = exists a in 0..o.numSectors :: exists b in 0..n.numSectors :: o.sectors[a].graph == o && cellOfPair(r, k, o.sectors[a], n.sectors[b])
define bothKnown(r, a, b) = r.rejectTable[a.index * r.numSectors + b.index] != VIS_UNKNOWN && r.rejectTable[b.index * r.numSectors + a.index] != VIS_UNKNOWN
define outside(r, g, root, s, k) = exists b in 0..g.numSectors :: (b < root.indexDFS || b > root.hiDFS) && cellOfPair(r, k, s, g.sectors[b])
func FastRejectWork.HideComponents(w, oldGraph, newGraph)
  requires tblOk(w) && graphOk(w, oldGraph) && graphOk(w, newGraph)
  modifies w.rejectTable[*]
  callhint markVisibility: cellBound(w.numSectors, $arg1, $arg2)
  callhint markVisibility: cellBound(w.numSectors, $arg2, $arg1)
  ensures forall k in 0..len(w.rejectTable) :: w.rejectTable[k] == old(w.rejectTable[k]) || old(w.rejectTable[k]) == VIS_UNKNOWN && w.rejectTable[k] == VIS_HIDDEN && compsOf(w, oldGraph, newGraph, k)
  ensures forall a in 0..oldGraph.numSectors :: forall b in 0..newGraph.numSectors :: oldGraph.sectors[a].graph == oldGraph ==> bothKnown(w, oldGraph.sectors[a], newGraph.sectors[b])
  loop 0
    invariant 0 <= i
    invariant forall k in 0..len(w.rejectTable) :: w.rejectTable[k] == old(w.rejectTable[k]) || old(w.rejectTable[k]) == VIS_UNKNOWN && w.rejectTable[k] == VIS_HIDDEN && compsOf(w, oldGraph, newGraph, k)
    invariant forall a in 0..oldGraph.numSectors :: a < i ==> (forall b in 0..newGraph.numSectors :: oldGraph.sectors[a].graph == oldGraph ==> bothKnown(w, oldGraph.sectors[a], newGraph.sectors[b]))
  loop 1
    invariant 0 <= j
    invariant forall k in 0..len(w.rejectTable) :: w.rejectTable[k] == old(w.rejectTable[k]) || old(w.rejectTable[k]) == VIS_UNKNOWN && w.rejectTable[k] == VIS_HIDDEN && compsOf(w, oldGraph, newGraph, k)
    invariant forall a in 0..oldGraph.numSectors :: a < i ==> (forall b in 0..newGraph.numSectors :: oldGraph.sectors[a].graph == oldGraph ==> bothKnown(w, oldGraph.sectors[a], newGraph.sectors[b]))
    invariant forall b in 0..newGraph.numSectors :: b < j ==> bothKnown(w, sec1, newGraph.sectors[b])

func FastRejectWork.HideSectorFromComponents(w, root, sec)
  requires tblOk(w) && secOk(w, sec.index) && graphOk(w, sec.graph) && 0 <= root.indexDFS <= root.hiDFS && root.hiDFS < sec.graph.numSectors
  modifies w.rejectTable[*]
  callhint markVisibility: cellBound(w.numSectors, $arg1, $arg2)
  callhint markVisibility: cellBound(w.numSectors, $arg2, $arg1)
  ensures forall k in 0..len(w.rejectTable) :: w.rejectTable[k] == old(w.rejectTable[k]) || old(w.rejectTable[k]) == VIS_UNKNOWN && w.rejectTable[k] == VIS_HIDDEN && outside(w, sec.graph, root, sec, k)
  ensures forall b in 0..sec.graph.numSectors :: b < root.indexDFS || b > root.hiDFS ==> bothKnown(w, sec, sec.graph.sectors[b])
  loop 0
    invariant forall k in 0..len(w.rejectTable) :: w.rejectTable[k] == old(w.rejectTable[k]) || old(w.rejectTable[k]) == VIS_UNKNOWN && w.rejectTable[k] == VIS_HIDDEN && outside(w, sec.graph, root, sec, k)
    invariant forall b in 0..sec.graph.numSectors :: b < rangeindex + 1 && b < root.indexDFS ==> bothKnown(w, sec, sec.graph.sectors[b])
  loop 1
    invariant forall k in 0..len(w.rejectTable) :: w.rejectTable[k] == old(w.rejectTable[k]) || old(w.rejectTable[k]) == VIS_UNKNOWN && w.rejectTable[k] == VIS_HIDDEN && outside(w, sec.graph, root, sec, k)
    invariant forall b in 0..sec.graph.numSectors :: b < root.indexDFS || b > root.hiDFS && b < root.hiDFS + 2 + rangeindex ==> bothKnown(w, sec, sec.graph.sectors[b])
func RejectWork.HideComponents(w, oldGraph, newGraph)
  requires !w.groupShareVis && grpOk(w) && mixerOk(w)
  requires tblOk(w) && graphOk(w, oldGraph) && graphOk(w, newGraph)
  modifies w.rejectTable[*], w.extra.mixer[*]
  callhint markVisibility: cellBound(w.numSectors, $arg1, $arg2)
  callhint markVisibility: cellBound(w.numSectors, $arg2, $arg1)
  ensures forall k in 0..len(w.rejectTable) :: w.rejectTable[k] == old(w.rejectTable[k]) || old(w.rejectTable[k]) == VIS_UNKNOWN && w.rejectTable[k] == VIS_HIDDEN && compsOf(w, oldGraph, newGraph, k)
  ensures forall a in 0..oldGraph.numSectors :: forall b in 0..newGraph.numSectors :: oldGraph.sectors[a].graph == oldGraph ==> bothKnown(w, oldGraph.sectors[a], newGraph.sectors[b])
  loop 0
    invariant 0 <= i
    invariant forall k in 0..len(w.rejectTable) :: w.rejectTable[k] == old(w.rejectTable[k]) || old(w.rejectTable[k]) == VIS_UNKNOWN && w.rejectTable[k] == VIS_HIDDEN && compsOf(w, oldGraph, newGraph, k)
    invariant forall a in 0..oldGraph.numSectors :: a < i ==> (forall b in 0..newGraph.numSectors :: oldGraph.sectors[a].graph == oldGraph ==> bothKnown(w, oldGraph.sectors[a], newGraph.sectors[b]))
  loop 1
    invariant 0 <= j
    invariant forall k in 0..len(w.rejectTable) :: w.rejectTable[k] == old(w.rejectTable[k]) || old(w.rejectTable[k]) == VIS_UNKNOWN && w.rejectTable[k] == VIS_HIDDEN && compsOf(w, oldGraph, newGraph, k)
    invariant forall a in 0..oldGraph.numSectors :: a < i ==> (forall b in 0..newGraph.numSectors :: oldGraph.sectors[a].graph == oldGraph ==> bothKnown(w, oldGraph.sectors[a], newGraph.sectors[b]))
    invariant forall b in 0..newGraph.numSectors :: b < j ==> bothKnown(w, sec1, newGraph.sectors[b])

func RejectWork.HideSectorFromComponents(w, root, sec)
  requires !w.groupShareVis && grpOk(w) && mixerOk(w)
  requires tblOk(w) && secOk(w, sec.index) && graphOk(w, sec.graph) && 0 <= root.indexDFS <= root.hiDFS && root.hiDFS < sec.graph.numSectors
  modifies w.rejectTable[*], w.extra.mixer[*]
  callhint markVisibility: cellBound(w.numSectors, $arg1, $arg2)
  callhint markVisibility: cellBound(w.numSectors, $arg2, $arg1)
  ensures forall k in 0..len(w.rejectTable) :: w.rejectTable[k] == old(w.rejectTable[k]) || old(w.rejectTable[k]) == VIS_UNKNOWN && w.rejectTable[k] == VIS_HIDDEN && outside(w, sec.graph, root, sec, k)
  ensures forall b in 0..sec.graph.numSectors :: b < root.indexDFS || b > root.hiDFS ==> bothKnown(w, sec, sec.graph.sectors[b])
  loop 0
    invariant forall k in 0..len(w.rejectTable) :: w.rejectTable[k] == old(w.rejectTable[k]) || old(w.rejectTable[k]) == VIS_UNKNOWN && w.rejectTable[k] == VIS_HIDDEN && outside(w, sec.graph, root, sec, k)
    invariant forall b in 0..sec.graph.numSectors :: b < rangeindex + 1 && b < root.indexDFS ==> bothKnown(w, sec, sec.graph.sectors[b])
  loop 1
    invariant forall k in 0..len(w.rejectTable) :: w.rejectTable[k] == old(w.rejectTable[k]) || old(w.rejectTable[k]) == VIS_UNKNOWN && w.rejectTable[k] == VIS_HIDDEN && outside(w, sec.graph, root, sec, k)
    invariant forall b in 0..sec.graph.numSectors :: b < root.indexDFS || b > root.hiDFS && b < root.hiDFS + 2 + rangeindex ==> bothKnown(w, sec, sec.graph.sectors[b])

define symCompsOf(r, o, n, k) = exists a in 0..o.numSectors :: exists b in 0..n.numSectors :: o.sectors[a].graph == o && k == tri(r.numSectors, o.sectors[a].index, n.sectors[b].index)
define symOutside(r, g, root, s, k) = exists b in 0..g.numSectors :: (b < root.indexDFS || b > root.hiDFS) && k == tri(r.numSectors, s.index, g.sectors[b].index)
define symBothKnown(r, a, b) = r.rejectTable[tri(r.numSectors, a.index, b.index)] != VIS_UNKNOWN
func SymmetricRejectWork.HideComponents(w, oldGraph, newGraph)
  requires symOk(w) && graphOk(w, oldGraph) && graphOk(w, newGraph)
  modifies w.rejectTable[*]
  hint forall a, b in 0..w.numSectors :: triBound(w.numSectors, a, b)
  ensures forall k in 0..len(w.rejectTable) :: w.rejectTable[k] == old(w.rejectTable[k]) || old(w.rejectTable[k]) == VIS_UNKNOWN && w.rejectTable[k] == VIS_HIDDEN && symCompsOf(w, oldGraph, newGraph, k)
  ensures forall a in 0..oldGraph.numSectors :: forall b in 0..newGraph.numSectors :: oldGraph.sectors[a].graph == oldGraph ==> symBothKnown(w, oldGraph.sectors[a], newGraph.sectors[b])
  loop 0
    invariant 0 <= i
    invariant forall k in 0..len(w.rejectTable) :: w.rejectTable[k] == old(w.rejectTable[k]) || old(w.rejectTable[k]) == VIS_UNKNOWN && w.rejectTable[k] == VIS_HIDDEN && symCompsOf(w, oldGraph, newGraph, k)
    invariant forall a in 0..oldGraph.numSectors :: a < i ==> (forall b in 0..newGraph.numSectors :: oldGraph.sectors[a].graph == oldGraph ==> symBothKnown(w, oldGraph.sectors[a], newGraph.sectors[b]))
  loop 1
    invariant 0 <= j
    invariant forall k in 0..len(w.rejectTable) :: w.rejectTable[k] == old(w.rejectTable[k]) || old(w.rejectTable[k]) == VIS_UNKNOWN && w.rejectTable[k] == VIS_HIDDEN && symCompsOf(w, oldGraph, newGraph, k)
    invariant forall a in 0..oldGraph.numSectors :: a < i ==> (forall b in 0..newGraph.numSectors :: oldGraph.sectors[a].graph == oldGraph ==> symBothKnown(w, oldGraph.sectors[a], newGraph.sectors[b]))
    invariant forall b in 0..newGraph.numSectors :: b < j ==> symBothKnown(w, sec1, newGraph.sectors[b])

func SymmetricRejectWork.HideSectorFromComponents(w, root, sec)
  requires symOk(w) && secOk(w, sec.index) && graphOk(w, sec.graph) && 0 <= root.indexDFS <= root.hiDFS && root.hiDFS < sec.graph.numSectors
  modifies w.rejectTable[*]
  hint forall a, b in 0..w.numSectors :: triBound(w.numSectors, a, b)
  ensures forall k in 0..len(w.rejectTable) :: w.rejectTable[k] == old(w.rejectTable[k]) || old(w.rejectTable[k]) == VIS_UNKNOWN && w.rejectTable[k] == VIS_HIDDEN && symOutside(w, sec.graph, root, sec, k)
  ensures forall b in 0..sec.graph.numSectors :: b < root.indexDFS || b > root.hiDFS ==> symBothKnown(w, sec, sec.graph.sectors[b])
  loop 0
    invariant forall k in 0..len(w.rejectTable) :: w.rejectTable[k] == old(w.rejectTable[k]) || old(w.rejectTable[k]) == VIS_UNKNOWN && w.rejectTable[k] == VIS_HIDDEN && symOutside(w, sec.graph, root, sec, k)
    invariant forall b in 0..sec.graph.numSectors :: b < rangeindex + 1 && b < root.indexDFS ==> symBothKnown(w, sec, sec.graph.sectors[b])
  loop 1
    invariant forall k in 0..len(w.rejectTable) :: w.rejectTable[k] == old(w.rejectTable[k]) || old(w.rejectTable[k]) == VIS_UNKNOWN && w.rejectTable[k] == VIS_HIDDEN && symOutside(w, sec.graph, root, sec, k)
    invariant forall b in 0..sec.graph.numSectors :: b < root.indexDFS || b > root.hiDFS && b < root.hiDFS + 2 + rangeindex ==> symBothKnown(w, sec, sec.graph.sectors[b])

// --- the world of one check: the quadrilateral src.start, src.end, tgt.start, tgt.end ---
foreach T in RejectWork FastRejectWork SymmetricRejectWork
func $T.initializeWorld(r, world, src, tgt)
  requires src != tgt && len(r.polyPoints) >= 2 * (len(r.solidLines) + 2)
  requires src.start != nil && src.end != nil && tgt.start != nil && tgt.end != nil
  requires obj(src.start) != obj(r) && obj(src.end) != obj(r) && obj(tgt.start) != obj(r) && obj(tgt.end) != obj(r)
  modifies *world, r.p1, r.p2, r.p3, r.p4, src.loPoint, src.hiPoint, src.lo, src.hi, tgt.loPoint, tgt.hiPoint, tgt.lo, tgt.hi, r.polyPoints[*]
  ensures world.src == src && world.tgt == tgt && world.solidSet.loIndex == 0 && world.solidSet.hiIndex == -1
  ensures world.lowerPoly.numPoints == 2 && world.lowerPoly.points[0] == src.hiPoint && world.lowerPoly.points[1] == tgt.loPoint
  ensures world.upperPoly.numPoints == 2 && world.upperPoly.points[0] == tgt.hiPoint && world.upperPoly.points[1] == src.loPoint
  ensures len(world.lowerPoly.points) >= len(r.solidLines) + 2 && len(world.upperPoly.points) >= len(r.solidLines) + 2
endfor

property V01: RejectWork.eliminateTrivialCases FastRejectWork.eliminateTrivialCases SymmetricRejectWork.eliminateTrivialCases RejectWork.HideComponents FastRejectWork.HideComponents SymmetricRejectWork.HideComponents RejectWork.HideSectorFromComponents FastRejectWork.HideSectorFromComponents SymmetricRejectWork.HideSectorFromComponents
property V01: lemma:pairInj getVisTableOffsetPrefab RejectWork.getLineVisibilityDone FastRejectWork.getLineVisibilityDone SymmetricRejectWork.getLineVisibilityDone RejectWork.setLineVisibilityDone FastRejectWork.setLineVisibilityDone SymmetricRejectWork.setLineVisibilityDone RejectWork.finishLineSetup FastRejectWork.finishLineSetup SymmetricRejectWork.finishLineSetup RejectWork.dontBother FastRejectWork.dontBother SymmetricRejectWork.dontBother
property V01: ShouldTest adjustLinePair RejectWork.initializeWorld FastRejectWork.initializeWorld SymmetricRejectWork.initializeWorld RejectWork.markAndRecall FastRejectWork.markAndRecall SymmetricRejectWork.markAndRecall BlockMapBounds.update TrimSetBounds Intersects
bounded V01: that checkLOS, divideRegion, TrimLines, FindPolyLines and FindObstacles (polylines with float64 slopes) never find a clear line blocked, that every pair of lines is tested (ProcessSectorLines, the order of sectors), and the setup of lines and of the solid blockmap: whole runs over random maps, straight segments between random points of two sectors compared with the bits written
