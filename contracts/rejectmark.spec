// Writes of visibility into the working table

define visRange(v) = v == VIS_UNKNOWN || v == VIS_VISIBLE || v == VIS_HIDDEN
define tblOk(r) = 1 <= r.numSectors <= 65536 && len(r.rejectTable) == r.numSectors * r.numSectors + 7
define secOk(r, i) = 0 <= i < r.numSectors

lemma cellBound(n, i, j)
  requires 0 <= i < n && 0 <= j < n
  hint i * n <= (n - 1) * n
  ensures 0 <= i * n + j
  ensures i * n + j < n * n

lemma cellInj(n, i, j, a, b)
  requires 0 <= i < n && 0 <= j < n && 0 <= a < n && 0 <= b < n
  hint i < a ==> i * n + n <= a * n
  hint i > a ==> a * n + n <= i * n
  ensures i * n + j == a * n + b ==> i == a && j == b

foreach T in RejectWork FastRejectWork
func $T.prepareReject(r)
  requires 0 <= r.numSectors <= 65536
  modifies r.rejectTable
  loop 0
    invariant forall k in 0..len(r.rejectTable) :: r.rejectTable[k] == VIS_UNKNOWN
  ensures len(r.rejectTable) == r.numSectors * r.numSectors + 7 && fresh(r.rejectTable)
  ensures forall k in 0..len(r.rejectTable) :: r.rejectTable[k] == VIS_UNKNOWN

func $T.rejectTableIJ(r, i, j)
  requires tblOk(r) && secOk(r, i) && secOk(r, j)
  hint cellBound(r.numSectors, i, j)
  ensures obj(result) == obj(r.rejectTable) && off(result) == off(r.rejectTable) + i * r.numSectors + j
endfor

func SymmetricRejectWork.prepareReject(r)
  requires 1 <= r.numSectors <= 65536
  modifies r.rejectTable, r.symmShim
  hint reveal(triLen(r.numSectors))
  loop 0
    invariant forall k in 0..len(r.rejectTable) :: r.rejectTable[k] == VIS_UNKNOWN
  ensures symOk(r) && fresh(r.rejectTable)
  ensures forall k in 0..len(r.rejectTable) :: r.rejectTable[k] == VIS_UNKNOWN

define marked2(r, i, j, v) = forall k in 0..len(r.rejectTable) :: r.rejectTable[k] == ite((k == i * r.numSectors + j || k == j * r.numSectors + i) && old(r.rejectTable[k]) == VIS_UNKNOWN, v, old(r.rejectTable[k]))
define symMarked(r, i, j, v) = forall k in 0..len(r.rejectTable) :: r.rejectTable[k] == ite(k == tri(r.numSectors, i, j) && old(r.rejectTable[k]) == VIS_UNKNOWN, v, old(r.rejectTable[k]))

foreach T in RejectWork FastRejectWork
func $T.markVisibilitySector(r, i, j, visibility)
  requires tblOk(r) && secOk(r, i) && secOk(r, j)
  modifies r.rejectTable[*]
  hint cellBound(r.numSectors, i, j)
  hint cellBound(r.numSectors, j, i)
  ensures marked2(r, i, j, visibility)
endfor

func FastRejectWork.markVisibility(r, i, j, visibility)
  requires tblOk(r) && secOk(r, i) && secOk(r, j)
  modifies r.rejectTable[*]
  hint cellBound(r.numSectors, i, j)
  hint cellBound(r.numSectors, j, i)
  ensures marked2(r, i, j, visibility)

foreach F in markVisibility markVisibilitySector
func SymmetricRejectWork.$F(r, i, j, visibility)
  requires symOk(r) && secOk(r, i) && secOk(r, j)
  modifies r.rejectTable[*]
  hint triBound(r.numSectors, i, j)
  hint triBound(r.numSectors, j, i)
  ensures symMarked(r, i, j, visibility)
endfor

// --- the four sector pairs of a visible line pair ---
define pairCell(r, s, t, k) = k == s.frontSector * r.numSectors + t.frontSector || k == t.frontSector * r.numSectors + s.frontSector || k == s.backSector * r.numSectors + t.frontSector || k == t.frontSector * r.numSectors + s.backSector || k == s.frontSector * r.numSectors + t.backSector || k == t.backSector * r.numSectors + s.frontSector || k == s.backSector * r.numSectors + t.backSector || k == t.backSector * r.numSectors + s.backSector
define symPairCell(r, s, t, k) = k == tri(r.numSectors, s.frontSector, t.frontSector) || k == tri(r.numSectors, s.backSector, t.frontSector) || k == tri(r.numSectors, s.frontSector, t.backSector) || k == tri(r.numSectors, s.backSector, t.backSector)
define lineSec(r, l) = l.frontSector < r.numSectors && l.backSector < r.numSectors
define noGroups(r) = !r.groupShareVis

func FastRejectWork.markPairVisible(r, srcLine, tgtLine)
  requires tblOk(r) && lineSec(r, srcLine) && lineSec(r, tgtLine)
  modifies r.rejectTable[*]
  ensures forall k in 0..len(r.rejectTable) :: r.rejectTable[k] == ite(pairCell(r, srcLine, tgtLine, k) && old(r.rejectTable[k]) == VIS_UNKNOWN, VIS_VISIBLE, old(r.rejectTable[k]))

func SymmetricRejectWork.markPairVisible(r, srcLine, tgtLine)
  requires symOk(r) && lineSec(r, srcLine) && lineSec(r, tgtLine)
  modifies r.rejectTable[*]
  ensures forall k in 0..len(r.rejectTable) :: r.rejectTable[k] == ite(symPairCell(r, srcLine, tgtLine, k) && old(r.rejectTable[k]) == VIS_UNKNOWN, VIS_VISIBLE, old(r.rejectTable[k]))

// --- groups: every member lists in-range sectors, parents are in range ---
define grpOk(r) = len(r.groups) == r.numSectors && (forall g in 0..len(r.groups) :: 0 <= r.groups[g].parent < r.numSectors && (forall q in 0..len(r.groups[g].sectors) :: 0 <= r.groups[g].sectors[q] < r.numSectors))
define grpPar(r, i) = r.groups[r.groups[i].parent].sectors
// cell k of table t only ever moves from unknown to v
define onlyUnknown(t, v) = forall k in 0..len(t) :: t[k] == old(t[k]) || old(t[k]) == VIS_UNKNOWN && t[k] == v

func RejectWork.mixerIJ(r, i, j)
  requires tblOk(r) && secOk(r, i) && secOk(r, j) && len(r.extra.mixer) == len(r.rejectTable)
  hint cellBound(r.numSectors, i, j)
  ensures obj(result) == obj(r.extra.mixer) && off(result) == off(r.extra.mixer) + i * r.numSectors + j

func RejectWork.mixerSetVisibility(r, i, j, visibility)
  requires tblOk(r) && secOk(r, i) && secOk(r, j) && len(r.extra.mixer) == len(r.rejectTable)
  modifies r.extra.mixer[*]
  hint cellBound(r.numSectors, i, j)
  hint cellBound(r.numSectors, j, i)
  ensures forall k in 0..len(r.extra.mixer) :: r.extra.mixer[k] == ite((k == i * r.numSectors + j || k == j * r.numSectors + i) && old(r.extra.mixer[k]) == VIS_UNKNOWN, visibility, old(r.extra.mixer[k]))

func RejectWork.setupMixer(w)
  requires tblOk(w)
  modifies w.extra.mixer
  ensures fresh(w.extra.mixer) && len(w.extra.mixer) == len(w.rejectTable) && (forall k in 0..len(w.rejectTable) :: w.extra.mixer[k] == w.rejectTable[k])

func RejectWork.mergeAndDestroyMixer(w)
  requires tblOk(w) && len(w.extra.mixer) == len(w.rejectTable) && obj(w.extra.mixer) != obj(w.rejectTable)
  modifies w.extra.mixer, w.rejectTable[*]
  loop 0
    invariant forall k in 0..len(w.rejectTable) :: w.rejectTable[k] == ite(k < $k && old(w.rejectTable[k]) == VIS_UNKNOWN, old(w.extra.mixer[k]), old(w.rejectTable[k]))
  ensures forall k in 0..len(w.rejectTable) :: w.rejectTable[k] == ite(old(w.rejectTable[k]) == VIS_UNKNOWN, old(w.extra.mixer[k]), old(w.rejectTable[k]))
  ensures len(w.extra.mixer) == 0

define mixerOk(r) = r.extra.mixer == nil || len(r.extra.mixer) == len(r.rejectTable) && obj(r.extra.mixer) != obj(r.rejectTable)
define sameAsBefore(t) = forall k in 0..len(t) :: t[k] == old(t[k])
define decidedPair(r, s, t) = r.rejectTable[s * r.numSectors + t] != VIS_UNKNOWN && r.rejectTable[t * r.numSectors + s] != VIS_UNKNOWN
define mixedPair(r, s, t) = r.extra.mixer[s * r.numSectors + t] != VIS_UNKNOWN && r.extra.mixer[t * r.numSectors + s] != VIS_UNKNOWN

define pairsOnly(r, t, gI, gJ) = forall k in 0..len(t) :: t[k] == old(t[k]) || (exists a in 0..len(gI) :: exists b in 0..len(gJ) :: k == gI[a] * r.numSectors + gJ[b] || k == gJ[b] * r.numSectors + gI[a])
func RejectWork.markVisibilityGroup(r, i, j, visibility)
  requires tblOk(r) && grpOk(r) && secOk(r, i) && secOk(r, j) && mixerOk(r)
  requires visibility != VIS_UNKNOWN
  modifies r.rejectTable[*], r.extra.mixer[*]
  callhint mixerSetVisibility: cellBound(r.numSectors, $arg1, $arg2)
  callhint mixerSetVisibility: cellBound(r.numSectors, $arg2, $arg1)
  callhint markVisibilitySector: cellBound(r.numSectors, $arg1, $arg2)
  callhint markVisibilitySector: cellBound(r.numSectors, $arg2, $arg1)
  ensures visibility == VIS_HIDDEN && old(r.extra.mixer) != nil ==> sameAsBefore(r.rejectTable) && onlyUnknown(r.extra.mixer, visibility)
  ensures visibility != VIS_HIDDEN || old(r.extra.mixer) == nil ==> sameAsBefore(r.extra.mixer) && onlyUnknown(r.rejectTable, visibility)
  ensures visibility != VIS_HIDDEN || old(r.extra.mixer) == nil ==> (forall a in 0..len(grpPar(r, i)) :: forall b in 0..len(grpPar(r, j)) :: decidedPair(r, grpPar(r, i)[a], grpPar(r, j)[b]))
  ensures visibility == VIS_HIDDEN && old(r.extra.mixer) != nil ==> (forall a in 0..len(grpPar(r, i)) :: forall b in 0..len(grpPar(r, j)) :: mixedPair(r, grpPar(r, i)[a], grpPar(r, j)[b]))
  ensures pairsOnly(r, r.rejectTable, grpPar(r, i), grpPar(r, j))
  ensures old(r.extra.mixer) != nil ==> pairsOnly(r, r.extra.mixer, grpPar(r, i), grpPar(r, j))
  loop 0
    invariant onlyUnknown(r.extra.mixer, visibility)
    invariant pairsOnly(r, r.extra.mixer, groupI, groupJ)
    invariant forall a in 0..$k0 :: forall b in 0..len(groupJ) :: mixedPair(r, groupI[a], groupJ[b])
  loop 1
    invariant onlyUnknown(r.extra.mixer, visibility)
    invariant pairsOnly(r, r.extra.mixer, groupI, groupJ)
    invariant forall a in 0..$k0 :: forall b in 0..len(groupJ) :: mixedPair(r, groupI[a], groupJ[b])
    invariant forall b in 0..$k1 :: mixedPair(r, groupI[$k0], groupJ[b])
  loop 2
    invariant onlyUnknown(r.rejectTable, visibility)
    invariant pairsOnly(r, r.rejectTable, groupI, groupJ)
    invariant forall a in 0..$k2 :: forall b in 0..len(groupJ) :: decidedPair(r, groupI[a], groupJ[b])
  loop 3
    invariant onlyUnknown(r.rejectTable, visibility)
    invariant pairsOnly(r, r.rejectTable, groupI, groupJ)
    invariant forall a in 0..$k2 :: forall b in 0..len(groupJ) :: decidedPair(r, groupI[a], groupJ[b])
    invariant forall b in 0..$k3 :: decidedPair(r, groupI[$k2], groupJ[b])

define lonely(r, i) = r.groups[i].legal && len(r.groups[i].sectors) == 1
define simplePair(r, i, j) = !r.groupShareVis || lonely(r, i) && lonely(r, j)
define toMixer(r, v) = v == VIS_HIDDEN && r.extra.mixer != nil

func RejectWork.markVisibility(r, i, j, visibility)
  requires tblOk(r) && grpOk(r) && secOk(r, i) && secOk(r, j) && mixerOk(r)
  requires visibility != VIS_UNKNOWN
  modifies r.rejectTable[*], r.extra.mixer[*]
  hint cellBound(r.numSectors, i, j)
  hint cellBound(r.numSectors, j, i)
  ensures old(simplePair(r, i, j)) ==> marked2(r, i, j, visibility)
  ensures old(simplePair(r, i, j)) || !old(toMixer(r, visibility)) ==> decidedPair(r, i, j) || !old(simplePair(r, i, j))
  ensures onlyUnknown(r.rejectTable, visibility)
  ensures r.extra.mixer != nil ==> onlyUnknown(r.extra.mixer, visibility)
  ensures !old(simplePair(r, i, j)) ==> pairsOnly(r, r.rejectTable, grpPar(r, i), grpPar(r, j))
  ensures !old(simplePair(r, i, j)) && !old(toMixer(r, visibility)) ==> (forall a in 0..len(grpPar(r, i)) :: forall b in 0..len(grpPar(r, j)) :: decidedPair(r, grpPar(r, i)[a], grpPar(r, j)[b]))
  ensures !old(simplePair(r, i, j)) && old(toMixer(r, visibility)) ==> sameAsBefore(r.rejectTable)

func RejectWork.markPairVisible(r, srcLine, tgtLine)
  requires tblOk(r) && grpOk(r) && mixerOk(r) && lineSec(r, srcLine) && lineSec(r, tgtLine)
  modifies r.rejectTable[*], r.extra.mixer[*]
  hint cellBound(r.numSectors, srcLine.frontSector, tgtLine.frontSector)
  hint cellBound(r.numSectors, srcLine.backSector, tgtLine.frontSector)
  hint cellBound(r.numSectors, srcLine.frontSector, tgtLine.backSector)
  hint cellBound(r.numSectors, srcLine.backSector, tgtLine.backSector)
  hint cellBound(r.numSectors, tgtLine.frontSector, srcLine.frontSector)
  hint cellBound(r.numSectors, tgtLine.backSector, srcLine.frontSector)
  hint cellBound(r.numSectors, tgtLine.frontSector, srcLine.backSector)
  hint cellBound(r.numSectors, tgtLine.backSector, srcLine.backSector)
  ensures onlyUnknown(r.rejectTable, VIS_VISIBLE)
  ensures !r.groupShareVis ==> (forall k in 0..len(r.rejectTable) :: r.rejectTable[k] == ite(pairCell(r, srcLine, tgtLine, k) && old(r.rejectTable[k]) == VIS_UNKNOWN, VIS_VISIBLE, old(r.rejectTable[k])))
  ensures simplePair(r, srcLine.frontSector, tgtLine.frontSector) ==> decidedPair(r, srcLine.frontSector, tgtLine.frontSector)
  ensures simplePair(r, srcLine.backSector, tgtLine.frontSector) ==> decidedPair(r, srcLine.backSector, tgtLine.frontSector)
  ensures simplePair(r, srcLine.frontSector, tgtLine.backSector) ==> decidedPair(r, srcLine.frontSector, tgtLine.backSector)
  ensures simplePair(r, srcLine.backSector, tgtLine.backSector) ==> decidedPair(r, srcLine.backSector, tgtLine.backSector)

// RMB options write whole groups, over whatever the cell held
define grpOwn(r) = len(r.groups) == r.numSectors && (forall g in 0..len(r.groups) :: forall q in 0..len(r.groups[g].sectors) :: 0 <= r.groups[g].sectors[q] < r.numSectors)
define own(r, i) = r.groups[i].sectors
foreach T in RejectWork FastRejectWork
func $T.forceVisibility(r, i, j, visibility)
  requires tblOk(r) && secOk(r, i) && secOk(r, j)
  requires r.hasGroups ==> grpOwn(r)
  modifies r.rejectTable[*]
  hint cellBound(r.numSectors, i, j)
  callhint rejectTableIJ: cellBound(r.numSectors, $arg1, $arg2)
  ensures !r.hasGroups ==> (forall k in 0..len(r.rejectTable) :: r.rejectTable[k] == ite(k == i * r.numSectors + j, visibility, old(r.rejectTable[k])))
  ensures r.hasGroups ==> (forall a in 0..len(own(r, i)) :: forall b in 0..len(own(r, j)) :: r.rejectTable[own(r, i)[a] * r.numSectors + own(r, j)[b]] == visibility)
  ensures r.hasGroups ==> (forall k in 0..len(r.rejectTable) :: r.rejectTable[k] == old(r.rejectTable[k]) || r.rejectTable[k] == visibility && (exists a in 0..len(own(r, i)) :: exists b in 0..len(own(r, j)) :: k == own(r, i)[a] * r.numSectors + own(r, j)[b]))
  exithint forall a, b in 0..r.numSectors :: posIn(r.numSectors, a, b)
  exithint forall a, b in 0..r.numSectors :: posIs(r.numSectors, a, b)
  ensures forall a, b in 0..r.numSectors :: cellAt(r, a, b) == ite(memOf(r, i, a) && memOf(r, j, b), visibility, old(cellAt(r, a, b)))
  loop 0
    invariant forall a in 0..$k0 :: forall b in 0..len(groupJ) :: r.rejectTable[groupI[a] * r.numSectors + groupJ[b]] == visibility
    invariant forall k in 0..len(r.rejectTable) :: r.rejectTable[k] == old(r.rejectTable[k]) || r.rejectTable[k] == visibility && (exists a in 0..len(groupI) :: exists b in 0..len(groupJ) :: k == groupI[a] * r.numSectors + groupJ[b])
  loop 1
    invariant forall a in 0..$k0 :: forall b in 0..len(groupJ) :: r.rejectTable[groupI[a] * r.numSectors + groupJ[b]] == visibility
    invariant forall b in 0..$k1 :: r.rejectTable[groupI[$k0] * r.numSectors + groupJ[b]] == visibility
    invariant forall k in 0..len(r.rejectTable) :: r.rejectTable[k] == old(r.rejectTable[k]) || r.rejectTable[k] == visibility && (exists a in 0..len(groupI) :: exists b in 0..len(groupJ) :: k == groupI[a] * r.numSectors + groupJ[b])
endfor

func SymmetricRejectWork.forceVisibility(r, i, j, visibility)
  requires symOk(r) && secOk(r, i) && secOk(r, j)
  requires r.hasGroups ==> grpOwn(r)
  modifies r.rejectTable[*]
  hint triBound(r.numSectors, i, j)
  callhint rejectTableIJ: triBound(r.numSectors, $arg1, $arg2)
  ensures !r.hasGroups ==> (forall k in 0..len(r.rejectTable) :: r.rejectTable[k] == ite(k == tri(r.numSectors, i, j), visibility, old(r.rejectTable[k])))
  ensures r.hasGroups ==> (forall a in 0..len(own(r, i)) :: forall b in 0..len(own(r, j)) :: r.rejectTable[tri(r.numSectors, own(r, i)[a], own(r, j)[b])] == visibility)
  ensures r.hasGroups ==> (forall k in 0..len(r.rejectTable) :: r.rejectTable[k] == old(r.rejectTable[k]) || r.rejectTable[k] == visibility && (exists a in 0..len(own(r, i)) :: exists b in 0..len(own(r, j)) :: k == tri(r.numSectors, own(r, i)[a], own(r, j)[b])))
  loop 0
    invariant forall a in 0..$k0 :: forall b in 0..len(groupJ) :: r.rejectTable[tri(r.numSectors, groupI[a], groupJ[b])] == visibility
    invariant forall k in 0..len(r.rejectTable) :: r.rejectTable[k] == old(r.rejectTable[k]) || r.rejectTable[k] == visibility && (exists a in 0..len(groupI) :: exists b in 0..len(groupJ) :: k == tri(r.numSectors, groupI[a], groupJ[b]))
  loop 1
    invariant forall a in 0..$k0 :: forall b in 0..len(groupJ) :: r.rejectTable[tri(r.numSectors, groupI[a], groupJ[b])] == visibility
    invariant forall b in 0..$k1 :: r.rejectTable[tri(r.numSectors, groupI[$k0], groupJ[b])] == visibility
    invariant forall k in 0..len(r.rejectTable) :: r.rejectTable[k] == old(r.rejectTable[k]) || r.rejectTable[k] == visibility && (exists a in 0..len(groupI) :: exists b in 0..len(groupJ) :: k == tri(r.numSectors, groupI[a], groupJ[b]))

property R02: RejectWork.markVisibility FastRejectWork.markVisibility SymmetricRejectWork.markVisibility RejectWork.markPairVisible FastRejectWork.markPairVisible SymmetricRejectWork.markPairVisible RejectWork.markVisibilitySector FastRejectWork.markVisibilitySector SymmetricRejectWork.markVisibilitySector RejectWork.markVisibilityGroup RejectWork.forceVisibility FastRejectWork.forceVisibility SymmetricRejectWork.forceVisibility RejectWork.setupMixer RejectWork.mergeAndDestroyMixer
