// ---- node lumps encode the tree that was built
// A finite tree laid out: every node has a position, the size of its subtree, and (for the
// straight order) the place where its descendants start. These labels are ghost: any finite
// binary tree has exactly one such labelling.
ghost ndPos(int, int) int
ghost ndSize(int, int) int
ghost ndBase(int, int) int
ghost ndObj(int) int
ghost ndOff(int) int
define nd(i) = ptr(NodeInProcess, ndObj(i), ndOff(i))
define pos(n) = ndPos(obj(n), off(n))
define size(n) = ndSize(obj(n), off(n))
define base(n) = ndBase(obj(n), off(n))
define sizeOr0(n) = ite(n == nil, 0, size(n))
define known(n, N) = n == nil || 0 <= pos(n) < N && nd(pos(n)) == n && size(n) >= 1
// right subtree first, then left, then the node itself
define reversedAt(i, N) = nd(i) != nil && pos(nd(i)) == i && known(nd(i).nextR, N) && known(nd(i).nextL, N) && size(nd(i)) == 1 + sizeOr0(nd(i).nextR) + sizeOr0(nd(i).nextL) && size(nd(i)) <= i + 1 && (nd(i).nextL != nil ==> pos(nd(i).nextL) == i - 1) && (nd(i).nextR != nil ==> pos(nd(i).nextR) == i - 1 - sizeOr0(nd(i).nextL))
define reversedTree(N) = forall i in 0..N :: reversedAt(i, N)
// children next to each other, descendants of the right child before those of the left one
define straightAt(i, N) = nd(i) != nil && pos(nd(i)) == i && known(nd(i).nextR, N) && known(nd(i).nextL, N) && size(nd(i)) == 1 + sizeOr0(nd(i).nextR) + sizeOr0(nd(i).nextL) && 0 <= base(nd(i)) && base(nd(i)) + size(nd(i)) <= N && (nd(i).nextR != nil ==> pos(nd(i).nextR) == base(nd(i)) && base(nd(i).nextR) == base(nd(i)) + ite(nd(i).nextL != nil, 2, 1)) && (nd(i).nextL != nil ==> pos(nd(i).nextL) == base(nd(i)) + ite(nd(i).nextR != nil, 1, 0) && base(nd(i).nextL) == base(nd(i)) + 1 + sizeOr0(nd(i).nextR)) 
define straightTree(N) = forall i in 0..N :: straightAt(i, N)

define isLeafRef(c) = c >= 2147483648
opaque vanRef(c) = ite(isLeafRef(c), int16((c - 2147483648) % 65536 + ite((c - 2147483648) % 65536 < 32768, 32768, 0)), int16(c))
define boxIs(b, c) = b[0] == c[0] && b[1] == c[1] && b[2] == c[2] && b[3] == c[3]
define geomIs(r, n) = r.X == n.X && r.Y == n.Y && r.Dx == n.Dx && r.Dy == n.Dy && boxIs(r.Rbox, n.Rbox) && boxIs(r.Lbox, n.Lbox)
// a child that is a node is referred to by its position, one that is a subsector keeps its reference
define kidsOk(n) = (n.nextR != nil ==> n.RChild == pos(n.nextR)) && (n.nextR == nil ==> n.RChild == old(n.RChild)) && (n.nextL != nil ==> n.LChild == pos(n.nextL)) && (n.nextL == nil ==> n.LChild == old(n.LChild))
define vanRefs(r, n) = r.RChild == vanRef(n.RChild) && r.LChild == vanRef(n.LChild)
define deepRef(c) = ite(c < 2147483648, c, c - 4294967296)
define deepRefs(r, n) = r.RChild == deepRef(n.RChild) && r.LChild == deepRef(n.LChild)
define kidsKept(n) = n.RChild == old(n.RChild) && n.LChild == old(n.LChild)

func convertToSsectorMask(childIdx, ssectorMask)
  requires ssectorMask == 32768
  hint reveal(vanRef(childIdx))
  ensures result == vanRef(childIdx)

func NodesWork.reverseNodes(w, node)
  requires w.SsectorMask == 32768 && w.totals != nil && obj(w) != obj(w.totals)
  requires 1 <= w.totals.numNodes <= 1073741824
  requires known(node, w.totals.numNodes) && node != nil
  requires !config.StraightNodes ==> reversedTree(w.totals.numNodes)
  requires config.StraightNodes ==> straightTree(w.totals.numNodes) && pos(node) == w.totals.numNodes - 1 && size(node) == w.totals.numNodes && base(node) == 0
  requires w.nodes == nil ==> pos(node) + 1 == size(node)
  requires w.nodes != nil ==> len(w.nodes) == w.totals.numNodes && w.nreverse == pos(node) + 1 - size(node)
  modifies w.nodes, w.nreverse, w.nodes[*], any(NodeInProcess.RChild), any(NodeInProcess.LChild)
  ensures result == pos(node) && len(w.nodes) == w.totals.numNodes
  ensures old(w.nodes != nil) ==> same(w.nodes, old(w.nodes))
  ensures !config.StraightNodes ==> w.nreverse == pos(node) + 1
  ensures forall i in 0..w.totals.numNodes :: pos(node) + 1 - size(node) <= i <= pos(node) ==> geomIs(w.nodes[i], nd(i))
  ensures forall i in 0..w.totals.numNodes :: pos(node) + 1 - size(node) <= i <= pos(node) ==> kidsOk(nd(i))
  ensures forall i in 0..w.totals.numNodes :: pos(node) + 1 - size(node) <= i <= pos(node) ==> vanRefs(w.nodes[i], nd(i))
  ensures forall i in 0..w.totals.numNodes :: i < pos(node) + 1 - size(node) || i > pos(node) ==> kidsKept(nd(i)) && (old(w.nodes != nil) ==> unchanged(w.nodes[i]))

// Writes the descendants of the node from the current free place on
func NodesWork.convertNodesStraight(w, node, idx)
  requires w.SsectorMask == 32768 && w.totals != nil && 1 <= w.totals.numNodes <= 1073741824
  requires straightTree(w.totals.numNodes) && known(node, w.totals.numNodes) && node != nil
  requires pos(node) == idx && w.nreverse == base(node) && len(w.nodes) == w.totals.numNodes
  requires pos(node) < base(node) || pos(node) >= base(node) + size(node) - 1
  modifies w.nreverse, w.nodes[*], any(NodeInProcess.RChild), any(NodeInProcess.LChild)
  ensures result == idx && w.nreverse == old(w.nreverse) + size(node) - 1
  ensures geomIs(w.nodes[idx], nd(idx))
  ensures kidsOk(nd(idx))
  ensures vanRefs(w.nodes[idx], nd(idx))
  ensures forall i in 0..w.totals.numNodes :: base(node) <= i < base(node) + size(node) - 1 ==> geomIs(w.nodes[i], nd(i))
  ensures forall i in 0..w.totals.numNodes :: base(node) <= i < base(node) + size(node) - 1 ==> kidsOk(nd(i))
  ensures forall i in 0..w.totals.numNodes :: base(node) <= i < base(node) + size(node) - 1 ==> vanRefs(w.nodes[i], nd(i))
  ensures forall i in 0..w.totals.numNodes :: (i < base(node) || i >= base(node) + size(node) - 1) && i != idx ==> kidsKept(nd(i)) && unchanged(w.nodes[i])

foreach T in NodesWork ZExt_NodesWork
func $T.reverseDeepNodes(w, node)
  requires w.totals != nil && obj(w) != obj(w.totals)
  requires 1 <= w.totals.numNodes <= 1073741824
  requires known(node, w.totals.numNodes) && node != nil
  requires !config.StraightNodes ==> reversedTree(w.totals.numNodes)
  requires config.StraightNodes ==> straightTree(w.totals.numNodes) && pos(node) == w.totals.numNodes - 1 && size(node) == w.totals.numNodes && base(node) == 0
  requires w.deepNodes == nil ==> pos(node) + 1 == size(node)
  requires w.deepNodes != nil ==> len(w.deepNodes) == w.totals.numNodes && w.nreverse == pos(node) + 1 - size(node)
  modifies w.deepNodes, w.nreverse, w.deepNodes[*], any(NodeInProcess.RChild), any(NodeInProcess.LChild)
  ensures result == pos(node) && len(w.deepNodes) == w.totals.numNodes
  ensures old(w.deepNodes != nil) ==> same(w.deepNodes, old(w.deepNodes))
  ensures !config.StraightNodes ==> w.nreverse == pos(node) + 1
  ensures forall i in 0..w.totals.numNodes :: pos(node) + 1 - size(node) <= i <= pos(node) ==> geomIs(w.deepNodes[i], nd(i))
  ensures forall i in 0..w.totals.numNodes :: pos(node) + 1 - size(node) <= i <= pos(node) ==> kidsOk(nd(i))
  ensures forall i in 0..w.totals.numNodes :: pos(node) + 1 - size(node) <= i <= pos(node) ==> deepRefs(w.deepNodes[i], nd(i))
  ensures forall i in 0..w.totals.numNodes :: i < pos(node) + 1 - size(node) || i > pos(node) ==> kidsKept(nd(i)) && (old(w.deepNodes != nil) ==> unchanged(w.deepNodes[i]))

// Writes the descendants of the node from the current free place on
func $T.convertDeepNodesStraight(w, node, idx)
  requires w.totals != nil && 1 <= w.totals.numNodes <= 1073741824
  requires straightTree(w.totals.numNodes) && known(node, w.totals.numNodes) && node != nil
  requires pos(node) == idx && w.nreverse == base(node) && len(w.deepNodes) == w.totals.numNodes
  requires pos(node) < base(node) || pos(node) >= base(node) + size(node) - 1
  modifies w.nreverse, w.deepNodes[*], any(NodeInProcess.RChild), any(NodeInProcess.LChild)
  ensures result == idx && w.nreverse == old(w.nreverse) + size(node) - 1
  ensures geomIs(w.deepNodes[idx], nd(idx))
  ensures kidsOk(nd(idx))
  ensures deepRefs(w.deepNodes[idx], nd(idx))
  ensures forall i in 0..w.totals.numNodes :: base(node) <= i < base(node) + size(node) - 1 ==> geomIs(w.deepNodes[i], nd(i))
  ensures forall i in 0..w.totals.numNodes :: base(node) <= i < base(node) + size(node) - 1 ==> kidsOk(nd(i))
  ensures forall i in 0..w.totals.numNodes :: base(node) <= i < base(node) + size(node) - 1 ==> deepRefs(w.deepNodes[i], nd(i))
  ensures forall i in 0..w.totals.numNodes :: (i < base(node) || i >= base(node) + size(node) - 1) && i != idx ==> kidsKept(nd(i)) && unchanged(w.deepNodes[i])
endfor

// ---- subsectors own consecutive runs of segs: ssFirst is where each begins
ghost ssFirst(int) int
define subsOk(w) = ssFirst(0) == 0 && ssFirst(len(w.subsectors)) == len(w.segs) && len(w.segs) < 1073741824 && (forall i in 0..len(w.subsectors) :: 0 <= ssFirst(i) && ssFirst(i + 1) == ssFirst(i) + w.subsectors[i].SegCount && ssFirst(i + 1) <= len(w.segs)) && (forall i in 0..len(w.subsectors)+1 :: forall j in i..len(w.subsectors)+1 :: ssFirst(i) <= ssFirst(j))
define widened(d, s) = d.StartVertex == s.StartVertex && d.EndVertex == s.EndVertex && d.Angle == s.Angle && d.Linedef == s.Linedef && d.Flip == s.Flip && d.Offset == s.Offset

func NodesWork.upgradeToDeep(w)
  requires subsOk(w) && w.deepSegs == nil
  modifies w.deepSegs, w.deepSubsectors, w.segs, w.subsectors, w.SsectorMask, w.nodeType
  loop 0
    invariant forall k in 0..rangeindex+1 :: widened(w.deepSegs[k], w.segs[k])
  loop 1
    invariant firstSeg == ssFirst(rangeindex + 1)
    invariant forall k in 0..rangeindex+1 :: w.deepSubsectors[k].FirstSeg == ssFirst(k) && w.deepSubsectors[k].SegCount == w.subsectors[k].SegCount
  ensures len(w.deepSegs) == old(len(w.segs)) && len(w.deepSubsectors) == old(len(w.subsectors)) && fresh(w.deepSegs) && fresh(w.deepSubsectors)
  ensures forall k in 0..len(w.deepSegs) :: widened(w.deepSegs[k], old(w.segs[k]))
  ensures forall k in 0..len(w.deepSubsectors) :: w.deepSubsectors[k].FirstSeg == ssFirst(k) && w.deepSubsectors[k].SegCount == old(w.subsectors[k].SegCount)
  ensures w.segs == nil && w.subsectors == nil && w.SsectorMask == 2147483648 && w.nodeType == NODETYPE_DEEP

func NodesWork.lastSubsectorOverflows(w, maxSegIndex)
  requires len(w.subsectors) > 0
  ensures result == (len(w.segs) > w.subsectors[len(w.subsectors) - 1].FirstSeg + w.subsectors[len(w.subsectors) - 1].SegCount || w.subsectors[len(w.subsectors) - 1].FirstSeg > maxSegIndex)

// moves the largest run to the end; every subsector still has exactly its own segs
define maxIs(w) = w.totals != nil && (forall i in 0..len(w.subsectors) :: w.subsectors[i].SegCount <= w.totals.maxSegCountInSubsector) && (exists i in 0..len(w.subsectors) :: w.subsectors[i].SegCount == w.totals.maxSegCountInSubsector)
define ownSegs(w, i) = forall j in 0..w.subsectors[i].SegCount :: w.segs[w.subsectors[i].FirstSeg + j] == old(w.segs[ssFirst(i) + j])
func NodesWork.fitSegsToTarget(w, maxSegIndex, dryRun) (ok, which)
  requires subsOk(w) && maxIs(w)
  requires forall i in 0..len(w.subsectors) :: w.subsectors[i].FirstSeg == uint16(ssFirst(i))
  modifies w.segs, w.segs[*], w.subsectors[*].FirstSeg
  loop 0
    invariant -1 <= i < len(w.subsectors)
    invariant biggestSubsector == -1 || i < biggestSubsector < len(w.subsectors) && w.subsectors[biggestSubsector].SegCount == w.totals.maxSegCountInSubsector
    invariant biggestSubsector == -1 ==> (forall k in i+1..len(w.subsectors) :: w.subsectors[k].SegCount != w.totals.maxSegCountInSubsector)
  loop 1
    invariant biggestSubsector + 1 <= i <= len(w.subsectors)
    invariant newAddr == ssFirst(i) - w.totals.maxSegCountInSubsector
    invariant forall k in 0..biggestSubsector+1 :: w.subsectors[k].FirstSeg == ssFirst(k)
    invariant forall k in biggestSubsector+1..i :: w.subsectors[k].FirstSeg == ssFirst(k) - w.totals.maxSegCountInSubsector
  ensures ok == (len(w.segs) - w.totals.maxSegCountInSubsector <= maxSegIndex)
  ensures !ok || dryRun ==> unchanged(w.segs) && (forall i in 0..len(w.subsectors) :: unchanged(w.subsectors[i])) && (forall i in 0..len(w.segs) :: unchanged(w.segs[i]))
  ensures len(w.segs) == old(len(w.segs))
  ensures ok && !dryRun ==> (forall i in 0..len(w.subsectors) :: w.subsectors[i].FirstSeg <= maxSegIndex)
  ensures ok && !dryRun ==> 0 <= which < len(w.subsectors)
  exithint ok && !dryRun ==> (forall i in 0..which :: w.subsectors[i].FirstSeg + w.subsectors[i].SegCount <= len(w.segs))
  exithint ok && !dryRun ==> w.subsectors[which].FirstSeg + w.subsectors[which].SegCount <= len(w.segs)
  exithint ok && !dryRun ==> (forall i in which+1..len(w.subsectors) :: w.subsectors[i].FirstSeg + w.subsectors[i].SegCount <= len(w.segs))
  ensures ok && !dryRun ==> (forall i in 0..len(w.subsectors) :: w.subsectors[i].FirstSeg + w.subsectors[i].SegCount <= len(w.segs))
  exithint ok && !dryRun ==> (forall i in 0..which :: ownSegs(w, i))
  exithint ok && !dryRun ==> ownSegs(w, which)
  exithint ok && !dryRun ==> (forall i in which+1..len(w.subsectors) :: ownSegs(w, i))
  ensures ok && !dryRun ==> (forall i in 0..len(w.subsectors) :: ownSegs(w, i))

// ---- a subsector takes over its list of segs, in order
ghost lsObj(int) int
ghost lsOff(int) int
ghost lsLen(int) int
define ls(k) = ptr(NodeSeg, lsObj(k), lsOff(k))
define lsN() = lsLen(0)
define flipOf(s) = ite(bit(s.flags, 0), 1, 0)
define segList(t) = 1 <= lsN() <= 65535 && t == ls(0) && ls(lsN() - 1).next == nil && (forall k in 0..lsN() :: ls(k) != nil && ls(k).StartVertex != nil && ls(k).EndVertex != nil) && (forall k in 0..lsN()-1 :: ls(k).next == ls(k + 1))
define deepSegIs(d, s) = d.StartVertex == s.StartVertex.idx && d.EndVertex == s.EndVertex.idx && d.Angle == s.Angle && d.Linedef == s.Linedef && d.Flip == flipOf(s) && d.Offset == s.Offset
define vanSegIs(d, s) = d.StartVertex == uint16(s.StartVertex.idx) && d.EndVertex == uint16(s.EndVertex.idx) && d.Angle == s.Angle && d.Linedef == s.Linedef && d.Flip == flipOf(s) && d.Offset == s.Offset

foreach T in NodeSeg ZExt_NodeSeg
func $T.getFlip(s)
  ensures result == flipOf(s)
endfor

define willDeepen(w) = w.upgradableToDeep && w.nodeType == NODETYPE_VANILLA && bit(w.totals.numSSectors + 1, 15)
define nSubs(w) = ite(w.nodeType == NODETYPE_DEEP, len(w.deepSubsectors), len(w.subsectors))
define nSegs(w) = ite(w.nodeType == NODETYPE_DEEP, len(w.deepSegs), len(w.segs))
func NodesWork.CreateSSector(w, tmps)
  requires segList(tmps) && w.totals != nil && obj(w) != obj(w.totals) && w.mlog != nil
  requires w.nodeType != NODETYPE_DEEP ==> subsOk(w) && w.deepSegs == nil
  requires obj(w.segs) != obj(w.deepSegs) && obj(w.subsectors) != obj(w.deepSubsectors)
  requires nSubs(w) == w.totals.numSSectors && w.totals.numSSectors < 1073741824 && nSegs(w) < 1073741824
  modifies w.totals.numSSectors, w.totals.maxSegCountInSubsector, w.totals.numSegs, w.deepSegs, w.deepSubsectors, w.segs, w.subsectors, w.SsectorMask, w.nodeType, w.deepSegs[*], w.deepSubsectors[*], w.segs[*], w.subsectors[*], any(NodeSeg.block), any(NodeSeg.nextInSuper)
  loop 0
    invariant len(w.deepSegs) >= oldNumSegs && len(w.deepSegs) - oldNumSegs <= lsN()
    invariant ite(len(w.deepSegs) - oldNumSegs == lsN(), tmps == nil, tmps == ls(len(w.deepSegs) - oldNumSegs))
    invariant (old(w.nodeType == NODETYPE_DEEP) && obj(w.deepSegs) == old(obj(w.deepSegs)) && off(w.deepSegs) == old(off(w.deepSegs)) || fresh(w.deepSegs))
    invariant old(w.nodeType == NODETYPE_DEEP) ==> (forall k in 0..oldNumSegs :: w.deepSegs[k] == old(w.deepSegs[k]))
    invariant old(w.nodeType != NODETYPE_DEEP) ==> (forall k in 0..oldNumSegs :: widened(w.deepSegs[k], old(w.segs[k])))
    invariant forall j in 0..len(w.deepSegs)-oldNumSegs :: deepSegIs(w.deepSegs[oldNumSegs + j], ls(j))
  loop 1
    invariant len(w.segs) >= oldNumSegs && len(w.segs) - oldNumSegs <= lsN()
    invariant ite(len(w.segs) - oldNumSegs == lsN(), tmps == nil, tmps == ls(len(w.segs) - oldNumSegs))
    invariant (obj(w.segs) == old(obj(w.segs)) && off(w.segs) == old(off(w.segs)) || fresh(w.segs)) && (forall k in 0..oldNumSegs :: w.segs[k] == old(w.segs[k]))
    invariant forall j in 0..len(w.segs)-oldNumSegs :: vanSegIs(w.segs[oldNumSegs + j], ls(j))
  ensures result == old(w.totals.numSSectors) && w.totals.numSSectors == result + 1 && nSubs(w) == result + 1
  ensures w.totals.numSegs == uint32(old(w.totals.numSegs) + lsN())
  ensures w.totals.maxSegCountInSubsector == max(old(w.totals.maxSegCountInSubsector), lsN())
  ensures nSegs(w) == old(nSegs(w)) + lsN()
  ensures ite(old(willDeepen(w)), w.nodeType == NODETYPE_DEEP && w.SsectorMask == 2147483648, unchanged(w.nodeType) && unchanged(w.SsectorMask))
  ensures w.nodeType == NODETYPE_DEEP ==> w.deepSubsectors[result].FirstSeg == old(nSegs(w)) && w.deepSubsectors[result].SegCount == lsN()
  ensures w.nodeType == NODETYPE_DEEP ==> (forall j in 0..lsN() :: deepSegIs(w.deepSegs[old(nSegs(w)) + j], ls(j)))
  ensures w.nodeType != NODETYPE_DEEP ==> w.subsectors[result].FirstSeg == uint16(old(nSegs(w))) && w.subsectors[result].SegCount == lsN()
  ensures w.nodeType != NODETYPE_DEEP ==> (forall j in 0..lsN() :: vanSegIs(w.segs[old(nSegs(w)) + j], ls(j)))
  ensures old(w.nodeType == NODETYPE_DEEP) ==> (forall k in 0..old(len(w.deepSegs)) :: w.deepSegs[k] == old(w.deepSegs[k])) && (forall k in 0..result :: w.deepSubsectors[k] == old(w.deepSubsectors[k]))
  ensures w.nodeType != NODETYPE_DEEP ==> (forall k in 0..old(len(w.segs)) :: w.segs[k] == old(w.segs[k])) && (forall k in 0..result :: w.subsectors[k] == old(w.subsectors[k]))
  ensures old(w.nodeType != NODETYPE_DEEP) && w.nodeType == NODETYPE_DEEP ==> (forall k in 0..old(len(w.segs)) :: widened(w.deepSegs[k], old(w.segs[k]))) && (forall k in 0..result :: w.deepSubsectors[k].FirstSeg == ssFirst(k) && w.deepSubsectors[k].SegCount == old(w.subsectors[k].SegCount))

define zls(k) = ptr(ZExt_NodeSeg, lsObj(k), lsOff(k))
define zsegList(t) = 1 <= lsN() <= 65535 && t == zls(0) && zls(lsN() - 1).next == nil && (forall k in 0..lsN() :: zls(k) != nil && zls(k).StartVertex != nil && zls(k).EndVertex != nil) && (forall k in 0..lsN()-1 :: zls(k).next == zls(k + 1))
define extSegIs(d, s) = d.StartVertex == s.StartVertex.idx && d.EndVertex == s.EndVertex.idx && d.Linedef == s.Linedef && d.Flip == flipOf(s)
func ZExt_NodesWork.CreateSSector(w, tmps)
  requires zsegList(tmps) && w.totals != nil && obj(w) != obj(w.totals)
  requires len(w.zdoomSubsectors) < 1073741824 && len(w.zdoomSegs) < 1073741824
  modifies w.totals.numSSectors, w.totals.maxSegCountInSubsector, w.totals.numSegs, w.zdoomSegs, w.zdoomSubsectors, w.zdoomSegs[*], w.zdoomSubsectors[*], any(ZExt_NodeSeg.block), any(ZExt_NodeSeg.nextInSuper)
  loop 0
    invariant len(w.zdoomSegs) >= oldNumSegs && len(w.zdoomSegs) - oldNumSegs <= lsN()
    invariant ite(len(w.zdoomSegs) - oldNumSegs == lsN(), tmps == nil, tmps == zls(len(w.zdoomSegs) - oldNumSegs))
    invariant (obj(w.zdoomSegs) == old(obj(w.zdoomSegs)) && off(w.zdoomSegs) == old(off(w.zdoomSegs)) || fresh(w.zdoomSegs)) && (forall k in 0..oldNumSegs :: w.zdoomSegs[k] == old(w.zdoomSegs[k]))
    invariant forall j in 0..len(w.zdoomSegs)-oldNumSegs :: extSegIs(w.zdoomSegs[oldNumSegs + j], zls(j))
  ensures result == old(len(w.zdoomSubsectors)) && w.totals.numSSectors == old(w.totals.numSSectors) + 1 && len(w.zdoomSubsectors) == result + 1
  ensures w.totals.numSegs == uint32(old(w.totals.numSegs) + lsN())
  ensures w.totals.maxSegCountInSubsector == max(old(w.totals.maxSegCountInSubsector), lsN())
  ensures len(w.zdoomSegs) == old(len(w.zdoomSegs)) + lsN() && w.zdoomSubsectors[result] == lsN()
  ensures forall j in 0..lsN() :: extSegIs(w.zdoomSegs[old(len(w.zdoomSegs)) + j], zls(j))
  ensures (forall k in 0..old(len(w.zdoomSegs)) :: w.zdoomSegs[k] == old(w.zdoomSegs[k])) && (forall k in 0..result :: w.zdoomSubsectors[k] == old(w.zdoomSubsectors[k]))

func getFirstSegExtended(ssubsectors, ssector)
  requires 0 <= ssector <= len(ssubsectors)
  requires ssFirst(0) == 0 && (forall i in 0..len(ssubsectors) :: 0 <= ssFirst(i) <= 1073741824 && ssFirst(i + 1) == ssFirst(i) + ssubsectors[i] && ssFirst(i + 1) <= 1073741824)
  loop 0
    invariant i <= ssector && cum == ssFirst(i)
  ensures result == ssFirst(ssector)

// unless it reports failure, every subsector refers to exactly its own segs afterwards
func NodesWork.tooManySegsCantFix(w, dryRun)
  requires w.segs != nil ==> subsOk(w) && (len(w.subsectors) > 0 ==> maxIs(w)) && (forall i in 0..len(w.subsectors) :: w.subsectors[i].FirstSeg == uint16(ssFirst(i)))
  modifies w.segs, w.segs[*], w.subsectors[*].FirstSeg
  ensures w.segs == nil ==> !result
  ensures len(w.segs) == old(len(w.segs)) && len(w.subsectors) == old(len(w.subsectors))
  ensures dryRun || result ==> unchanged(w.segs) && (forall i in 0..len(w.subsectors) :: unchanged(w.subsectors[i])) && (forall i in 0..len(w.segs) :: unchanged(w.segs[i]))
  ensures w.segs != nil && !result && !dryRun ==> (forall i in 0..len(w.subsectors) :: w.subsectors[i].FirstSeg + w.subsectors[i].SegCount <= len(w.segs))
  ensures w.segs != nil && !result && !dryRun ==> (forall i in 0..len(w.subsectors) :: ownSegs(w, i))
  ensures w.segs != nil && len(w.subsectors) > 0 && result ==> w.totals.maxSegCountInSubsector + 65535 < len(w.segs) 
  ensures w.segs != nil && len(w.subsectors) > 0 && !result ==> len(w.segs) - w.totals.maxSegCountInSubsector <= 65535

// number of vertices the map's lines know of
ghostvar linesVerts int
iface WriteableLines.AddVertex(o, x, y)
  modifies linesVerts
  ensures result == old(linesVerts) && linesVerts == result + 1
foreach T in DoomLinedefs HexenLinedefs
func $T.AddVertex(o, X, Y)
  modifies o.vertices, o.vertices[*]
  ensures result == old(len(o.vertices)) && len(o.vertices) == result + 1
  ensures o.vertices[result].XPos == int16(X) && o.vertices[result].YPos == int16(Y)
  ensures forall k in 0..result :: o.vertices[k] == old(o.vertices[k])
endfor

// the vertex handed out stands at the requested place; those handed out before keep theirs
define cached(w, x, y) = has(w.vertexCache, tuple(SimpleVertex, x, y))
define inCache(w, x, y) = w.vertexCache[tuple(SimpleVertex, x, y)]
define vertAt(w, i, x, y) = 0 <= i < len(w.vertices) && w.vertices[i].X == x && w.vertices[i].Y == y && w.vertices[i].idx == i
func NodesWork.AddVertex(w, x, y)
  requires w.upgradableToDeep && w.nodeType == NODETYPE_VANILLA ==> subsOk(w) && w.deepSegs == nil && w.mlog != nil
  requires len(w.vertices) < 4294967295 && w.lines != nil && w.vertexCache != nil
  requires linesVerts == len(w.vertices)
  requires cached(w, x, y) ==> vertAt(w, inCache(w, x, y), x, y)
  modifies linesVerts, w.vertexExists, w.vertexSink, w.vertexSink[*], w.vertices, w.vertices[*], w.vertexCache[*], w.deepSegs, w.deepSubsectors, w.segs, w.subsectors, w.SsectorMask, w.nodeType
  ensures linesVerts == len(w.vertices)
  ensures result.X == x && result.Y == y && result.idx == inCache(w, x, y)
  ensures cached(w, x, y) && vertAt(w, inCache(w, x, y), x, y)
  ensures forall k in 0..old(len(w.vertices)) :: w.vertices[k] == old(w.vertices[k])
  ensures old(cached(w, x, y)) ==> len(w.vertices) == old(len(w.vertices)) && inCache(w, x, y) == old(inCache(w, x, y))
  ensures !old(cached(w, x, y)) ==> len(w.vertices) == old(len(w.vertices)) + 1 && inCache(w, x, y) == old(len(w.vertices))
  ensures w.vertexSink != nil ==> w.vertexSink[len(w.vertexSink) - 1] == inCache(w, x, y) && len(w.vertexSink) == old(len(w.vertexSink)) + 1
  // identifiers of vertices are 16 bits wide in the vanilla format only
  ensures old(w.upgradableToDeep && w.nodeType == NODETYPE_VANILLA && len(w.vertices) <= 65536) && len(w.vertices) > 65536 ==> w.nodeType == NODETYPE_DEEP

// ---- laying a tree out anew: every subsector keeps its segs, every seg its vertices (under their new numbers)
opaque num16(v) = uint16(v)
define tr(t, v) = t.verticeRenumbering[v]
define trOk(t, v) = 0 <= v < len(t.verticeRenumbering) && 0 <= tr(t, v) < 1073741824
define apart4(a, b) = obj(a) != obj(b)
foreach T in NodesWork ZExt_NodesWork
func $T.renumberSegVertices(w, seg, track)
  requires trOk(track, seg.StartVertex) && trOk(track, seg.EndVertex)
  modifies seg.StartVertex, seg.EndVertex
  hint reveal(num16(tr(track, seg.StartVertex)))
  hint reveal(num16(tr(track, seg.EndVertex)))
  ensures seg.StartVertex == num16(tr(track, old(seg.StartVertex))) && seg.EndVertex == num16(tr(track, old(seg.EndVertex)))
func $T.renumberDeepSegVertices(w, seg, track)
  requires trOk(track, seg.StartVertex) && trOk(track, seg.EndVertex)
  modifies seg.StartVertex, seg.EndVertex
  ensures seg.StartVertex == tr(track, old(seg.StartVertex)) && seg.EndVertex == tr(track, old(seg.EndVertex))
func $T.renumberExtendedSegVertices(w, seg, track)
  requires w.zdoomVertexHeader != nil
  requires seg.StartVertex >= w.zdoomVertexHeader.ReusedOriginalVertices ==> trOk(track, seg.StartVertex)
  requires seg.EndVertex >= w.zdoomVertexHeader.ReusedOriginalVertices ==> trOk(track, seg.EndVertex)
  modifies seg.StartVertex, seg.EndVertex
  ensures seg.StartVertex == ite(old(seg.StartVertex) >= w.zdoomVertexHeader.ReusedOriginalVertices, tr(track, old(seg.StartVertex)), old(seg.StartVertex))
  ensures seg.EndVertex == ite(old(seg.EndVertex) >= w.zdoomVertexHeader.ReusedOriginalVertices, tr(track, old(seg.EndVertex)), old(seg.EndVertex))

func $T.putSegs(w, orig, track, ssIdx)
  callhint renumberSegVertices: seg.StartVertex == w.segs[track.firstSegs[ssIdx] + rangeindex].StartVertex
  callhint renumberSegVertices: seg.EndVertex == w.segs[track.firstSegs[ssIdx] + rangeindex].EndVertex
  requires track.totals != nil && ssIdx < len(track.firstSegs) && track.firstSegs[ssIdx] >= 0 && track.firstSegs[ssIdx] + orig.SegCount <= len(w.segs)
  requires forall k in 0..len(w.segs) :: trOk(track, w.segs[k].StartVertex) && trOk(track, w.segs[k].EndVertex)
  requires obj(track.segs) != obj(w.segs) && track.totals.numSegs == len(track.segs) && len(track.segs) < 1073741824 && len(w.segs) < 1073741824
  modifies track.segs, track.segs[*], track.totals.numSegs
  loop 0
    invariant obj(track.segs) != obj(w.segs) && (obj(track.segs) == old(obj(track.segs)) && off(track.segs) == old(off(track.segs)) || fresh(track.segs))
    invariant forall k in 0..len(w.segs) :: w.segs[k] == old(w.segs[k])
    invariant len(track.segs) == old(len(track.segs)) + rangeindex + 1 && track.totals.numSegs == len(track.segs)
    invariant forall k in 0..old(len(track.segs)) :: track.segs[k] == old(track.segs[k])
    invariant forall j in 0..rangeindex+1 :: movedV(track, track.segs[old(len(track.segs)) + j], w.segs[track.firstSegs[ssIdx] + j])
    invariant forall j in 0..rangeindex+1 :: movedW(track, track.segs[old(len(track.segs)) + j], w.segs[track.firstSegs[ssIdx] + j])
    invariant forall j in 0..rangeindex+1 :: movedR(track, track.segs[old(len(track.segs)) + j], w.segs[track.firstSegs[ssIdx] + j])
    endhint movedV(track, track.segs[old(len(track.segs)) + rangeindex], w.segs[track.firstSegs[ssIdx] + rangeindex])
    endhint movedW(track, track.segs[old(len(track.segs)) + rangeindex], w.segs[track.firstSegs[ssIdx] + rangeindex])
    endhint movedR(track, track.segs[old(len(track.segs)) + rangeindex], w.segs[track.firstSegs[ssIdx] + rangeindex])
  ensures result.FirstSeg == uint16(old(len(track.segs))) && result.SegCount == orig.SegCount
  ensures len(track.segs) == old(len(track.segs)) + orig.SegCount && track.totals.numSegs == len(track.segs)
  ensures forall k in 0..old(len(track.segs)) :: track.segs[k] == old(track.segs[k])
  ensures forall j in 0..orig.SegCount :: movedV(track, track.segs[old(len(track.segs)) + j], w.segs[track.firstSegs[ssIdx] + j])
  ensures forall j in 0..orig.SegCount :: movedW(track, track.segs[old(len(track.segs)) + j], w.segs[track.firstSegs[ssIdx] + j])
  ensures forall j in 0..orig.SegCount :: movedR(track, track.segs[old(len(track.segs)) + j], w.segs[track.firstSegs[ssIdx] + j])
  ensures obj(track.segs) != obj(w.segs)

func $T.putDeepSegs(w, orig, track)
  callhint renumberDeepSegVertices: seg.StartVertex == w.deepSegs[orig.FirstSeg + rangeindex].StartVertex
  callhint renumberDeepSegVertices: seg.EndVertex == w.deepSegs[orig.FirstSeg + rangeindex].EndVertex
  requires track.totals != nil && orig.FirstSeg + orig.SegCount <= len(w.deepSegs)
  requires forall k in 0..len(w.deepSegs) :: trOk(track, w.deepSegs[k].StartVertex) && trOk(track, w.deepSegs[k].EndVertex)
  requires obj(track.deepSegs) != obj(w.deepSegs) && track.totals.numSegs == len(track.deepSegs) && len(track.deepSegs) < 1073741824 && len(w.deepSegs) < 1073741824
  modifies track.deepSegs, track.deepSegs[*], track.totals.numSegs
  loop 0
    invariant obj(track.deepSegs) != obj(w.deepSegs) && (obj(track.deepSegs) == old(obj(track.deepSegs)) && off(track.deepSegs) == old(off(track.deepSegs)) || fresh(track.deepSegs))
    invariant forall k in 0..len(w.deepSegs) :: w.deepSegs[k] == old(w.deepSegs[k])
    invariant len(track.deepSegs) == old(len(track.deepSegs)) + rangeindex + 1 && track.totals.numSegs == len(track.deepSegs)
    invariant forall k in 0..old(len(track.deepSegs)) :: track.deepSegs[k] == old(track.deepSegs[k])
    invariant forall j in 0..rangeindex+1 :: movedDeepV(track, track.deepSegs[old(len(track.deepSegs)) + j], w.deepSegs[orig.FirstSeg + j])
    invariant forall j in 0..rangeindex+1 :: movedDeepW(track, track.deepSegs[old(len(track.deepSegs)) + j], w.deepSegs[orig.FirstSeg + j])
    invariant forall j in 0..rangeindex+1 :: movedDeepR(track, track.deepSegs[old(len(track.deepSegs)) + j], w.deepSegs[orig.FirstSeg + j])
    endhint movedDeepV(track, track.deepSegs[old(len(track.deepSegs)) + rangeindex], w.deepSegs[orig.FirstSeg + rangeindex])
    endhint movedDeepW(track, track.deepSegs[old(len(track.deepSegs)) + rangeindex], w.deepSegs[orig.FirstSeg + rangeindex])
    endhint movedDeepR(track, track.deepSegs[old(len(track.deepSegs)) + rangeindex], w.deepSegs[orig.FirstSeg + rangeindex])
  ensures result.FirstSeg == old(len(track.deepSegs)) && result.SegCount == orig.SegCount
  ensures len(track.deepSegs) == old(len(track.deepSegs)) + orig.SegCount && track.totals.numSegs == len(track.deepSegs)
  ensures forall k in 0..old(len(track.deepSegs)) :: track.deepSegs[k] == old(track.deepSegs[k])
  ensures forall j in 0..orig.SegCount :: movedDeepV(track, track.deepSegs[old(len(track.deepSegs)) + j], w.deepSegs[orig.FirstSeg + j])
  ensures forall j in 0..orig.SegCount :: movedDeepW(track, track.deepSegs[old(len(track.deepSegs)) + j], w.deepSegs[orig.FirstSeg + j])
  ensures forall j in 0..orig.SegCount :: movedDeepR(track, track.deepSegs[old(len(track.deepSegs)) + j], w.deepSegs[orig.FirstSeg + j])
  ensures obj(track.deepSegs) != obj(w.deepSegs)

func $T.putExtendedSegs(w, orig, track)
  callhint renumberExtendedSegVertices: seg.StartVertex == w.zdoomSegs[ssFirst(orig) + rangeindex].StartVertex
  callhint renumberExtendedSegVertices: seg.EndVertex == w.zdoomSegs[ssFirst(orig) + rangeindex].EndVertex
  requires w.zdoomVertexHeader != nil && track.totals != nil && orig < len(w.zdoomSubsectors)
  requires ssFirst(0) == 0 && ssFirst(len(w.zdoomSubsectors)) == len(w.zdoomSegs) && (forall i in 0..len(w.zdoomSubsectors) :: 0 <= ssFirst(i) <= 1073741824 && ssFirst(i + 1) == ssFirst(i) + w.zdoomSubsectors[i] && ssFirst(i + 1) <= len(w.zdoomSegs))
  requires forall k in 0..len(w.zdoomSegs) :: (w.zdoomSegs[k].StartVertex >= w.zdoomVertexHeader.ReusedOriginalVertices ==> trOk(track, w.zdoomSegs[k].StartVertex)) && (w.zdoomSegs[k].EndVertex >= w.zdoomVertexHeader.ReusedOriginalVertices ==> trOk(track, w.zdoomSegs[k].EndVertex))
  requires obj(track.zdoomSegs) != obj(w.zdoomSegs) && track.totals.numSegs == len(track.zdoomSegs) && len(track.zdoomSegs) < 1073741824 && len(w.zdoomSegs) < 1073741824
  modifies track.zdoomSegs, track.zdoomSegs[*], track.totals.numSegs
  loop 0
    invariant obj(track.zdoomSegs) != obj(w.zdoomSegs) && (obj(track.zdoomSegs) == old(obj(track.zdoomSegs)) && off(track.zdoomSegs) == old(off(track.zdoomSegs)) || fresh(track.zdoomSegs))
    invariant forall k in 0..len(w.zdoomSegs) :: w.zdoomSegs[k] == old(w.zdoomSegs[k])
    invariant len(track.zdoomSegs) == old(len(track.zdoomSegs)) + rangeindex + 1 && track.totals.numSegs == len(track.zdoomSegs)
    invariant forall k in 0..old(len(track.zdoomSegs)) :: track.zdoomSegs[k] == old(track.zdoomSegs[k])
    invariant forall j in 0..rangeindex+1 :: movedExtV(w, track, track.zdoomSegs[old(len(track.zdoomSegs)) + j], w.zdoomSegs[ssFirst(orig) + j])
    invariant forall j in 0..rangeindex+1 :: movedExtW(w, track, track.zdoomSegs[old(len(track.zdoomSegs)) + j], w.zdoomSegs[ssFirst(orig) + j])
    invariant forall j in 0..rangeindex+1 :: movedExtR(w, track, track.zdoomSegs[old(len(track.zdoomSegs)) + j], w.zdoomSegs[ssFirst(orig) + j])
    endhint movedExtV(w, track, track.zdoomSegs[old(len(track.zdoomSegs)) + rangeindex], w.zdoomSegs[ssFirst(orig) + rangeindex])
    endhint movedExtW(w, track, track.zdoomSegs[old(len(track.zdoomSegs)) + rangeindex], w.zdoomSegs[ssFirst(orig) + rangeindex])
    endhint movedExtR(w, track, track.zdoomSegs[old(len(track.zdoomSegs)) + rangeindex], w.zdoomSegs[ssFirst(orig) + rangeindex])
  ensures result == w.zdoomSubsectors[orig]
  ensures len(track.zdoomSegs) == old(len(track.zdoomSegs)) + result && track.totals.numSegs == len(track.zdoomSegs)
  ensures forall k in 0..old(len(track.zdoomSegs)) :: track.zdoomSegs[k] == old(track.zdoomSegs[k])
  ensures forall j in 0..result :: movedExtV(w, track, track.zdoomSegs[old(len(track.zdoomSegs)) + j], w.zdoomSegs[ssFirst(orig) + j])
  ensures forall j in 0..result :: movedExtW(w, track, track.zdoomSegs[old(len(track.zdoomSegs)) + j], w.zdoomSegs[ssFirst(orig) + j])
  ensures forall j in 0..result :: movedExtR(w, track, track.zdoomSegs[old(len(track.zdoomSegs)) + j], w.zdoomSegs[ssFirst(orig) + j])
  ensures obj(track.zdoomSegs) != obj(w.zdoomSegs)

// every split vertex ends up under its new number, where it was
func $T.reallyRearrangeExtendedVertices(w, translate, track)
  requires w.zdoomVertexHeader != nil && len(translate) == len(w.vertices) && len(w.vertices) < 1073741824 && obj(track.vertices) != obj(w.vertices)
  requires w.zdoomVertexHeader.ReusedOriginalVertices <= len(w.vertices) && w.zdoomVertexHeader.ReusedOriginalVertices <= len(track.vertices)
  requires forall i in w.zdoomVertexHeader.ReusedOriginalVertices..len(translate) :: w.zdoomVertexHeader.ReusedOriginalVertices <= translate[i] < len(track.vertices) && translate[i] < 1073741824
  requires forall i, j in w.zdoomVertexHeader.ReusedOriginalVertices..len(translate) :: translate[i] == translate[j] ==> w.vertices[i].X == w.vertices[j].X && w.vertices[i].Y == w.vertices[j].Y
  modifies w.vertices, track.vertices[*]
  loop 0
    invariant forall k in 0..rangeindex+1 :: track.vertices[k].X == w.vertices[k].X && track.vertices[k].Y == w.vertices[k].Y
  loop 1
    invariant forall k in 0..w.zdoomVertexHeader.ReusedOriginalVertices :: track.vertices[k].X == w.vertices[k].X && track.vertices[k].Y == w.vertices[k].Y
    invariant forall k in w.zdoomVertexHeader.ReusedOriginalVertices..w.zdoomVertexHeader.ReusedOriginalVertices+rangeindex+1 :: track.vertices[translate[k]].X == w.vertices[k].X && track.vertices[translate[k]].Y == w.vertices[k].Y
  ensures len(w.vertices) == len(track.vertices)
  ensures forall k in 0..w.zdoomVertexHeader.ReusedOriginalVertices :: w.vertices[k].X == old(w.vertices[k].X) && w.vertices[k].Y == old(w.vertices[k].Y)
  ensures forall k in w.zdoomVertexHeader.ReusedOriginalVertices..len(translate) :: w.vertices[translate[k]].X == old(w.vertices[k].X) && w.vertices[translate[k]].Y == old(w.vertices[k].Y)
endfor
define movedV(t, d, s) = d.StartVertex == num16(tr(t, s.StartVertex))
define movedW(t, d, s) = d.EndVertex == num16(tr(t, s.EndVertex))
define movedR(t, d, s) = d.Angle == s.Angle && d.Linedef == s.Linedef && d.Flip == s.Flip && d.Offset == s.Offset
define movedDeepV(t, d, s) = d.StartVertex == tr(t, s.StartVertex)
define movedDeepW(t, d, s) = d.EndVertex == tr(t, s.EndVertex)
define movedDeepR(t, d, s) = d.Angle == s.Angle && d.Linedef == s.Linedef && d.Flip == s.Flip && d.Offset == s.Offset
define trExt(w, t, v) = ite(v >= w.zdoomVertexHeader.ReusedOriginalVertices, tr(t, v), v)
define movedExtV(w, t, d, s) = d.StartVertex == trExt(w, t, s.StartVertex)
define movedExtW(w, t, d, s) = d.EndVertex == trExt(w, t, s.EndVertex)
define movedExtR(w, t, d, s) = d.Linedef == s.Linedef && d.Flip == s.Flip

property N02: convertToSsectorMask NodesWork.reverseNodes NodesWork.convertNodesStraight NodesWork.reverseDeepNodes NodesWork.convertDeepNodesStraight ZExt_NodesWork.reverseDeepNodes ZExt_NodesWork.convertDeepNodesStraight NodesWork.upgradeToDeep NodesWork.lastSubsectorOverflows NodesWork.fitSegsToTarget NodeSeg.getFlip ZExt_NodeSeg.getFlip NodesWork.CreateSSector ZExt_NodesWork.CreateSSector getFirstSegExtended NodesWork.tooManySegsCantFix DoomLinedefs.AddVertex HexenLinedefs.AddVertex NodesWork.AddVertex NodesWork.renumberSegVertices NodesWork.renumberDeepSegVertices NodesWork.renumberExtendedSegVertices NodesWork.putSegs NodesWork.putDeepSegs NodesWork.putExtendedSegs NodesWork.reallyRearrangeExtendedVertices ZExt_NodesWork.renumberSegVertices ZExt_NodesWork.renumberDeepSegVertices ZExt_NodesWork.renumberExtendedSegVertices ZExt_NodesWork.putSegs ZExt_NodesWork.putDeepSegs ZExt_NodesWork.putExtendedSegs ZExt_NodesWork.reallyRearrangeExtendedVertices
bounded N02: the recursion of CreateNode over the tree, the choice of format, getZdoomNodesBytes and the recursive rearrangement are not proved: random maps of up to about 150 cells through the whole program in every format, all lumps decoded and compared with the map
