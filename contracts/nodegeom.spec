// ---- what makes a list of segs a subsector
ghost lsIdx(int, int) int
define atSeg(p) = ite(p == nil, lsN(), lsIdx(obj(p), off(p)))
define indexed(T1) = forall k in 0..lsN() :: lsIdx(lsObj(k), lsOff(k)) == k
// verdict of the chosen side test: bits 1 and 5 are raised when an end lies on the left
ghost dli(int, int, int, int, int, int, int, int) int
define ctxOk(c) = c.pdx == c.psx - c.pex && c.pdy == c.psy - c.pey
dynamic NodesWork.doLinesIntersect(c)
  requires ctxOk(c)
  ensures 0 <= result <= 255 && result == dli(c.psx, c.psy, c.pex, c.pey, c.lsx, c.lsy, c.lex, c.ley)
extern MiniLogger.DumpSegs(l, ts)
extern MiniLogger.ZExt_DumpSegs(l, ts)
extern math.Sqrt(x)

define sides(p, q) = dli(p.StartVertex.X, p.StartVertex.Y, p.EndVertex.X, p.EndVertex.Y, q.StartVertex.X, q.StartVertex.Y, q.EndVertex.X, q.EndVertex.Y)
define leftOf(p, q) = bit(sides(p, q), 1) || bit(sides(p, q), 5)
func NodesWork.isItConvex(w, ts)
  requires segList(ts) && indexed(0) && w.mlog != nil
  loop 0
    invariant 1 <= atSeg(line) <= lsN() && (line != nil ==> atSeg(line) < lsN() && line == ls(atSeg(line)))
    invariant forall k in 0..atSeg(line) :: ls(k).sector == ls(0).sector
    invariant nonConvexityMode == NONCONVEX_ONESECTOR
  loop 1
    invariant 0 <= atSeg(line) <= lsN() && (line != nil ==> atSeg(line) < lsN() && line == ls(atSeg(line)))
    invariant forall i in 0..atSeg(line) :: forall j in 0..lsN() :: i != j ==> !leftOf(ls(i), ls(j))
  loop 2
    invariant 0 <= atSeg(check) <= lsN() && (check != nil ==> atSeg(check) < lsN() && check == ls(atSeg(check)))
    invariant forall j in 0..atSeg(check) :: atSeg(line) != j ==> !leftOf(line, ls(j))
  ensures result == CONVEX_SUBSECTOR || result == NONCONVEX_ONESECTOR || result == NONCONVEX_MULTISECTOR
  ensures result != NONCONVEX_MULTISECTOR ==> bit(ls(0).flags, 4) || (forall k in 0..lsN() :: ls(k).sector == ls(0).sector)
  ensures result == CONVEX_SUBSECTOR ==> (forall i in 0..lsN() :: forall j in 0..lsN() :: i != j ==> !leftOf(ls(i), ls(j)))
  ensures result == NONCONVEX_ONESECTOR ==> (exists i in 0..lsN() :: exists j in 0..lsN() :: i != j && leftOf(ls(i), ls(j)))

ghost zdli(float, float, float, float, float, float, float, float) int
dynamic ZExt_NodesWork.doLinesIntersect(c)
  requires ctxOk(c)
  ensures 0 <= result <= 255 && result == zdli(c.psx, c.psy, c.pex, c.pey, c.lsx, c.lsy, c.lex, c.ley)
define zsides(p, q) = zdli(p.StartVertex.X, p.StartVertex.Y, p.EndVertex.X, p.EndVertex.Y, q.StartVertex.X, q.StartVertex.Y, q.EndVertex.X, q.EndVertex.Y)
define zleftOf(p, q) = bit(zsides(p, q), 1) || bit(zsides(p, q), 5)
func ZExt_NodesWork.isItConvex(w, ts)
  requires zsegList(ts) && indexed(0) && w.mlog != nil
  loop 0
    invariant 1 <= atSeg(line) <= lsN() && (line != nil ==> atSeg(line) < lsN() && line == zls(atSeg(line)))
    invariant forall k in 0..atSeg(line) :: zls(k).sector == zls(0).sector
    invariant nonConvexityMode == NONCONVEX_ONESECTOR
  loop 1
    invariant 0 <= atSeg(line) <= lsN() && (line != nil ==> atSeg(line) < lsN() && line == zls(atSeg(line)))
    invariant forall i in 0..atSeg(line) :: forall j in 0..lsN() :: i != j ==> !zleftOf(zls(i), zls(j))
  loop 2
    invariant 0 <= atSeg(check) <= lsN() && (check != nil ==> atSeg(check) < lsN() && check == zls(atSeg(check)))
    invariant forall j in 0..atSeg(check) :: atSeg(line) != j ==> !zleftOf(line, zls(j))
  ensures result == CONVEX_SUBSECTOR || result == NONCONVEX_ONESECTOR || result == NONCONVEX_MULTISECTOR
  ensures result != NONCONVEX_MULTISECTOR ==> bit(zls(0).flags, 4) || (forall k in 0..lsN() :: zls(k).sector == zls(0).sector)
  ensures result == CONVEX_SUBSECTOR ==> (forall i in 0..lsN() :: forall j in 0..lsN() :: i != j ==> !zleftOf(zls(i), zls(j)))
  ensures result == NONCONVEX_ONESECTOR ==> (exists i in 0..lsN() :: exists j in 0..lsN() :: i != j && zleftOf(zls(i), zls(j)))

// ---- the side test on integer coordinates is exact, save that an end close to the crossing counts as on the line
define crossS(c) = c.pdy * (c.psx - c.lsx) - c.pdx * (c.psy - c.lsy)
define crossE(c) = c.pdy * (c.psx - c.lex) - c.pdx * (c.psy - c.ley)
func DiffSign(a, b)
  ensures result == ((a < 0) != (b < 0))
func IntersectionContext.computeIntersection(c)
foreach F in Standard Detail
func doLinesIntersect$F(c)
  ensures forall k in 7..8 :: !bit(result, k)
  ensures bitn(result, 0) + bitn(result, 1) + bitn(result, 2) == 1 && bitn(result, 4) + bitn(result, 5) + bitn(result, 6) == 1 && !bit(result, 3)
  ensures bit(result, 5) ==> crossS(c) < 0
  ensures bit(result, 6) ==> crossS(c) > 0
  ensures bit(result, 1) ==> crossE(c) < 0
  ensures bit(result, 2) ==> crossE(c) > 0
  ensures (crossS(c) >= 0) == (crossE(c) >= 0) || crossS(c) == 0 || crossE(c) == 0 ==> bit(result, 5) == (crossS(c) < 0) && bit(result, 6) == (crossS(c) > 0) && bit(result, 1) == (crossE(c) < 0) && bit(result, 2) == (crossE(c) > 0)
endfor

// ---- bounding boxes: around every seg, around every line, around both
define inBox(r, x, y) = r.Xmin <= x <= r.Xmax && r.Ymin <= y <= r.Ymax
define segIn(r, s) = inBox(r, s.StartVertex.X, s.StartVertex.Y) && inBox(r, s.EndVertex.X, s.EndVertex.Y)
define small(v) = -2147483648 < v < 2147483647
func FindLimits(ts)
  requires segList(ts) && indexed(0)
  requires forall k in 0..lsN() :: small(ls(k).StartVertex.X) && small(ls(k).StartVertex.Y) && small(ls(k).EndVertex.X) && small(ls(k).EndVertex.Y)
  loop 0
    invariant 0 <= atSeg(ts) < lsN() && ts == ls(atSeg(ts))
    invariant forall k in 0..atSeg(ts) :: segIn(r, ls(k))
    invariant atSeg(ts) > 0 ==> xTouched(r.Xmin, atSeg(ts)) && xTouched(r.Xmax, atSeg(ts)) && yTouched(r.Ymin, atSeg(ts)) && yTouched(r.Ymax, atSeg(ts))
    invariant atSeg(ts) == 0 ==> r.Xmin == 2147483647 && r.Ymin == 2147483647 && r.Xmax == -2147483648 && r.Ymax == -2147483648
  ensures forall k in 0..lsN() :: segIn(result, ls(k))
  ensures xTouched(result.Xmin, lsN()) && xTouched(result.Xmax, lsN()) && yTouched(result.Ymin, lsN()) && yTouched(result.Ymax, lsN())
define xTouched(v, n) = exists k in 0..n :: ls(k).StartVertex.X == v || ls(k).EndVertex.X == v
define yTouched(v, n) = exists k in 0..n :: ls(k).StartVertex.Y == v || ls(k).EndVertex.Y == v

func UnionNodeBounds(b1, b2)
  ensures result.Xmin == min(b1.Xmin, b2.Xmin) && result.Ymin == min(b1.Ymin, b2.Ymin) && result.Xmax == max(b1.Xmax, b2.Xmax) && result.Ymax == max(b1.Ymax, b2.Ymax)

func GetLineBounds(lines)
  requires lines != nil
  loop 0
    invariant 0 <= i <= l && l == lnLen(tag(lines), ifval(lines))
    invariant forall k in 0..i :: xWithin(lines, k, r.Xmin, r.Xmax) && yWithin(lines, k, r.Ymin, r.Ymax)
  ensures forall k in 0..lnLen(tag(lines), ifval(lines)) :: xWithin(lines, k, result.Xmin, result.Xmax) && yWithin(lines, k, result.Ymin, result.Ymax)

property N01: NodesWork.isItConvex ZExt_NodesWork.isItConvex DiffSign IntersectionContext.computeIntersection doLinesIntersectStandard doLinesIntersectDetail FindLimits UnionNodeBounds GetLineBounds
bounded N01: choice of partitions, splitting of segs and CreateNode (floating point, recursion) are not proved: random maps of up to about 150 cells through the whole program under random node options; each tree is checked against the map within the rounding of its format
