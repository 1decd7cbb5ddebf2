// ---- the fixed-size writer the blockmap lump is assembled with
define fwOK(w) = 0 <= w.offset <= len(w.data) && len(w.data) <= cap(w.data)
define fwSameBuf(w) = obj(w.data) == old(obj(w.data)) && off(w.data) == old(off(w.data)) && cap(w.data) == old(cap(w.data))

func CreateFixedWriterWrapper(data, offset)
  ensures result != nil && fresh(result) && same(result.data, data) && result.offset == offset

func FixedWriterWrapper.GetBytes(w)
  ensures same(result, w.data)

// moving inside the capacity works and loses nothing; moving outside changes nothing
func FixedWriterWrapper.Seek(w, offset)
  requires fwOK(w) && offset >= 0
  modifies w.data, w.offset
  ensures offset < cap(w.data) ==> result == nil && w.offset == offset && fwOK(w)
  ensures fwSameBuf(w) && len(w.data) >= old(len(w.data))
  ensures result != nil ==> w.offset == old(w.offset) && len(w.data) == old(len(w.data))
  ensures fwOK(w)

// what has been written is at the position, nothing else changed; a write that does not fit changes nothing
func FixedWriterWrapper.Write(w, p) (n, err)
  requires fwOK(w) && disjoint(p, w.data)
  modifies w.data, w.offset, w.data[*]
  ensures fwSameBuf(w) && fwOK(w)
  ensures (old(w.offset) + len(p) <= old(cap(w.data))) == (err == nil)
  ensures err == nil ==> n == len(p) && w.offset == old(w.offset) + len(p) && len(w.data) == max(old(len(w.data)), w.offset)
  ensures err == nil ==> (forall k in 0..len(p) :: w.data[old(w.offset) + k] == old(p[k]))
  ensures forall k in 0..old(len(w.data)) :: err != nil || k < old(w.offset) || k >= w.offset ==> w.data[k] == old(w.data[k])
  ensures err != nil ==> n == 0 && w.offset == old(w.offset) && len(w.data) == old(len(w.data))
  loop 0
    invariant 0 <= i <= towrite && len(sl) >= towrite && obj(sl) == obj(w.data) && off(sl) == off(w.data) + w.offset
    invariant forall k in 0..i :: sl[k] == old(p[k])
    invariant forall k in 0..old(len(w.data)) :: k < w.offset || k >= w.offset + towrite ==> w.data[k] == old(w.data[k])

iface binary.ByteOrder.PutUint16(o, b, v)
  requires len(b) >= 2
  modifies b[0..2]
  ensures b[0] == v % 256 && b[1] == v / 256

// the words go out least significant byte first (every caller asks for little endian)
func FixedWriterWrapper.WriteWithOrder(w, order, p) (n, err)
  requires fwOK(w) && order != nil
  modifies w.data, w.offset, w.data[*]
  ensures fwSameBuf(w) && fwOK(w)
  ensures (old(w.offset) + 2*len(p) <= old(cap(w.data))) == (err == nil)
  ensures err == nil ==> n == len(p) && w.offset == old(w.offset) + 2*len(p) && len(w.data) == max(old(len(w.data)), w.offset)
  ensures err == nil ==> (forall k in 0..len(p) :: w.data[old(w.offset) + 2*k] == p[k] % 256 && w.data[old(w.offset) + 2*k + 1] == p[k] / 256)
  ensures forall k in 0..old(len(w.data)) :: err != nil || k < old(w.offset) || k >= w.offset ==> w.data[k] == old(w.data[k])
  ensures err != nil ==> n == 0 && w.offset == old(w.offset) && len(w.data) == old(len(w.data))
  loop 0
    invariant 0 <= i <= words && a == 2*i && len(sl) >= towrite && obj(sl) == obj(w.data) && off(sl) == off(w.data) + w.offset
    invariant forall k in 0..i :: sl[2*k] == p[k] % 256 && sl[2*k+1] == p[k] / 256
    invariant forall k in 0..old(len(w.data)) :: k < w.offset || k >= w.offset + towrite ==> w.data[k] == old(w.data[k])

// ---- comparing and nesting block lists
func CompareBlocklist(bl1, bl2)
  ensures result == (len(bl1) == len(bl2) && (forall k in 0..len(bl1) :: bl1[k] == bl2[k]))
  loop 0
    invariant 0 <= i <= len(bl1) && (forall k in 0..i :: bl1[k] == bl2[k])

define ascending(s) = forall i, j in 0..len(s) :: i < j ==> s[i] < s[j]
define inFrom(v, s, a) = exists j in a..len(s) :: s[j] == v

// a true answer is always right; on lists in ascending order so is a false one
func BMIsSubset(sOne, bOne, bOneOffset)
  requires 0 <= bOneOffset <= len(bOne)
  ensures result ==> (forall i in 0..len(sOne) :: inFrom(sOne[i], bOne, bOneOffset))
  ensures ascending(sOne) && (forall i, j in bOneOffset..len(bOne) :: i < j ==> bOne[i] < bOne[j]) && !result ==> (exists i in 0..len(sOne) :: !inFrom(sOne[i], bOne, bOneOffset))
  loop 0
    invariant 0 <= i <= len(sOne) && bOneOffset <= bPos <= len(bOne)
    invariant forall q in 0..i :: inFrom(sOne[q], bOne, bOneOffset)
    invariant i > 0 ==> bPos > bOneOffset && bOne[bPos-1] == sOne[i-1]
    invariant i == 0 ==> bPos == bOneOffset
  loop 1
    invariant bPos <= j <= len(bOne) && !found
    invariant forall q in bPos..j :: bOne[q] < sOne[i]
    invariant ascending(sOne) && (forall p, q in bOneOffset..len(bOne) :: p < q ==> bOne[p] < bOne[q]) ==> (forall q in bOneOffset..bPos :: bOne[q] < sOne[i])

func BMIsSubsetSimple(sOne, bOne)
  ensures result ==> (forall i in 0..len(sOne) :: inFrom(sOne[i], bOne, 0))
  ensures ascending(sOne) && ascending(bOne) && !result ==> (exists i in 0..len(sOne) :: !inFrom(sOne[i], bOne, 0))
  loop 0
    invariant 0 <= i <= len(sOne)
    invariant forall q in 0..i :: inFrom(sOne[q], bOne, 0)
  loop 1
    invariant 0 <= j <= len(bOne) && !found
    invariant forall q in 0..j :: bOne[q] < sOne[i]

func Blockmap.LimitCheck(bm, intBlockOffset)
  modifies bm.largestOffset, bm.tooBigForVanilla, bm.tooBigForUint16
  ensures bm.largestOffset == max(old(bm.largestOffset), intBlockOffset)
  ensures bm.tooBigForVanilla == (old(bm.tooBigForVanilla) || intBlockOffset >= 32768)
  ensures bm.tooBigForUint16 == (old(bm.tooBigForUint16) || intBlockOffset >= 65536)

// ---- choosing among candidate blockmaps
func OffsetPreceedes(newX, newY, oldX, oldY)
  ensures result == (newY < oldY || newY == oldY && newX < oldX)

// a candidate that works where the other does not is better, whatever its size; then the smaller one
func IsBlockmapBetter(newData, newBM, lenOld, oldBM, preferZero)
  requires newBM.tooBigForUint16 ==> newBM.tooBigForVanilla
  requires oldBM.tooBigForUint16 ==> oldBM.tooBigForVanilla
  ensures oldBM.tooBigForUint16 && !newBM.tooBigForUint16 ==> result
  ensures newBM.tooBigForUint16 && !oldBM.tooBigForUint16 ==> !result
  ensures newBM.tooBigForUint16 == oldBM.tooBigForUint16 && oldBM.tooBigForVanilla && !newBM.tooBigForVanilla ==> result
  ensures newBM.tooBigForUint16 == oldBM.tooBigForUint16 && newBM.tooBigForVanilla && !oldBM.tooBigForVanilla ==> !result
  ensures newBM.tooBigForUint16 == oldBM.tooBigForUint16 && newBM.tooBigForVanilla == oldBM.tooBigForVanilla && len(newData) < lenOld ==> result
  ensures newBM.tooBigForUint16 == oldBM.tooBigForUint16 && newBM.tooBigForVanilla == oldBM.tooBigForVanilla && len(newData) > lenOld ==> !result
  ensures sameFit(newBM, oldBM) && len(newData) == lenOld && preferZero && newBM.zeroLinedef == 0 && oldBM.zeroLinedef != 0 ==> result
  ensures sameFit(newBM, oldBM) && len(newData) == lenOld && preferZero && newBM.zeroLinedef != 0 && oldBM.zeroLinedef == 0 ==> !result
  ensures sameFit(newBM, oldBM) && len(newData) == lenOld && (!preferZero || (newBM.zeroLinedef == 0) == (oldBM.zeroLinedef == 0)) ==> result == (config.Deterministic && (newBM.header.YMin > oldBM.header.YMin || newBM.header.YMin == oldBM.header.YMin && newBM.header.XMin > oldBM.header.XMin))
define sameFit(a, b) = a.tooBigForUint16 == b.tooBigForUint16 && a.tooBigForVanilla == b.tooBigForVanilla

func IsBlockmapGoodEnough(bm)
  ensures config.BlockmapSearchAbortion == BM_OFFSET_FITS_VANILLA ==> result == !bm.tooBigForVanilla
  ensures config.BlockmapSearchAbortion == BM_OFFSET_FITS_ANYPORT ==> result == !bm.tooBigForUint16

// ---- the offsets tried
func CutoffOffset(bounds) (x, y)
  ensures x == min(127, bounds.Xmin + 32768) && y == min(127, bounds.Ymin + 32768)
  ensures bounds.Xmin - x >= -32768 && bounds.Ymin - y >= -32768

func ChooseModeWithCutoff(mode, offsetXMax, offsetYMax, offsetStep, cutOffX, cutOffY)
  requires 0 <= cutOffX <= 127 && 0 <= cutOffY <= 127
  requires offsetXMax != offsetYMax && offsetXMax != offsetStep && offsetYMax != offsetStep
  modifies *offsetXMax, *offsetYMax, *offsetStep
  ensures mode == BM_OFFSET_THIRTYSIX ==> deref(offsetXMax) == min(48, cutOffX + 1) && deref(offsetYMax) == min(48, cutOffY + 1) && deref(offsetStep) == 8 && result == mode
  ensures mode == BM_OFFSET_BRUTEFORCE || mode == BM_OFFSET_HEURISTIC ==> deref(offsetXMax) == min(128, cutOffX + 1) && deref(offsetYMax) == min(128, cutOffY + 1) && deref(offsetStep) == 1 && result == mode
  ensures mode != BM_OFFSET_THIRTYSIX && mode != BM_OFFSET_BRUTEFORCE && mode != BM_OFFSET_HEURISTIC ==> result == BM_OFFSET_FIXED

// ---- the pool of lump buffers: the last two winners are never handed out again
define slotsOK(g) = g.lumpPool.lastSlot < 3 && (forall k in 0..3 :: g.lumpPool.slots[k] <= 2) && (exists k in 0..3 :: g.lumpPool.slots[k] == BMStateUnused)
define poolOK(g) = g.lumpPool.lastSlot < 3 && (forall k in 0..3 :: g.lumpPool.slots[k] <= 2) && atMostOne(g, BMStateNew) && atMostOne(g, BMStateOld)
define aged(s) = ite(s == BMStateNew, BMStateOld, ite(s == BMStateOld, BMStateUnused, s))
define atMostOne(g, s) = forall i, j in 0..3 :: i != j ==> !(g.lumpPool.slots[i] == s && g.lumpPool.slots[j] == s)

func BlockmapGCShield.getUnusedSlot(gcs)
  requires gcs != nil && poolOK(gcs)
  ensures result < 3 && gcs.lumpPool.slots[result] == BMStateUnused
  loop 0
    invariant forall k in 0..3 :: k < i ==> gcs.lumpPool.slots[k] != BMStateUnused

func BlockmapGCShield.RotateLumpPool(gcs)
  requires gcs != nil && poolOK(gcs) && gcs.lumpPool.slots[gcs.lumpPool.lastSlot] == BMStateUnused
  modifies gcs.lumpPool
  ensures poolOK(gcs) && gcs.lumpPool.lastSlot == old(gcs.lumpPool.lastSlot)
  ensures gcs.lumpPool.slots[gcs.lumpPool.lastSlot] == BMStateNew
  ensures forall k in 0..3 :: old(gcs.lumpPool.slots[k]) == BMStateNew ==> gcs.lumpPool.slots[k] == BMStateOld
  loop 0
    invariant 0 <= i <= 3 && gcs.lumpPool.lastSlot == old(gcs.lumpPool.lastSlot)
    invariant forall k in 0..3 :: gcs.lumpPool.slots[k] == ite(k < i, aged(old(gcs.lumpPool.slots[k])), old(gcs.lumpPool.slots[k]))

func BlockmapGCShield.GetLumpFromPool(gcs, expectedSize, expectedCapacity)
  requires 0 <= expectedSize <= expectedCapacity && (gcs != nil ==> poolOK(gcs))
  modifies gcs.lumpPool.lastSlot
  ensures len(result) == expectedSize
  ensures gcs == nil || expectedSize > MAX_ADDRESSABLE_BLOCKMAP_SIZE ==> cap(result) == expectedCapacity && fresh(result)
  ensures gcs != nil && expectedSize <= MAX_ADDRESSABLE_BLOCKMAP_SIZE ==> cap(result) == min(expectedCapacity, MAX_ADDRESSABLE_BLOCKMAP_SIZE) && gcs.lumpPool.slots[gcs.lumpPool.lastSlot] == BMStateUnused
  ensures gcs != nil && expectedSize <= MAX_ADDRESSABLE_BLOCKMAP_SIZE ==> obj(result) == obj(&gcs.lumpPool.pool) && off(result) == gcs.lumpPool.lastSlot * MAX_ADDRESSABLE_BLOCKMAP_SIZE
  ensures gcs != nil ==> poolOK(gcs)

lemma mulMono(a, b, c, d)
  requires 0 <= a <= c && 0 <= b <= d
  ensures a * b <= c * d
// buffers shared by all origins are large enough for any of them
func BMBeeMaxSize(b)
  requires b.Xmin <= b.Xmax && b.Ymin <= b.Ymax
  ensures result == ((b.Xmax - b.Xmin) / 128 + 2) * ((b.Ymax - b.Ymin) / 128 + 2)
  exithint forall ox, oy in 0..128 :: mulMono((b.Xmax - b.Xmin + ox) / 128 + 1, (b.Ymax - b.Ymin + oy) / 128 + 1, (b.Xmax - b.Xmin) / 128 + 2, (b.Ymax - b.Ymin) / 128 + 2)
  ensures forall ox, oy in 0..128 :: ((b.Xmax - b.Xmin + ox) / 128 + 1) * ((b.Ymax - b.Ymin + oy) / 128 + 1) <= result

// ---- the map's extent: taken from exactly the lines that take part
ghost lnLen(int, int) int
ghost lnX1(int, int, int) int
ghost lnY1(int, int, int) int
ghost lnX2(int, int, int) int
ghost lnY2(int, int, int) int
ghost lnSkip(int, int, int) bool

iface AbstractLines.Len(o)
  ensures result == lnLen(tag(o), ifval(o))
iface AbstractLines.BlockmapSkipThis(o, idx)
  ensures result == lnSkip(tag(o), ifval(o), idx)
iface AbstractLines.GetAllXY(o, idx) (x1, y1, x2, y2)
  ensures x1 == lnX1(tag(o), ifval(o), idx) && y1 == lnY1(tag(o), ifval(o), idx) && x2 == lnX2(tag(o), ifval(o), idx) && y2 == lnY2(tag(o), ifval(o), idx)
  ensures -32768 <= x1 <= 32767 && -32768 <= y1 <= 32767 && -32768 <= x2 <= 32767 && -32768 <= y2 <= 32767

define inMap(o, ig, i) = !lnSkip(tag(o), ifval(o), i) && (ig == nil || !ig[i])
define xWithin(o, i, lo, hi) = lo <= lnX1(tag(o), ifval(o), i) <= hi && lo <= lnX2(tag(o), ifval(o), i) <= hi
define yWithin(o, i, lo, hi) = lo <= lnY1(tag(o), ifval(o), i) <= hi && lo <= lnY2(tag(o), ifval(o), i) <= hi
define xMet(o, ig, n, v) = exists i in 0..n :: inMap(o, ig, i) && (lnX1(tag(o), ifval(o), i) == v || lnX2(tag(o), ifval(o), i) == v)
define yMet(o, ig, n, v) = exists i in 0..n :: inMap(o, ig, i) && (lnY1(tag(o), ifval(o), i) == v || lnY2(tag(o), ifval(o), i) == v)

func RecomputeBounds(lines, linesToIgnore)
  requires lines != nil && (linesToIgnore == nil || len(linesToIgnore) == lnLen(tag(lines), ifval(lines)))
  ensures forall i in 0..lnLen(tag(lines), ifval(lines)) :: inMap(lines, linesToIgnore, i) ==> xWithin(lines, i, result.Xmin, result.Xmax) && yWithin(lines, i, result.Ymin, result.Ymax)
  ensures (exists i in 0..lnLen(tag(lines), ifval(lines)) :: inMap(lines, linesToIgnore, i)) ==> xMet(lines, linesToIgnore, lnLen(tag(lines), ifval(lines)), result.Xmin) && xMet(lines, linesToIgnore, lnLen(tag(lines), ifval(lines)), result.Xmax) && yMet(lines, linesToIgnore, lnLen(tag(lines), ifval(lines)), result.Ymin) && yMet(lines, linesToIgnore, lnLen(tag(lines), ifval(lines)), result.Ymax)
  loop 0
    invariant 0 <= i <= linesCount && linesCount == lnLen(tag(lines), ifval(lines))
    invariant forall k in 0..i :: inMap(lines, linesToIgnore, k) ==> xWithin(lines, k, Xmin, Xmax) && yWithin(lines, k, Ymin, Ymax)
    invariant (forall k in 0..i :: !inMap(lines, linesToIgnore, k)) || xMet(lines, linesToIgnore, i, Xmin) && xMet(lines, linesToIgnore, i, Xmax) && yMet(lines, linesToIgnore, i, Ymin) && yMet(lines, linesToIgnore, i, Ymax)
    invariant (forall k in 0..i :: !inMap(lines, linesToIgnore, k)) || -32768 <= Xmin <= Xmax <= 32767 && -32768 <= Ymin <= Ymax <= 32767
    invariant (forall k in 0..i :: !inMap(lines, linesToIgnore, k)) ==> Xmin == 2147483647 && Ymin == 2147483647 && Xmax == -2147483648 && Ymax == -2147483648

// ---- which origins have been tried
func BMCreateOffsetSieve(offsetXMax, offsetYMax, offsetStep)
  requires (offsetStep == 1 || offsetStep == 8) && 0 < offsetXMax <= 128 && 0 < offsetYMax <= 128
  ensures fresh(result) && len(result.values) >= 1
  ensures forall k in 0..len(result.values) :: !result.values[k].Marked && sieveAt(result.values[k].XOffset, result.values[k].YOffset, k, offsetXMax, offsetStep) && result.values[k].YOffset < offsetYMax
  ensures forall x in 0..offsetXMax :: forall y in 0..16384 :: sieveAt(x, y, len(result.values), offsetXMax, offsetStep) ==> y >= offsetYMax
  loop 0
    invariant fresh(a) && fresh(a.values) && ite(hasOffsets, offsetY < offsetYMax, offsetY >= offsetYMax && len(a.values) >= 1)
    invariant sieveAt(offsetX, offsetY, len(a.values), offsetXMax, offsetStep)
    invariant forall k in 0..len(a.values) :: !a.values[k].Marked && sieveAt(a.values[k].XOffset, a.values[k].YOffset, k, offsetXMax, offsetStep) && a.values[k].YOffset < offsetYMax
  loop 1
    invariant 0 <= offsetX && 0 <= offsetY && offsetY % offsetStep == 0 && offsetY + 8 * offsetX < 4096
    invariant offsetX + offsetXMax * (offsetY / offsetStep) == len(a.values) * offsetStep
// the k-th origin in the order all threads share
define sieveAt(x, y, k, m, step) = 0 <= x < m && 0 <= y && y % step == 0 && x + m * (y / step) == k * step

func OffsetSieve.Mark(s, XOffset, YOffset)
  requires s == nil || (exists i in 0..len(s.values) :: at(s, i, XOffset, YOffset))
  requires s == nil || (forall i in 0..len(s.values) :: at(s, i, XOffset, YOffset) ==> !s.values[i].Marked)
  modifies s.values[*].Marked
  ensures s != nil ==> (forall i in 0..len(s.values) :: s.values[i].Marked == (old(s.values[i].Marked) || at(s, i, XOffset, YOffset)))
  loop 0
    invariant forall k in 0..len(s.values) :: s.values[k].Marked == (old(s.values[k].Marked) || k < rangeindex+1 && at(s, k, XOffset, YOffset))
    invariant marked == (exists k in 0..rangeindex+1 :: at(s, k, XOffset, YOffset))
define at(s, i, x, y) = s.values[i].XOffset == x && s.values[i].YOffset == y

define firstAt(s, n, x, y) = at(s, n, x, y) && (forall k in 0..n :: !at(s, k, x, y))
func OffsetSieve.CountHoles(s, LastXOffset, LastYOffset)
  requires s == nil || (exists i in 0..len(s.values) :: at(s, i, LastXOffset, LastYOffset))
  ensures s == nil ==> result == 0
  ensures result >= 0
  ensures s != nil ==> (forall n in 0..len(s.values) :: firstAt(s, n, LastXOffset, LastYOffset) ==> (result == 0) == (forall k in 0..n :: s.values[k].Marked))
  loop 0
    invariant cnt >= 0 && (cnt == 0) == (forall k in 0..rangeindex+1 :: s.values[k].Marked)
    invariant forall k in 0..rangeindex+1 :: !at(s, k, LastXOffset, LastYOffset)

func MakeRegion_FF(sz)
  requires sz >= 0
  ensures fresh(result) && len(result) == sz && (forall k in 0..sz :: result[k] == 65535)
  loop 0
    invariant 0 <= i <= sz && (forall k in 0..i :: result[k] == 65535)

func BlockmapGCShield.GetHashes(gcs, size)
  requires size >= 1 && (gcs != nil ==> size <= cap(gcs.hashes))
  modifies gcs.hashes, gcs.hashes[*]
  ensures len(result) == size && (forall k in 0..size :: result[k] == 65535)
  loop 0
    invariant 1 <= j && len(gcs.hashes) == size && size <= cap(gcs.hashes)
    invariant forall k in 0..min(j, size) :: gcs.hashes[k] == 65535

func BlockmapGCShield.GetBuckets(gcs)
  modifies gcs.buckets
  ensures len(result) == BBLOCKS_BUCKETS_COUNT && (forall k in 0..BBLOCKS_BUCKETS_COUNT :: result[k] == 65535)
  loop 0
    invariant 1 <= j 
    invariant forall k in 0..min(j, BBLOCKS_BUCKETS_COUNT) :: gcs.buckets[k] == 65535

func BlockmapGCShield.GetFlags(gcs, size)
  requires size >= 1 && (gcs != nil ==> size <= cap(gcs.flags))
  modifies gcs.flags[*]
  ensures len(result) == size && (forall k in 0..size :: result[k] == 0)
  loop 0
    invariant 1 <= j && len(flags) == size
    invariant forall k in 0..min(j, size) :: flags[k] == 0

func BlockmapGCShield.GetBlockOffsets(gcs, size)
  requires size >= 0 && (gcs != nil ==> size <= cap(gcs.blockOffsets))
  ensures len(result) == size

func Sign(x)
  ensures result == sgn(x)
func Abs(x)
  ensures result == abs(x)
func Scale(a, b, c)
  requires c != 0
  ensures result == tdiv(a * b, c)

property B01: CreateFixedWriterWrapper FixedWriterWrapper.GetBytes FixedWriterWrapper.Seek FixedWriterWrapper.Write FixedWriterWrapper.WriteWithOrder CompareBlocklist BMIsSubset BMIsSubsetSimple Blockmap.LimitCheck RecomputeBounds MakeRegion_FF BlockmapGCShield.GetHashes BlockmapGCShield.GetBuckets BlockmapGCShield.GetFlags BlockmapGCShield.GetBlockOffsets BlockmapGCShield.GetLumpFromPool Sign Abs Scale
bounded B01: CreateBlockmap, GetBytes, GetBytesArcane and what they call (the walk of lines over blocks, list sharing and subset compression) are not proved: random line sets of up to a few hundred lines, every encoding mode, fresh and reused buffers, against an exact integer oracle of the blocks a line meets
property B02: OffsetPreceedes IsBlockmapBetter IsBlockmapGoodEnough CutoffOffset ChooseModeWithCutoff BlockmapGCShield.getUnusedSlot BlockmapGCShield.RotateLumpPool BlockmapGCShield.GetLumpFromPool BMBeeMaxSize BMCreateOffsetSieve OffsetSieve.Mark OffsetSieve.CountHoles RecomputeBounds
bounded B02: BlockmapGenerator, BlockmapQueen, BlockmapBee and BlockmapHive (the goroutines that share out the origins) are not proved: random small line sets with 1 to 5 goroutines, the lump compared with those of all 36 origins
