// WAD directory helpers
extern bytes.IndexByte(b, c)
  ensures result == -1 ==> (forall k in 0..len(b) :: b[k] != c)
  ensures result >= -1 && result < len(b)
  ensures result >= 0 ==> b[result] == c && (forall k in 0..result :: b[k] != c)
extern bytes.Equal(a, b)
  ensures result == (len(a) == len(b) && (forall k in 0..len(a) :: a[k] == b[k]))

// the name of an entry ends before the first zero byte
func ByteSliceBeforeTerm(b)
  ensures off(result) == off(b) && obj(result) == obj(b) && len(result) <= len(b)
  ensures forall k in 0..len(result) :: b[k] != 0
  ensures len(result) < len(b) ==> b[len(result)] == 0

define firstName(ref, n, i) = ref[i] == n && (forall k in 0..i :: ref[k] != n)
// exactly the first socket of that name is changed
func SetValiditySocket(lumpName, reference, validitySub, val, additive)
  requires validitySub != nil && len(deref(validitySub)) >= len(reference)
  modifies deref(validitySub)[*]
  ensures forall k in 0..len(reference) :: firstName(reference, lumpName, k) && additive ==> deref(validitySub)[k] == old(deref(validitySub)[k]) + val
  ensures forall k in 0..len(reference) :: firstName(reference, lumpName, k) && !additive ==> deref(validitySub)[k] == val
  ensures forall k in 0..len(deref(validitySub)) :: !(k < len(reference) && firstName(reference, lumpName, k)) ==> deref(validitySub)[k] == old(deref(validitySub)[k])
  loop 0
    invariant target == -1 && (forall k in 0..rangeindex+1 :: reference[k] != lumpName)

define sameBytes(a, b) = len(a) == len(b) && (forall k in 0..len(a) :: a[k] == b[k])
// a list of levels selects those in it, or all the others
func CanRebuildThisLevel(levelName)
  ensures len(config.FilterLevel) == 0 ==> result
  ensures len(config.FilterLevel) > 0 ==> result == ((exists k in 0..len(config.FilterLevel) :: sameBytes(config.FilterLevel[k], levelName)) != config.FilterProhibitsLevels)
  loop 0
    invariant forall k in 0..rangeindex+1 :: !sameBytes(config.FilterLevel[k], levelName)

// zero bytes at the end of a little-endian number
extern binary.littleEndian.PutUint32(o, b, v)
  requires len(b) >= 4
  modifies b[*]
  ensures b[0] == v % 256 && b[1] == tdiv(v, 256) % 256 && b[2] == tdiv(v, 65536) % 256 && b[3] == tdiv(v, 16777216)
func RightTrailZeros(i)
  ensures 0 <= result <= 4
  ensures result == ite(i == 0, 4, ite(i < 256, 3, ite(i < 65536, 2, ite(i < 16777216, 1, 0))))
  loop 0
    invariant 0 <= ii <= 4 && (forall k in 0..4 :: k >= ii ==> iView[k] == 0)

// ---- one pool of zero bytes for all zero-filled rejects, no two at the same offset
define trollOk(t) = t.keyToIds != nil && (forall id in 0..len(t.offsets) :: t.offsets[id] != nil) && (forall k in 0..len(t.allKeys) :: has(t.keyToIds, t.allKeys[k]) && t.allKeys[k] <= t.maxSize) && (forall z in 0..4294967296 :: has(t.keyToIds, z) ==> 0 <= t.keyToIds[z] < len(t.offsets))
func CreateTroll()
  ensures fresh(result) && trollOk(result) && len(result.allKeys) == 0 && len(result.offsets) == 0 && result.maxSize == 0 && !result.compiled
func Troll.AddSize(t, rejlump_size)
  requires trollOk(t)
  modifies t.allKeys, t.allKeys[*], t.keyToIds[*], t.offsets, t.offsets[*], t.maxSize
  ensures trollOk(t) && len(t.allKeys) == old(len(t.allKeys)) + 1 && t.allKeys[old(len(t.allKeys))] == rejlump_size
  ensures forall k in 0..old(len(t.allKeys)) :: t.allKeys[k] == old(t.allKeys[k])
  ensures forall id in 0..old(len(t.offsets)) :: t.offsets[id] == old(t.offsets[id])
  ensures t.maxSize == max(old(t.maxSize), rejlump_size) && (len(t.offsets) == old(len(t.offsets)) || t.offsets[old(len(t.offsets))].first == nil)
// sort.Sort of a []uint32 permutes it (a property used here only element by element)
extern sort.Sort(v)
  requires istype(v, UInt32Slice)
  modifies unboxed(v, UInt32Slice)[*]
  ensures forall k in 0..len(unboxed(v, UInt32Slice)) :: exists j in 0..len(unboxed(v, UInt32Slice)) :: unboxed(v, UInt32Slice)[k] == old(unboxed(v, UInt32Slice)[j])
  ensures forall j in 0..len(unboxed(v, UInt32Slice)) :: exists k in 0..len(unboxed(v, UInt32Slice)) :: unboxed(v, UInt32Slice)[k] == old(unboxed(v, UInt32Slice)[j])
define chainOk(t, hi) = forall id in 0..len(t.offsets) :: t.offsets[id].first == nil || t.offsets[id].first.offset < hi
func Troll.Compile(t)
  requires trollOk(t) && !t.compiled && chainOk(t, 0)
  requires len(t.allKeys) + t.maxSize < 4294967296
  modifies t.allKeys[*], any(OffsetContainer.first), t.compiled
  ensures result >= t.maxSize && t.compiled
  ensures forall k in 0..len(t.allKeys) :: t.allKeys[k] + (len(t.allKeys) - 1 - k) <= result
  ensures chainOk(t, len(t.allKeys))
  loop 0
    invariant -1 <= i < len(t.allKeys) && newOffset == len(t.allKeys) - 1 - i && zeroCount >= t.maxSize
    invariant forall k in 0..len(t.allKeys) :: k > i ==> t.allKeys[k] + (len(t.allKeys) - 1 - k) <= zeroCount
    invariant chainOk(t, newOffset)
func Troll.PopOffset(t, rejlump_size)
  requires trollOk(t) && has(t.keyToIds, rejlump_size) && t.offsets[t.keyToIds[rejlump_size]].first != nil
  modifies t.offsets[t.keyToIds[rejlump_size]].first
  ensures result == old(t.offsets[t.keyToIds[rejlump_size]].first.offset)
  ensures t.offsets[t.keyToIds[rejlump_size]].first == old(t.offsets[t.keyToIds[rejlump_size]].first.next)

property W01: ByteSliceBeforeTerm SetValiditySocket CanRebuildThisLevel
bounded W01: LoadWadDirectory, UpdateDirectoryAndSchedule (linked schedules), Level.DoLevel and main are not proved: random directories through the two functions and small WADs through the whole program, compared with an independent account of the lumps the output must have
property W03: RightTrailZeros CreateTroll Troll.AddSize Troll.Compile Troll.PopOffset
bounded W03: the offset arithmetic in main, which places the directory after the zeros, is not proved: small WADs of 1 to 9 levels through the whole program with zero-filled rejects
