// Output file: one growing byte sequence with a write position at its end.
ghostvar outLen int
ghostvar outBytes arr

ghost binSize(int, int) int
ghost binByte(int, int, int) int
// a typed value as binary.Write lays it out (the value's contents are fixed while the lump is on the bus)
define encSize(d) = binSize(tag(d), ifval(d))

extern os.File.Write(f, b) (n, err)
  modifies outLen, outBytes
  ensures n == len(b) && outLen == old(outLen) + len(b)
  ensures forall k in 0..len(b) :: outBytes[old(outLen) + k] == b[k]
  ensures forall k in 0..old(outLen) :: outBytes[k] == old(outBytes[k])

extern binary.Write(w, order, data) (err)
  modifies outLen, outBytes
  ensures encSize(data) >= 0 && (istype(w, *os.File) ==> outLen == old(outLen) + encSize(data))
  ensures istype(w, *os.File) ==> (forall k in 0..encSize(data) :: outBytes[old(outLen) + k] == binByte(tag(data), ifval(data), k))
  ensures forall k in 0..old(outLen) :: outBytes[k] == old(outBytes[k])
  ensures !istype(w, *os.File) ==> outLen == old(outLen)

extern binary.Size(v)
  ensures result == encSize(v) && result >= 0

extern Hash(data)
extern HashIntf(data)

define m32(x) = x % 4294967296
define onlyEntry(le, i) = forall k in 0..len(le) :: k == i || le[k].FilePos == old(le[k].FilePos) && le[k].Size == old(le[k].Size)
define namesKept(le) = forall k in 0..len(le) :: forall c in 0..8 :: le[k].Name[c] == old(le[k].Name[c])

func WriteSliceLump(data, curPos, fout, le, lumpIdx, s, postfix)
  requires 0 <= lumpIdx < len(le) && deref(curPos) == m32(outLen) && outLen >= 0
  modifies outLen, outBytes, *curPos, le[lumpIdx].FilePos, le[lumpIdx].Size
  ensures le[lumpIdx].FilePos == m32(old(outLen)) && le[lumpIdx].Size == m32(len(data))
  ensures outLen == old(outLen) + len(data) && deref(curPos) == m32(outLen)
  ensures forall k in 0..len(data) :: outBytes[old(outLen) + k] == data[k]
  ensures forall k in 0..old(outLen) :: outBytes[k] == old(outBytes[k])
  ensures onlyEntry(le, lumpIdx) && namesKept(le)

func ConvertAndWriteGenericLump(data, curPos, fout, le, lumpIdx, s, postfix)
  requires 0 <= lumpIdx < len(le) && deref(curPos) == m32(outLen) && fout != nil && outLen >= 0
  modifies outLen, outBytes, *curPos, le[lumpIdx].FilePos, le[lumpIdx].Size
  ensures le[lumpIdx].FilePos == m32(old(outLen)) && le[lumpIdx].Size == m32(encSize(data))
  ensures encSize(data) >= 0 && outLen == old(outLen) + encSize(data) && deref(curPos) == m32(outLen)
  ensures forall k in 0..encSize(data) :: outBytes[old(outLen) + k] == binByte(tag(data), ifval(data), k)
  ensures forall k in 0..old(outLen) :: outBytes[k] == old(outBytes[k])
  ensures onlyEntry(le, lumpIdx) && namesKept(le)

func ConvertAndWriteDeepNodes(data, curPos, fout, le, lumpIdx, s, postfix)
  requires 0 <= lumpIdx < len(le) && deref(curPos) == m32(outLen) && fout != nil && outLen >= 0
  modifies outLen, outBytes, *curPos, le[lumpIdx].FilePos, le[lumpIdx].Size
  ensures le[lumpIdx].FilePos == m32(old(outLen)) && le[lumpIdx].Size == m32(outLen - old(outLen))
  ensures outLen >= old(outLen) + 8 && deref(curPos) == m32(outLen)
  ensures forall k in 0..8 :: outBytes[old(outLen) + k] == DEEPNODES_SIG[k]
  ensures forall k in 0..old(outLen) :: outBytes[k] == old(outBytes[k])
  ensures onlyEntry(le, lumpIdx) && namesKept(le)

// ---- the bus: one goroutine takes requests off a channel and appends each lump
// number of directory entries of the file being written (fixed while a bus runs)
ghostvar busEntries int
channel WriteBusRequest(r): r.tpeIndex == WRI_TYPE_SYNC || 0 <= r.lumpIdx < busEntries

define sameEnt(le, k) = le[k].FilePos == old(le[k].FilePos) && le[k].Size == old(le[k].Size)
define within(le, k) = old(outLen) <= le[k].FilePos && le[k].FilePos + le[k].Size <= outLen
define apart(le, k, m) = le[k].FilePos + le[k].Size <= le[m].FilePos || le[m].FilePos + le[m].Size <= le[k].FilePos
// what the bus guarantees at any time, as long as the file is below 4 GiB
define busOK(le) = outLen < 4294967296 ==> (forall k in 0..len(le) :: sameEnt(le, k) || within(le, k)) && (forall k, m in 0..len(le) :: k == m || sameEnt(le, k) || sameEnt(le, m) || apart(le, k, m))

func WriteBus.WriteBusLoop(b, ch, chFinish, chSync)
  requires busEntries == len(b.le) && b.curPos == m32(outLen) && b.fout != nil
  requires outLen >= 0
  modifies outLen, outBytes, b.curPos, b.le[*].FilePos, b.le[*].Size
  ensures b.curPos == m32(outLen) && old(outLen) <= outLen
  ensures forall k in 0..old(outLen) :: outBytes[k] == old(outBytes[k])
  ensures namesKept(b.le)
  ensures busOK(b.le)
  loop 0
    invariant b.curPos == m32(outLen) && old(outLen) <= outLen
    invariant forall k in 0..old(outLen) :: outBytes[k] == old(outBytes[k])
    invariant namesKept(b.le)
    invariant busOK(b.le)

func WriteBusControl.SendRawLump(c, data, lumpIdx, s, postfix)
  requires 0 <= lumpIdx < busEntries
func WriteBusControl.SendGenericLump(c, data, lumpIdx, s, postfix)
  requires 0 <= lumpIdx < busEntries
func WriteBusControl.SendDeepNodesLump(c, data, lumpIdx, s, postfix)
  requires 0 <= lumpIdx < busEntries
func WriteBusControl.Sync(c)

property W02: WriteSliceLump ConvertAndWriteGenericLump ConvertAndWriteDeepNodes WriteBus.WriteBusLoop WriteBusControl.SendRawLump WriteBusControl.SendGenericLump WriteBusControl.SendDeepNodesLump WriteBusControl.Sync
