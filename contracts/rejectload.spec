// A reject taken from a file (NOPROCESS): bits of the lump become cells of the table
define cell1(c) = ite(c % 2 == 0, VIS_VISIBLE, VIS_HIDDEN)
opaque bitCell(v, k) = cell1(ite(k == 0, v, ite(k == 1, v / 2, ite(k == 2, v / 4, ite(k == 3, v / 8, ite(k == 4, v / 16, ite(k == 5, v / 32, ite(k == 6, v / 64, v / 128))))))))
define cellOf(src, i) = bitCell(src[i / 8], i % 8)
func rejectLumpSize_nonUDMF(numSectors)
  requires 0 <= numSectors <= 65536
  ensures result == (numSectors * numSectors + 7) / 8

func setRejectTableFromSource(src, numSectors, dest)
  requires 0 <= numSectors <= 65536 && len(dest) >= numSectors * numSectors && 8 * len(src) >= numSectors * numSectors && obj(src) != obj(dest)
  modifies dest[*]
  ensures forall i in 0..numSectors * numSectors :: dest[i] == cellOf(src, i)
  ensures forall i in numSectors * numSectors..len(dest) :: dest[i] == old(dest[i])
  loop 0
    invariant 0 <= i && (i <= numSectors * numSectors) && indexInDest == i && bte == i / 8 && bit == i % 8 && (oldBte == bte ==> ld == src[bte])
    invariant forall k in 0..i :: dest[k] == cellOf(src, k)
    invariant forall k in i..len(dest) :: dest[k] == old(dest[k])
    hint reveal(bitCell(src[bte], bit))
    endhint dest[i - 1] == cellOf(src, i - 1)
    case i % 8 == 0; i % 8 == 1; i % 8 == 2; i % 8 == 3; i % 8 == 4; i % 8 == 5; i % 8 == 6; i % 8 == 7

func resetRejectTable(dest)
  requires len(dest) >= 1
  modifies dest[*]
  ensures forall i in 0..len(dest) :: dest[i] == VIS_UNKNOWN
  loop 0
    invariant 1 <= j && (forall i in 0..len(dest) :: i < j ==> dest[i] == VIS_UNKNOWN)
