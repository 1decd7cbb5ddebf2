define hid(v) = ite(v == VIS_VISIBLE, 0, 1)
define encByte(t, b) = hid(t[8*b]) + 2*hid(t[8*b+1]) + 4*hid(t[8*b+2]) + 8*hid(t[8*b+3]) + 16*hid(t[8*b+4]) + 32*hid(t[8*b+5]) + 64*hid(t[8*b+6]) + 128*hid(t[8*b+7])
define rejSize(n) = (n*n + 7) / 8

func RejectWork.getResult(r)
  requires 0 <= r.numSectors <= 65536
  requires len(r.rejectTable) >= 8 * rejSize(r.numSectors)
  ensures len(result) == rejSize(old(r.numSectors))
  ensures forall b in 0..len(result) :: result[b] == encByte(old(r.rejectTable), b)
  loop 0
    invariant tbIdx == 8*$k
    invariant forall b in 0..$k :: result[b] == encByte(r.rejectTable, b)

func FastRejectWork.getResult(r)
  requires 0 <= r.numSectors <= 65536
  requires len(r.rejectTable) >= 8 * rejSize(r.numSectors)
  ensures len(result) == rejSize(old(r.numSectors))
  ensures forall b in 0..len(result) :: result[b] == encByte(old(r.rejectTable), b)
  loop 0
    invariant tbIdx == 8*$k
    invariant forall b in 0..$k :: result[b] == encByte(r.rejectTable, b)

// symmetric table: cell (i,j), i <= j, lives at i*(2n-1-i)/2 + j
opaque tri(n, i, j) = ite(i <= j, (i * (2*n - 1 - i)) / 2 + j, (j * (2*n - 1 - j)) / 2 + i)
// the p-th cell in row-major order; past the end it stays in the last row
define posRow(n, p) = ite(p / n < n, p / n, n - 1)
opaque triPos(n, p) = tri(n, posRow(n, p), p - n * posRow(n, p))
opaque triLen(n) = n * n - (n - 1) * n / 2 + 7
define symHid(r, p) = hid(r.rejectTable[triPos(r.numSectors, p)])
define symByte(r, b) = symHid(r, 8*b) + 2*symHid(r, 8*b+1) + 4*symHid(r, 8*b+2) + 8*symHid(r, 8*b+3) + 16*symHid(r, 8*b+4) + 32*symHid(r, 8*b+5) + 64*symHid(r, 8*b+6) + 128*symHid(r, 8*b+7)
define symOk(r) = 1 <= r.numSectors <= 65536 && r.symmShim == 2*r.numSectors - 1 && len(r.rejectTable) == triLen(r.numSectors)

lemma evenProd(i)
  induct i
  requires i >= 0
  hint evenProd(i - 1)
  ensures (i * i + i) % 2 == 0

lemma triBound(n, i, j)
  requires 1 <= n && 0 <= i < n && 0 <= j && (j < n || i == n - 1 && j <= n + 6)
  hint reveal(tri(n, i, j))
  hint reveal(triLen(n))
  hint (n - i) * (n - 1 - i) >= 0
  hint (n - j) * (n - 1 - j) >= 0 
  hint i * (2*n - 1 - i) == n * (n - 1) - (n - i) * (n - 1 - i)
  hint j * (2*n - 1 - j) == n * (n - 1) - (n - j) * (n - 1 - j)
  hint i * (2*n - 1 - i) >= 0
  hint j < n ==> j * (2*n - 1 - j) >= 0
  hint n * n - (n - 1) * n / 2  >= n * (n - 1) / 2 + n
  ensures 0 <= tri(n, i, j)
  ensures tri(n, i, j) < triLen(n)
  ensures i < n && j < n ==> tri(n, i, j) < triLen(n) - 7

lemma posSplit(n, i, j, p)
  requires 1 <= n && 0 <= i < n && 0 <= j && (j < n || i == n - 1) && p == i * n + j
  hint j < n ==> i * n <= p && p < (i + 1) * n
  hint j < n ==> p / n == i
  hint j >= n ==> p >= n * n
  hint j >= n ==> p / n >= n
  hint reveal(triPos(n, p))
  hint n * posRow(n, p) == n * i
  ensures tri(n, i, j) == triPos(n, p)

func SymmetricRejectWork.rejectTableIJ(r, i, j)
  requires symOk(r) && 0 <= i < r.numSectors && 0 <= j && (j < r.numSectors || i == r.numSectors - 1 && j <= r.numSectors + 6)
  hint triBound(r.numSectors, i, j)
  hint reveal(tri(r.numSectors, i, j))
  ensures obj(result) == obj(r.rejectTable) && off(result) == off(r.rejectTable) + tri(r.numSectors, i, j)

func SymmetricRejectWork.symmMoveIJ(r, i, j)
  requires obj(i) != obj(j) && 0 <= deref(i) < r.numSectors && 0 <= deref(j) && (deref(j) < r.numSectors || deref(i) == r.numSectors - 1)
  modifies *i, *j
  ensures 0 <= deref(i) < r.numSectors && 0 <= deref(j) && (deref(j) < r.numSectors || deref(i) == r.numSectors - 1)
  ensures deref(i) * r.numSectors + deref(j) == old(deref(i) * r.numSectors + deref(j)) + 1

func SymmetricRejectWork.getResult(r)
  requires symOk(r)
  callhint rejectTableIJ: posSplit(r.numSectors, $arg1, $arg2, $arg1 * r.numSectors + $arg2)
  callhint rejectTableIJ: ($arg1 * r.numSectors + $arg2 == 8 * $k + 0 ==> tri(r.numSectors, $arg1, $arg2) == triPos(r.numSectors, 8 * $k + 0)) && ($arg1 * r.numSectors + $arg2 == 8 * $k + 1 ==> tri(r.numSectors, $arg1, $arg2) == triPos(r.numSectors, 8 * $k + 1)) && ($arg1 * r.numSectors + $arg2 == 8 * $k + 2 ==> tri(r.numSectors, $arg1, $arg2) == triPos(r.numSectors, 8 * $k + 2)) && ($arg1 * r.numSectors + $arg2 == 8 * $k + 3 ==> tri(r.numSectors, $arg1, $arg2) == triPos(r.numSectors, 8 * $k + 3)) && ($arg1 * r.numSectors + $arg2 == 8 * $k + 4 ==> tri(r.numSectors, $arg1, $arg2) == triPos(r.numSectors, 8 * $k + 4)) && ($arg1 * r.numSectors + $arg2 == 8 * $k + 5 ==> tri(r.numSectors, $arg1, $arg2) == triPos(r.numSectors, 8 * $k + 5)) && ($arg1 * r.numSectors + $arg2 == 8 * $k + 6 ==> tri(r.numSectors, $arg1, $arg2) == triPos(r.numSectors, 8 * $k + 6)) && ($arg1 * r.numSectors + $arg2 == 8 * $k + 7 ==> tri(r.numSectors, $arg1, $arg2) == triPos(r.numSectors, 8 * $k + 7))
  ensures len(result) == rejSize(r.numSectors)
  ensures forall b in 0..len(result) :: result[b] == symByte(r, b)
  loop 0
    invariant 0 <= i < r.numSectors && 0 <= j && 8 * $k == i * r.numSectors + j && (j < r.numSectors || i == r.numSectors - 1)
    invariant forall b in 0..$k :: result[b] == symByte(r, b)

property R01: RejectWork.getResult FastRejectWork.getResult SymmetricRejectWork.getResult RejectWork.prepareReject FastRejectWork.prepareReject SymmetricRejectWork.prepareReject RejectWork.rejectTableIJ FastRejectWork.rejectTableIJ SymmetricRejectWork.rejectTableIJ
