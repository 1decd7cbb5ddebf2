// Ring buffer used by the breadth-first searches

define pow2(n) = exists k in 0..32 :: n == 1 << k
define ispow2(n) = n == 1 || n == 2 || n == 4 || n == 8 || n == 16 || n == 32 || n == 64 || n == 128 || n == 256 || n == 512 || n == 1024 || n == 2048 || n == 4096 || n == 8192 || n == 16384 || n == 32768 || n == 65536
define ringSize(r) = (r.write - r.read) % 4294967296
define ringOk(r) = r.capacity == len(r.buf) && (r.capacity == 0 || ispow2(r.capacity)) && ringSize(r) <= r.capacity
define ringAt(r, k) = r.buf[((r.read + k) % 4294967296) % r.capacity]

define nextp(y) = ite(y < 1, 1, ite(y < 2, 2, ite(y < 4, 4, ite(y < 8, 8, ite(y < 16, 16, ite(y < 32, 32, ite(y < 64, 64, ite(y < 128, 128, ite(y < 256, 256, ite(y < 512, 512, ite(y < 1024, 1024, ite(y < 2048, 2048, ite(y < 4096, 4096, ite(y < 8192, 8192, ite(y < 16384, 16384, ite(y < 32768, 32768, 65536))))))))))))))))

func RoundPOW2_Uint32(x)
  loop 0
    invariant 0 <= tmp < nextp(old(x) - 1) && 0 <= x < nextp(old(x) - 1)
    invariant nextp(old(x) - 1) - x <= nextp(tmp)
    case nextp(old(x) - 1) == 1; nextp(old(x) - 1) == 2; nextp(old(x) - 1) == 4; nextp(old(x) - 1) == 8; nextp(old(x) - 1) == 16; nextp(old(x) - 1) == 32; nextp(old(x) - 1) == 64; nextp(old(x) - 1) == 128; nextp(old(x) - 1) == 256; nextp(old(x) - 1) == 512; nextp(old(x) - 1) == 1024; nextp(old(x) - 1) == 2048; nextp(old(x) - 1) == 4096; nextp(old(x) - 1) == 8192; nextp(old(x) - 1) == 16384; nextp(old(x) - 1) == 32768; nextp(old(x) - 1) == 65536
  requires x <= 65536
  ensures x <= result && (x == 0 ==> result == 0) && (x > 0 ==> ispow2(result) && result < 2 * x)

extern MyLogger.Panic(l, s, a)
  requires false
  noreturn

func CreateRingU16(capacity)
  requires capacity <= 65536
  ensures fresh(result) && ringOk(result) && result.capacity >= capacity && ringSize(result) == 0 && fresh(result.buf) && obj(result.buf) != obj(result)

func RingU16.Empty(r)
  requires ringOk(r)
  ensures result == (ringSize(r) == 0)

func RingU16.Size(r)
  requires ringOk(r)
  ensures result == ringSize(r)

func RingU16.Reset(r)
  requires ringOk(r)
  modifies r.write
  ensures ringOk(r) && ringSize(r) == 0

func RingU16.Enqueue(r, item)
  case r.capacity == 1; r.capacity == 2; r.capacity == 4; r.capacity == 8; r.capacity == 16; r.capacity == 32; r.capacity == 64; r.capacity == 128; r.capacity == 256; r.capacity == 512; r.capacity == 1024; r.capacity == 2048; r.capacity == 4096; r.capacity == 8192; r.capacity == 16384; r.capacity == 32768; r.capacity == 65536
  requires ringOk(r) && ringSize(r) < r.capacity
  modifies r.write, r.buf[*]
  ensures ringOk(r) && ringSize(r) == old(ringSize(r)) + 1
  ensures ringAt(r, old(ringSize(r))) == item
  ensures forall k in 0..old(ringSize(r)) :: ringAt(r, k) == old(ringAt(r, k))

func RingU16.Dequeue(r)
  case r.capacity == 1; r.capacity == 2; r.capacity == 4; r.capacity == 8; r.capacity == 16; r.capacity == 32; r.capacity == 64; r.capacity == 128; r.capacity == 256; r.capacity == 512; r.capacity == 1024; r.capacity == 2048; r.capacity == 4096; r.capacity == 8192; r.capacity == 16384; r.capacity == 32768; r.capacity == 65536
  requires ringOk(r) && ringSize(r) > 0
  modifies r.read
  ensures ringOk(r) && ringSize(r) == old(ringSize(r)) - 1
  ensures result == old(ringAt(r, 0))
  ensures forall k in 0..ringSize(r) :: ringAt(r, k) == old(ringAt(r, k+1))
