----------------------------- MODULE ClaraInt -----------------------------
(***************************************************************************)
(* Clara's integers: signed 63-bit two's complement.  A value is            *)
(* <<"i", n>> with n a TLC integer, |n| <= 2^27, or <<"w", word>> otherwise.*)
(* The representation is canonical, so equality is equality of values.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, Word      \* with B = 512, LBits = 9, NL = 7

Small(n) == -134217728 <= n /\ n < 134217728       \* 2^27: three limbs
I(n) == <<"i", n>>
ToW(x) == IF x[1] = "i" THEN WFromInt(x[2]) ELSE x[2]
Canon(w) == IF /\ \/ \A j \in 4..7 : w[j] = 0
                  \/ \A j \in 4..7 : w[j] = 511
               /\ Small(WToInt(w))
            THEN <<"i", WToInt(w)>> ELSE <<"w", w>>
FromZ(n) == IF Small(n) THEN <<"i", n>> ELSE <<"w", WFromInt(n)>>
Both(a, b) == a[1] = "i" /\ b[1] = "i"
Mag(n) == IF n < 0 THEN -n ELSE n

IAdd(a, b) == IF Both(a, b) THEN FromZ(a[2] + b[2]) ELSE Canon(WAdd(ToW(a), ToW(b)))
ISub(a, b) == IF Both(a, b) THEN FromZ(a[2] - b[2]) ELSE Canon(WSub(ToW(a), ToW(b)))
INeg(a)    == IF a[1] = "i" THEN FromZ(-a[2]) ELSE Canon(WNeg(a[2]))
IMul(a, b) == IF Both(a, b) /\ (b[2] = 0 \/ Mag(a[2]) < 1073741824 \div Mag(b[2])) THEN FromZ(a[2] * b[2])
              ELSE Canon(WMul(ToW(a), ToW(b)))
TruncDiv(x, y) == LET q == Mag(x) \div Mag(y) IN IF (x < 0) # (y < 0) THEN -q ELSE q
IDiv(a, b) == IF Both(a, b) THEN FromZ(TruncDiv(a[2], b[2])) ELSE Canon(WDiv(ToW(a), ToW(b)))
INot(a)    == IF a[1] = "i" THEN FromZ(-1 - a[2]) ELSE Canon(WNot(a[2]))
(* 28-bit two's complement of a small value, and back *)
To28(n) == IF n < 0 THEN n + 268435456 ELSE n
Of28(n) == <<"i", IF n >= 134217728 THEN n - 268435456 ELSE n>>
IAnd(a, b) == IF Both(a, b) THEN Of28(To28(a[2]) & To28(b[2])) ELSE Canon(WAnd(ToW(a), ToW(b)))
IOr(a, b)  == IF Both(a, b) THEN Of28(To28(a[2]) | To28(b[2])) ELSE Canon(WOr(ToW(a), ToW(b)))
IXor(a, b) == IF Both(a, b) THEN Of28(To28(a[2]) ^^ To28(b[2])) ELSE Canon(WXor(ToW(a), ToW(b)))
ILt(a, b)  == IF Both(a, b) THEN a[2] < b[2] ELSE WLt(ToW(a), ToW(b))
IsShift(b) == b[1] = "i" /\ b[2] >= 0 /\ b[2] < 64
IShl(a, b) == IF b[2] <= 26 /\ a[1] = "i" /\ Mag(a[2]) < 134217728 \div 2^b[2] THEN <<"i", a[2] * 2^b[2]>> ELSE Canon(WShl(ToW(a), b[2]))
ISar(a, b) == IF a[1] = "i" THEN <<"i", a[2] \div 2^(IF b[2] > 30 THEN 30 ELSE b[2])>> ELSE Canon(WSar(ToW(a), b[2]))
IIsNeg(a)  == IF a[1] = "i" THEN a[2] < 0 ELSE WIsNeg(a[2])
IZero(a)   == a = <<"i", 0>>

(* shortest decimal form as a sequence of bytes *)
RECURSIVE NatDec(_)
NatDec(n) == IF n < 10 THEN <<48 + n>> ELSE NatDec(n \div 10) \o <<48 + (n % 10)>>
IDec(a) ==
  IF a[1] = "i" THEN (IF a[2] < 0 THEN <<45>> \o NatDec(-a[2]) ELSE NatDec(a[2]))
  ELSE LET ds == WUDec(WAbs(a[2]))
           bs == [j \in 1..Len(ds) |-> 48 + ds[j]]
       IN (IF WIsNeg(a[2]) THEN <<45>> ELSE <<>>) \o bs

(* hexadecimal form of the 64-bit sign extension (C's %llx) *)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Nibble(a, j) ==      \* j-th group of four bits, j = 0..15
  LET w == ToW(a)
      bit(k) == IF k >= 63 THEN (IF WIsNeg(w) THEN 1 ELSE 0) ELSE WBit(w, k)
  IN bit(4*j) + 2 * bit(4*j + 1) + 4 * bit(4*j + 2) + 8 * bit(4*j + 3)
Hex16(a) == <<>> \o [j \in 1..16 |-> HexDigit(Nibble(a, 16 - j))]
RECURSIVE DropZeros(_)
DropZeros(s) == IF Len(s) > 1 /\ s[1] = 48 THEN DropZeros(Tail(s)) ELSE s
IHex(a) == DropZeros(Hex16(a))

(* the 63 binary digits grouped from the right in eights by a middle dot *)
RECURSIVE BinR(_, _)
BinR(w, j) == IF j < 0 THEN <<>>
              ELSE <<48 + WBit(w, j)>> \o (IF j > 0 /\ j % 8 = 0 THEN <<194, 183>> ELSE <<>>) \o BinR(w, j - 1)
IBin(a) == BinR(ToW(a), 62)

(* signed byte of an integer, C's (signed char) *)
ByteOf(a) == LET w == ToW(a)  u == w[1] % 256 IN IF u >= 128 THEN u - 256 ELSE u

(* literals: digits to values *)
RECURSIVE DecLit(_, _, _)
DecLit(ds, j, acc) == IF j > Len(ds) THEN acc
                      ELSE DecLit(ds, j + 1, IAdd(IMul(acc, I(10)), I(ds[j])))
RECURSIVE HexLit(_, _, _)
HexLit(ds, j, acc) == IF j > Len(ds) THEN acc
                      ELSE HexLit(ds, j + 1, IOr(IShl(acc, I(4)), I(ds[j])))

(* 32-bit FNV-1a over bytes 0..255 *)
Mask32 == Canon(WSub(WShl(WOne, 32), WOne))
FnvPrime == I(16777619)
FnvBasis == HexLit(<<8, 1, 1, 12, 9, 13, 12, 5>>, 1, I(0))
RECURSIVE FnvR(_, _, _)
FnvR(bs, j, h) == IF j > Len(bs) THEN h
                  ELSE FnvR(bs, j + 1, IAnd(IMul(IXor(h, I(bs[j])), FnvPrime), Mask32))
IFnv(bs) == FnvR(bs, 1, FnvBasis)
=============================================================================
