------------------------------- MODULE Word -------------------------------
(***************************************************************************)
(* Two's complement words of (limb bits * NL) bits.  A word is a sequence   *)
(* of NL limbs, each in 0..B-1, least significant first.  TLC's integers    *)
(* are 32 bits wide, so Clara's 63-bit integers are 7 limbs of 9 bits.      *)
(* The module is parametrised so that MCWord can compare every operation    *)
(* exhaustively with ordinary integer arithmetic at a small width.          *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE Bitwise

CONSTANTS B,    \* limb base, a power of two
          LBits,\* B = 2^LBits
          NL    \* number of limbs

WHalf == B \div 2

RECURSIVE WFromIntR(_, _)
WFromIntR(n, i) == IF i > NL THEN <<>> ELSE <<n % B>> \o WFromIntR(n \div B, i + 1)
WFromInt(n) == WFromIntR(n, 1)

(* TLC keeps [x \in S |-> e] unevaluated; concatenation turns it into a tuple *)
Force(f) == <<>> \o f

WZero == Force([i \in 1..NL |-> 0])
WOne  == Force([i \in 1..NL |-> IF i = 1 THEN 1 ELSE 0])
WIsNeg(a) == a[NL] >= WHalf
WMinWord == Force([i \in 1..NL |-> IF i = NL THEN WHalf ELSE 0])

RECURSIVE WAddR(_, _, _, _)
WAddR(a, b, i, c) ==
  IF i > NL THEN <<>>
  ELSE LET s == a[i] + b[i] + c IN <<s % B>> \o WAddR(a, b, i + 1, s \div B)
WAdd(a, b) == WAddR(a, b, 1, 0)

WNot(a) == Force([i \in 1..NL |-> B - 1 - a[i]])
WNeg(a) == WAdd(WNot(a), WOne)
WSub(a, b) == WAddR(a, WNot(b), 1, 1)

WAnd(a, b) == Force([i \in 1..NL |-> a[i] & b[i]])
WOr(a, b)  == Force([i \in 1..NL |-> a[i] | b[i]])
WXor(a, b) == Force([i \in 1..NL |-> a[i] ^^ b[i]])

RECURSIVE WCol(_, _, _, _)
WCol(a, b, k, i) == IF i > k THEN 0 ELSE a[i] * b[k + 1 - i] + WCol(a, b, k, i + 1)
RECURSIVE WMulR(_, _, _, _)
WMulR(a, b, k, c) ==
  IF k > NL THEN <<>>
  ELSE LET s == WCol(a, b, k, 1) + c IN <<s % B>> \o WMulR(a, b, k + 1, s \div B)
WMul(a, b) == WMulR(a, b, 1, 0)

(* unsigned order, most significant limb first *)
RECURSIVE WULtR(_, _, _)
WULtR(a, b, i) == IF i = 0 THEN FALSE
                 ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE WULtR(a, b, i - 1)
WULt(a, b) == WULtR(a, b, NL)
WLt(a, b) == IF WIsNeg(a) # WIsNeg(b) THEN WIsNeg(a) ELSE WULt(a, b)

(* shifts *)
WShlBits(a, r) ==      \* 0 <= r < LBits
  LET m == 2^r IN
  Force([i \in 1..NL |-> ((a[i] * m) % B) + (IF i = 1 THEN 0 ELSE (a[i-1] * m) \div B)])
WShl(a, k) ==
  IF k >= NL * LBits THEN WZero
  ELSE LET q == k \div LBits
           moved == Force([i \in 1..NL |-> IF i - q >= 1 THEN a[i - q] ELSE 0])
       IN WShlBits(moved, k % LBits)
WSar(a, k0) ==
  LET k == IF k0 >= NL * LBits THEN NL * LBits - 1 ELSE k0
      fill == IF WIsNeg(a) THEN B - 1 ELSE 0
      q == k \div LBits
      r == k % LBits
      at(i) == IF i > NL THEN fill ELSE a[i]
      m == 2^r
  IN Force([i \in 1..NL |-> (at(i + q) \div m) + (at(i + q + 1) % m) * (B \div m)])

WBit(a, k) == (a[(k \div LBits) + 1] \div (2^(k % LBits))) % 2

WAbs(a) == IF WIsNeg(a) THEN WNeg(a) ELSE a

(* unsigned long division, one bit at a time: <<quotient, remainder>>.      *)
(* Magnitudes are at most 2^(bits-1), so the shifted remainder fits.        *)
RECURSIVE WUDivR(_, _, _, _, _)
WUDivR(a, d, i, q, r) ==
  IF i < 0 THEN <<q, r>>
  ELSE LET r1 == LET s == WShlBits(r, 1) IN [s EXCEPT ![1] = @ + WBit(a, i)]
           ge == ~WULt(r1, d)
           q1 == LET s == WShlBits(q, 1) IN IF ge THEN [s EXCEPT ![1] = @ + 1] ELSE s
       IN WUDivR(a, d, i - 1, q1, IF ge THEN WSub(r1, d) ELSE r1)
(* logical right shift *)
WShr(a, k) ==
  LET q == k \div LBits
      m == 2^(k % LBits)
      at(i) == IF i > NL THEN 0 ELSE a[i]
  IN Force([i \in 1..NL |-> (at(i + q) \div m) + (at(i + q + 1) % m) * (B \div m)])
RECURSIVE WTop(_, _)
WTop(d, i) == IF i < 0 THEN -1 ELSE IF WBit(d, i) = 1 THEN i ELSE WTop(d, i - 1)
(* the leading bits of a that are fewer than those of d can not contain d *)
WUDiv(a, d) ==
  LET t == WTop(d, NL * LBits - 1) IN
  WUDivR(a, d, NL * LBits - 1 - t, WZero, WShr(a, NL * LBits - t))

(* division of an unsigned word by a small number *)
RECURSIVE WDivSmallR(_, _, _, _)
WDivSmallR(a, d, i, r) ==      \* limbs from the top; returns <<quotient limbs (low first), remainder>>
  IF i = 0 THEN <<<<>>, r>>
  ELSE LET x == r * B + a[i]
           rest == WDivSmallR(a, d, i - 1, x % d)
       IN <<rest[1] \o <<x \div d>>, rest[2]>>
WDivSmall(a, d) == WDivSmallR(a, d, NL, 0)

(* truncated signed division; the divisor is not zero *)
WIsSmall(d) == \A i \in 3..NL : d[i] = 0
WDiv(a, b) ==
  LET d == WAbs(b)
      q == IF NL > 3 /\ WIsSmall(d) THEN WDivSmall(WAbs(a), d[1] + B * d[2])[1] ELSE WUDiv(WAbs(a), d)[1]
  IN IF WIsNeg(a) # WIsNeg(b) THEN WNeg(q) ELSE q

(* a word as an integer, when it is known to fit TLC's integers *)
RECURSIVE WUVal(_, _)
WUVal(a, i) == IF i > NL THEN 0 ELSE a[i] + B * WUVal(a, i + 1)
WToInt(a) == IF WIsNeg(a) THEN -1 - WUVal(WNot(a), 1) ELSE WUVal(a, 1)

(* does it fit in 30 bits?  (limbs 4.. are pure sign, limb 3.. checked too)  *)
WFits(a) == /\ NL > 3
           /\ \/ \A i \in 4..NL : a[i] = 0
              \/ \A i \in 4..NL : a[i] = B - 1

(* decimal digits of an unsigned word, as a sequence of 0..9 *)
RECURSIVE WUDec(_)
WUDec(a) == IF \A i \in 1..NL : a[i] = 0 THEN <<>>
           ELSE LET qr == WDivSmall(a, 10) IN WUDec(qr[1]) \o <<qr[2]>>
=============================================================================
