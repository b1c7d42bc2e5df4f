------------------------------ MODULE MCWord ------------------------------
(* Exhaustive comparison of Word at 3 limbs of 2 bits (6-bit words) and, by *)
(* sampling boundary words, of derived identities at the real width.        *)
EXTENDS Integers, Sequences, TLC
W == INSTANCE Word WITH B <- 4, LBits <- 2, NL <- 3
R == INSTANCE Word WITH B <- 512, LBits <- 9, NL <- 7
Wrap(n) == LET m == n % 64 IN IF m >= 32 THEN m - 64 ELSE m
I == (-32)..31
VARIABLES a, b, ok
TruncDiv(x, y) == LET q == (IF x < 0 THEN -x ELSE x) \div (IF y < 0 THEN -y ELSE y)
                  IN IF (x < 0) # (y < 0) THEN -q ELSE q
F(n) == W!WFromInt(n)
RECURSIVE BitsOp(_, _, _, _)
BitAt(n, i) == (n \div (2^i)) % 2
BitsOp(op, x, y, i) ==
  IF i = 6 THEN 0
  ELSE LET p == BitAt(x, i)  q == BitAt(y, i)
           r == CASE op = "and" -> p * q [] op = "or" -> IF p + q > 0 THEN 1 ELSE 0 [] OTHER -> (p + q) % 2
       IN r * 2^i + BitsOp(op, x, y, i + 1)
Good(x, y) ==
  /\ W!WToInt(F(x)) = x
  /\ W!WAdd(F(x), F(y)) = F(Wrap(x + y))
  /\ W!WSub(F(x), F(y)) = F(Wrap(x - y))
  /\ W!WMul(F(x), F(y)) = F(Wrap(x * y))
  /\ W!WNeg(F(x)) = F(Wrap(-x))
  /\ W!WNot(F(x)) = F(-1 - x)
  /\ y # 0 => W!WDiv(F(x), F(y)) = F(Wrap(TruncDiv(x, y)))
  /\ W!WLt(F(x), F(y)) = (x < y)
  /\ W!WAnd(F(x), F(y)) = F(Wrap(BitsOp("and", x, y, 0)))
  /\ W!WOr(F(x), F(y)) = F(Wrap(BitsOp("or", x, y, 0)))
  /\ W!WXor(F(x), F(y)) = F(Wrap(BitsOp("xor", x, y, 0)))
  /\ \A k \in 0..6 : /\ W!WShl(F(x), k) = F(Wrap(x * 2^k))
                     /\ W!WSar(F(x), k) = F(x \div 2^k)
(* identities at the real width over boundary words *)
Big == { R!WFromInt(n) : n \in {0, 1, -1, 7, -7, 255, 511, 512, 513, 65535, 1000003, -99991, 2^30, -(2^30)} }
       \cup { R!WMinWord, R!WNot(R!WMinWord), R!WShl(R!WOne, 31), R!WShl(R!WOne, 61), R!WNeg(R!WShl(R!WOne, 45)) }
RealGood(x, y) ==
  /\ R!WSub(R!WAdd(x, y), y) = x
  /\ R!WMul(x, y) = R!WMul(y, x)
  /\ y # R!WZero => LET q == R!WDiv(x, y)
                       r == R!WSub(x, R!WMul(q, y))
                   IN /\ R!WIsNeg(r) => R!WIsNeg(x)
                      /\ ~R!WIsNeg(r) => (r = R!WZero \/ ~R!WIsNeg(x))
                      /\ R!WULt(R!WAbs(r), R!WAbs(y))
  /\ R!WXor(R!WXor(x, y), y) = x
  /\ R!WLt(x, y) \/ R!WLt(y, x) \/ x = y
RECURSIVE Horner(_, _)
Horner(ds, acc) == IF ds = <<>> THEN acc
                   ELSE Horner(Tail(ds), R!WAdd(R!WMul(acc, R!WFromInt(10)), R!WFromInt(Head(ds))))
Init == /\ a = -32 /\ b \in I /\ ok = TRUE
Next == /\ a < 31
        /\ a' = a + 1 /\ b' = b
        /\ ok' = Good(a, b)
Inv == ok /\ Good(a, b)
ASSUME \A x \in Big, y \in Big : RealGood(x, y)
ASSUME \A x \in Big : Horner(R!WUDec(R!WAbs(x)), R!WZero) = R!WAbs(x)
Spec == Init /\ [][Next]_<<a, b, ok>>
=============================================================================
