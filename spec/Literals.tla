------------------------------ MODULE Literals ------------------------------
(* Integer literals (C01).  A literal is accepted exactly if its value fits  *)
(* in a signed 63-bit integer, and then denotes that value.                  *)
EXTENDS ClaraInt, TLC, Json, IOUtils
Lits == JsonDeserialize(IOEnv.LIT_JSON).lits
VARIABLE i
IsHex(t) == Len(t) > 2 /\ t[1] = 48 /\ t[2] = 120
DigitOf(c) == IF c < 58 THEN c - 48 ELSE IF c < 71 THEN c - 55 ELSE c - 87
Max == <<"w", WNot(WMinWord)>>
(* value of the digits, or "big" once it exceeds the largest integer *)
RECURSIVE Value(_, _, _, _)
Value(t, base, j, acc) ==
  IF j > Len(t) THEN acc
  ELSE LET d == I(DigitOf(t[j]))
           lim == IDiv(ISub(Max, d), I(base))       \* acc * base + d <= Max
       IN IF ILt(lim, acc) THEN <<"big">> ELSE Value(t, base, j + 1, IAdd(IMul(acc, I(base)), d))
LitValue(t) == IF IsHex(t) THEN Value(t, 16, 3, I(0)) ELSE Value(t, 10, 1, I(0))
Good(r) == LET v == LitValue(r.text) IN
           IF v = <<"big">> THEN ~r.acc ELSE r.acc /\ r.out = IDec(v) \o <<10>>
Init == i \in 1..Len(Lits)
Next == UNCHANGED i
Spec == Init /\ [][Next]_i
Agrees == Good(Lits[i]) \/ (PrintT("BADLIT " \o ToString(i)) /\ FALSE)
=============================================================================
