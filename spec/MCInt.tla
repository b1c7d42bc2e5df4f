------------------------------- MODULE MCInt -------------------------------
(* The fast paths of ClaraInt agree with Word on all pairs of boundary values. *)
EXTENDS ClaraInt, TLC
VARIABLES a, b
Ns == {0, 1, -1, 2, -2, 3, 7, -7, 8, 255, 511, 512, 513, 32767, 32768, -32768, 65535, 65536, 1000003, -99991,
       134217727, -134217728, 134217726, 67108864, -67108864}
Vals == {I(n) : n \in Ns} \cup {Canon(WFromInt(n)) : n \in {134217728, -134217729, 2^30, -(2^30), 2147483647}}
  \cup {Canon(w) : w \in {WMinWord, WNot(WMinWord), WShl(WOne, 31), WShl(WOne, 32), WShl(WOne, 61), WNeg(WShl(WOne, 45)), WAdd(WShl(WOne, 53), WOne)}}
Init == a \in Vals /\ b \in Vals
Next == UNCHANGED <<a, b>>
Inv ==
  LET x == ToW(a)  y == ToW(b) IN
  /\ Canon(x) = a
  /\ IAdd(a, b) = Canon(WAdd(x, y)) /\ ISub(a, b) = Canon(WSub(x, y)) /\ IMul(a, b) = Canon(WMul(x, y))
  /\ b # I(0) => IDiv(a, b) = LET q == WUDiv(WAbs(x), WAbs(y))[1] IN Canon(IF WIsNeg(x) # WIsNeg(y) THEN WNeg(q) ELSE q)
  /\ IAnd(a, b) = Canon(WAnd(x, y)) /\ IOr(a, b) = Canon(WOr(x, y)) /\ IXor(a, b) = Canon(WXor(x, y))
  /\ INot(a) = Canon(WNot(x)) /\ INeg(a) = Canon(WNeg(x))
  /\ ILt(a, b) = WLt(x, y)
  /\ \A k \in 0..63 : IShl(a, I(k)) = Canon(WShl(x, k)) /\ ISar(a, I(k)) = Canon(WSar(x, k))
Spec == Init /\ [][Next]_<<a, b>>
=============================================================================
