------------------------------- MODULE MCMap -------------------------------
(* The table implements the finite map, for every hash function and equality on a few keys and every history. *)
EXTENDS ClaraMap
CONSTANTS Keys, Vals, Hashes, N0

VARIABLES hash, cls, t, m, ok
vars == <<hash, cls, t, m, ok>>

Classes == {[k \in Keys |-> k], [k \in Keys |-> (k + 1) \div 2]}

Init == /\ cls \in Classes
        /\ hash \in {h \in [Keys -> Hashes] : \A a, b \in Keys : cls[a] = cls[b] => h[a] = h[b]}
        /\ t = NewTable(N0) /\ m = NoMap /\ ok = TRUE

Put(k, v) == LET r == TPut(t, k, v, hash, LAMBDA x : cls[x] = cls[k]) IN
             /\ t' = r[2] /\ ok' = (r[1] = AGet(m, cls[k])) /\ m' = APut(m, cls[k], v)
Rem(k) == LET r == TRemove(t, k, hash, LAMBDA x : cls[x] = cls[k]) IN
          /\ t' = r[2] /\ ok' = (r[1] = AGet(m, cls[k])) /\ m' = ARemove(m, cls[k])
Next == /\ UNCHANGED <<hash, cls>>
        /\ \E k \in Keys : (\E v \in Vals : Put(k, v)) \/ Rem(k)
Spec == Init /\ [][Next]_vars

Results == ok
Refines == /\ \A k \in Keys : TGet(t, hash[k], LAMBDA x : cls[x] = cls[k]) = AGet(m, cls[k])
           /\ t.n = ASize(m)
           /\ AEach(m, [j \in 1..t.n |-> LET e == Concat(t.b, 1)[j] IN <<cls[e[1]], e[2]>>])
           /\ t.n <= t.max
=============================================================================
