------------------------------ MODULE ClaraMap ------------------------------
(***************************************************************************)
(* The library's hash map (property C14).                                   *)
(* Abstractly a map is a function from key classes (keys the matcher takes  *)
(* for equal) to values.  Concretely it is a table of buckets; the table    *)
(* doubles when the number of entries exceeds three quarters of its length. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Absent == -1
NoMap == [x \in {} |-> 0]

AGet(m, c) == IF c \in DOMAIN m THEN m[c] ELSE Absent
APut(m, c, v) == (c :> v) @@ m
ARemove(m, c) == [x \in DOMAIN m \ {c} |-> m[x]]
ASize(m) == Cardinality(DOMAIN m)

(* the entries a foreach may visit: every one exactly once, in any order.  es: sequence of <<class, value>> *)
AEach(m, es) == /\ Len(es) = ASize(m)
                /\ {es[j] : j \in 1..Len(es)} = {<<c, m[c]>> : c \in DOMAIN m}

----------------------------------------------------------------------------
(* hash: function from keys to hash values.  The table t: [b |-> sequence of buckets, n |-> entries, max |-> threshold]; bucket: sequence of <<key, value>> *)
Threshold(n) == n - n \div 4
NewTable(n) == [b |-> [j \in 1..n |-> <<>>], n |-> 0, max |-> Threshold(n)]
Slot(t, hash) == (hash % Len(t.b)) + 1

Hit(bucket, Same(_)) == {j \in 1..Len(bucket) : Same(bucket[j][1])}
First(S) == CHOOSE j \in S : \A k \in S : j <= k

RECURSIVE Rehash(_, _, _, _)
(* move the entries es[j..] into the buckets b *)
Rehash(b, es, j, h) ==
  IF j > Len(es) THEN b
  ELSE LET x == (h[es[j][1]] % Len(b)) + 1 IN Rehash([b EXCEPT ![x] = <<es[j]>> \o @], es, j + 1, h)
RECURSIVE Concat(_, _)
Concat(b, j) == IF j > Len(b) THEN <<>> ELSE b[j] \o Concat(b, j + 1)
Grow(t, h) ==
  LET n == 2 * Len(t.b) IN
  [b |-> Rehash([j \in 1..n |-> <<>>], Concat(t.b, 1), 1, h), n |-> t.n, max |-> Threshold(n)]

(* <<result, table>> *)
TGet(t, hash, Same(_)) ==
  LET bk == t.b[Slot(t, hash)]  h == Hit(bk, Same) IN IF h = {} THEN Absent ELSE bk[First(h)][2]
TPut(t, k, v, hash, Same(_)) ==
  LET x == Slot(t, hash[k])
      h == Hit(t.b[x], Same)
  IN IF h # {} THEN <<t.b[x][First(h)][2], [t EXCEPT !.b[x][First(h)][2] = v]>>
     ELSE LET u == [t EXCEPT !.b[x] = <<<<k, v>>>> \o @, !.n = @ + 1] IN
          <<Absent, IF u.n > u.max THEN Grow(u, hash) ELSE u>>
TRemove(t, k, hash, Same(_)) ==
  LET x == Slot(t, hash[k])
      h == Hit(t.b[x], Same)
      f == First(h)
  IN IF h = {} THEN <<Absent, t>>
     ELSE <<t.b[x][f][2], [t EXCEPT !.b[x] = SubSeq(@, 1, f - 1) \o SubSeq(@, f + 1, Len(@)), !.n = @ - 1]>>
=============================================================================
