------------------------------ MODULE LexTrace ------------------------------
(* Token streams recorded from the real lexer, judged by ClaraLex.  Trace: c, cl, and t: tokens <<kind, line, col, text>>. *)
EXTENDS ClaraLex, Json, IOUtils
CONSTANT Chunk
Data == JsonDeserialize(IOEnv.LEX_JSON)
Traces == Data.traces
VARIABLES tr, s
vars == <<tr, s>>

S0 == [p |-> 1, line |-> 1, col |-> 1, k |-> 1, st |-> "run"]

(* may the recorded token r report the fault of the malformed text between p and q? *)
Reports(T, a, p, q, r) ==
  /\ r[1] = "Err"
  /\ \E e \in p..q : <<r[2], r[3]>> = Walk(T.c, p, e, a.line, a.col)

Step(T, a) ==
  IF a.k > Len(T.t) THEN [a EXCEPT !.st = "missing-token"]
  ELSE LET r == T.t[a.k] IN
  IF a.p > Len(T.c) THEN
    [a EXCEPT !.st = IF r[1] = "EOF" /\ r[2] = a.line /\ r[3] = a.col /\ a.k = Len(T.t) THEN "ok" ELSE "end"]
  ELSE LET t == TokenAt(T.c, T.cl, a.p) IN
  IF t.kind = "Err" THEN
    [a EXCEPT !.st = IF Reports(T, a, a.p, t.end, r) THEN (IF a.k = Len(T.t) THEN "ok" ELSE "after-error") ELSE "error"]
  ELSE IF r[1] = "Err" THEN      \* a name directly before a malformed character may be dropped together with it
    [a EXCEPT !.st = IF T.cl[a.p] = 1 /\ t.end <= Len(T.c) /\ TokenAt(T.c, T.cl, t.end).kind = "Err" /\ Reports(T, a, a.p, t.end, r)
                          /\ a.k = Len(T.t) THEN "ok" ELSE "error"]
  ELSE IF r[1] = t.kind /\ r[2] = a.line /\ r[3] = a.col /\ r[4] = SubSeq(T.c, a.p, t.end - 1)
       THEN LET w == Walk(T.c, a.p, t.end, a.line, a.col) IN [a EXCEPT !.p = t.end, !.line = w[1], !.col = w[2], !.k = @ + 1]
       ELSE [a EXCEPT !.st = "token"]

RECURSIVE Run(_, _, _)
Run(T, a, n) == IF n = 0 \/ a.st # "run" THEN a ELSE Run(T, Step(T, a), n - 1)

Init == tr \in 1..Len(Traces) /\ s = S0
Next == /\ s.st = "run" /\ UNCHANGED tr
        /\ s' = Run(Traces[tr], s, Chunk)
        /\ (s'.st \notin {"run", "ok"}) => PrintT("VERDICT " \o ToString(tr) \o " " \o s'.st \o " " \o ToString(s'.k) \o " " \o ToString(s'.p))
Spec == Init /\ [][Next]_vars
=============================================================================
