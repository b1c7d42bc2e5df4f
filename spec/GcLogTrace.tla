----------------------------- MODULE GcLogTrace -----------------------------
(* Logs recorded from real programs, judged by GcLog.  Data.logs: sequences of events <<kind, address>>. *)
EXTENDS GcLog, TLC, Json, IOUtils
CONSTANT Chunk
Data == JsonDeserialize(IOEnv.GC_JSON)
Logs == Data.logs
VARIABLES tr, k, s
vars == <<tr, k, s>>
Ok == {"run", "mark", "sweep"}
RECURSIVE Run(_, _, _, _)
Run(L, j, a, n) == IF n = 0 \/ j > Len(L) \/ a.phase \notin Ok THEN <<j, a>> ELSE Run(L, j + 1, Step(a, L[j]), n - 1)
Verdict(v, j) == PrintT("VERDICT " \o ToString(tr) \o " " \o v \o " " \o ToString(j))
Init == tr \in 1..Len(Logs) /\ k = 1 /\ s = S0
Next == /\ s.phase \in Ok /\ k <= Len(Logs[tr]) + 1
        /\ IF k > Len(Logs[tr]) THEN k' = k + 1 /\ UNCHANGED s /\ Verdict("ok", k)
           ELSE LET q == Run(Logs[tr], k, s, Chunk) IN k' = q[1] /\ s' = q[2] /\ (q[2].phase \notin Ok => Verdict(q[2].phase, q[1] - 1))
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
=============================================================================
