------------------------------ MODULE MapTrace ------------------------------
(* Recorded histories of the real map, judged by the finite map.  A trace has cls (class of each key, keys count from 0) and *)
(* ev: events <<map number, operation, key, value, result>>.                                                             *)
EXTENDS ClaraMap, SequencesExt, Json, IOUtils
Data == JsonDeserialize(IOEnv.MAP_JSON)
Traces == Data.traces
VARIABLES tr, pc, ms
vars == <<tr, pc, ms>>

(* operation numbers of the harness *)
Explained(m, cls, e) ==
  LET c == cls[e[3] + 1]
      r == e[5]
  IN CASE e[2] = 0 -> r = AGet(m, c)                                  \* put: previous value
       [] e[2] = 1 -> r = AGet(m, c)                                  \* remove: previous value
       [] e[2] = 2 -> r = AGet(m, c)                                  \* get
       [] e[2] = 3 -> r = (IF c \in DOMAIN m THEN 1 ELSE 0)           \* contains
       [] e[2] = 4 -> r = (IF c \in DOMAIN m THEN m[c] ELSE e[4])     \* orElse
       [] e[2] = 5 -> r = ASize(m)                                    \* size
       [] e[2] = 6 -> AEach(m, [j \in 1..Len(r) |-> <<cls[r[j][1] + 1], r[j][2]>>])      \* foreach
       [] OTHER -> TRUE                                               \* collection, new map
After(m, cls, e) ==
  LET c == cls[e[3] + 1] IN
  CASE e[2] = 0 -> APut(m, c, e[4]) [] e[2] = 1 -> ARemove(m, c) [] e[2] = 7 -> NoMap [] OTHER -> m

(* runs the events of trace i; the state is the maps and the first unexplained event (0: none) *)
Run(i) ==
  LET T == Traces[i]
      Go(s, e) == IF s.bad > 0 THEN s
                  ELSE IF ~Explained(s.m[e[1]], T.cls, e) THEN [s EXCEPT !.bad = s.n + 1]
                  ELSE [m |-> [s.m EXCEPT ![e[1]] = After(@, T.cls, e)], n |-> s.n + 1, bad |-> 0]
  IN FoldLeft(Go, [m |-> [j \in 1..3 |-> NoMap], n |-> 0, bad |-> 0], T.ev)

Init == tr \in 1..Len(Traces) /\ pc = 0 /\ ms = 0
Next == /\ pc = 0 /\ pc' = 1 /\ UNCHANGED tr
        /\ LET r == Run(tr) IN ms' = r.bad /\ PrintT("VERDICT " \o ToString(tr) \o " " \o ToString(r.bad))
Spec == Init /\ [][Next]_vars
=============================================================================
