------------------------------- MODULE GcLog --------------------------------
(***************************************************************************)
(* What the collector's log (C32) may say about the heap.  The state is the   *)
(* set of live blocks and, during a collection, the blocks marked so far.      *)
(* Events: <<kind, address>>                                                  *)
(*   "gc"    a collection starts          "new"   a block is reached first     *)
(*   "again" a marked block is reached     "ro"    something outside the heap   *)
(*   "free"  a block is reclaimed          "end"   the collection ends          *)
(*   "alloc" a block is allocated                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

S0 == [phase |-> "run", live |-> {}, marked |-> {}]
Bad(s, why) == [s EXCEPT !.phase = why]

Step(s, e) ==
  LET k == e[1]
      a == e[2]
  IN CASE k = "gc" -> IF s.phase # "run" THEN Bad(s, "collection-within-collection") ELSE [s EXCEPT !.phase = "mark", !.marked = {}]
       [] k = "new" -> IF s.phase # "mark" THEN Bad(s, "marks-outside-marking")
                       ELSE IF a \notin s.live THEN Bad(s, "marks-dead-block")
                       ELSE IF a \in s.marked THEN Bad(s, "marks-twice")
                       ELSE [s EXCEPT !.marked = @ \cup {a}]
       [] k = "again" -> IF s.phase # "mark" THEN Bad(s, "marks-outside-marking")
                         ELSE IF a \notin s.marked THEN Bad(s, "taken-for-marked") ELSE s
       [] k = "ro" -> IF s.phase # "mark" THEN Bad(s, "marks-outside-marking")
                      ELSE IF a \in s.live THEN Bad(s, "live-block-not-marked") ELSE s
       [] k = "free" -> IF s.phase \notin {"mark", "sweep"} THEN Bad(s, "reclaims-outside-collection")
                        ELSE IF a \notin s.live THEN Bad(s, "reclaims-dead-block")
                        ELSE IF a \in s.marked THEN Bad(s, "reclaims-marked-block")
                        ELSE [s EXCEPT !.phase = "sweep", !.live = @ \ {a}]
       [] k = "end" -> IF s.phase \notin {"mark", "sweep"} THEN Bad(s, "end-without-start")
                       ELSE IF s.live # s.marked THEN Bad(s, "unmarked-block-kept")
                       ELSE [s EXCEPT !.phase = "run"]
       [] k = "alloc" -> IF s.phase # "run" THEN Bad(s, "allocates-during-collection")
                         ELSE IF a \in s.live THEN Bad(s, "allocates-live-block")
                         ELSE [s EXCEPT !.live = @ \cup {a}]
       [] OTHER -> Bad(s, "unknown-event")
=============================================================================
