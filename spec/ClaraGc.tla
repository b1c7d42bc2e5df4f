------------------------------ MODULE ClaraGc -------------------------------
(***************************************************************************)
(* The collector of Clara (install/lib/gc.clara) with a mutator: blocks with  *)
(* references, roots (stack slots and the runtime), mark by reaching, sweep of *)
(* the list of blocks.  Checked by TLC for all small heaps and histories:       *)
(*   Safe    nothing reachable is ever reclaimed (C16)                         *)
(*   Exact   when a collection ends exactly the reachable blocks are left (C17) *)
(*   Log     every behaviour's events are behaviours of GcLog (C32)             *)
(* `todo` are the references still to be followed, `list` the heap's list.      *)
(***************************************************************************)
EXTENDS GcLog
CONSTANTS Addr, MaxRefs
VARIABLES heap,      \* block -> set of references
          list,      \* the collector's list of blocks, newest first
          roots, marked, todo, phase, at, log
vars == <<heap, list, roots, marked, todo, phase, at, log>>

Live == {list[i] : i \in 1..Len(list)}
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup UNION {heap[a] : a \in S \cap Live} IN IF T = S THEN S ELSE Reach(T)

Emit(k, a) == log' = Step(log, <<k, a>>)
Init == heap = [a \in Addr |-> {}] /\ list = <<>> /\ roots = {} /\ marked = {} /\ todo = {} /\ phase = "run" /\ at = 1 /\ log = S0

(* the program *)
Alloc(a, R) == /\ phase = "run" /\ a \notin Live /\ R \subseteq roots /\ Cardinality(R) <= MaxRefs
               /\ heap' = [heap EXCEPT ![a] = R] /\ list' = <<a>> \o list /\ roots' = roots \cup {a}
               /\ Emit("alloc", a) /\ UNCHANGED <<marked, todo, phase, at>>
Drop(a) == phase = "run" /\ a \in roots /\ roots' = roots \ {a} /\ UNCHANGED <<heap, list, marked, todo, phase, at, log>>
Store(a, b, c) == /\ phase = "run" /\ a \in roots /\ b \in roots /\ heap' = [heap EXCEPT ![a] = (@ \ {c}) \cup {b}]
                  /\ Cardinality(heap'[a]) <= MaxRefs /\ UNCHANGED <<list, roots, marked, todo, phase, at, log>>
Load(a, b) == phase = "run" /\ a \in roots /\ b \in heap[a] /\ b \notin roots /\ roots' = roots \cup {b} /\ UNCHANGED <<heap, list, marked, todo, phase, at, log>>

(* the collector *)
Begin == phase = "run" /\ phase' = "mark" /\ marked' = {} /\ todo' = roots /\ Emit("gc", 0) /\ UNCHANGED <<heap, list, roots, at>>
Mark(a) == /\ phase = "mark" /\ a \in todo
           /\ IF a \in marked THEN todo' = todo \ {a} /\ UNCHANGED marked /\ Emit("again", a)
              ELSE todo' = (todo \ {a}) \cup heap[a] /\ marked' = marked \cup {a} /\ Emit("new", a)
           /\ UNCHANGED <<heap, list, roots, phase, at>>
Marked == phase = "mark" /\ todo = {} /\ phase' = "sweep" /\ at' = 1 /\ UNCHANGED <<heap, list, roots, marked, todo, log>>
Sweep == /\ phase = "sweep" /\ at <= Len(list)
         /\ IF list[at] \in marked THEN marked' = marked \ {list[at]} /\ at' = at + 1 /\ UNCHANGED <<heap, list, log>>
            ELSE /\ list' = SubSeq(list, 1, at - 1) \o SubSeq(list, at + 1, Len(list)) /\ heap' = [heap EXCEPT ![list[at]] = {}]
                 /\ Emit("free", list[at]) /\ UNCHANGED <<marked, at>>
         /\ UNCHANGED <<roots, todo, phase>>
End == phase = "sweep" /\ at > Len(list) /\ phase' = "run" /\ at' = 1 /\ Emit("end", 0) /\ UNCHANGED <<heap, list, roots, marked, todo>>

Next == \/ \E a \in Addr : (\E R \in SUBSET roots : Alloc(a, R)) \/ Drop(a) \/ Mark(a) \/ \E b \in Addr : Load(a, b) \/ \E c \in Addr : Store(a, b, c)
        \/ Begin \/ Marked \/ Sweep \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Marked) /\ WF_vars(Sweep) /\ WF_vars(End) /\ \A a \in Addr : WF_vars(Mark(a))

Safe == Reach(roots) \subseteq Live
Exact == (phase = "sweep" /\ at > Len(list)) => Live = Reach(roots)
Log == log.phase \in {"run", "mark", "sweep"} /\ log.live = Live
Terminates == phase = "mark" ~> phase = "run"
=============================================================================
