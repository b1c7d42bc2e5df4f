----------------------------- MODULE ClaraBuild -----------------------------
(***************************************************************************)
(* Compilations running side by side (property C27).  Job i compiles the     *)
(* program Prog[i] (a number; Bad programs have errors) under the file name  *)
(* Name[i] into directory Dir[i].  Each goes through                          *)
(*   idle -start-> open -read-> asm (or err) -link-> linked -finish-> done     *)
(* sharing the temporary directory and, possibly, output directories.  The    *)
(* intermediate file of a job must be its own: TmpOf picks its name.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Jobs, Prog, Name, Dir, Bad, Unique      \* Unique = FALSE: temporary file named after the program (wrong)

VARIABLES pc, tmp, out, sched
vars == <<pc, tmp, out, sched>>

None == 0
TmpOf(i) == IF Unique THEN <<Name[i], i>> ELSE <<Name[i], 0>>
Target(i) == <<Dir[i], Name[i]>>

Init == /\ pc = [i \in Jobs |-> "idle"] /\ tmp = [x \in {} |-> 0] /\ out = [x \in {} |-> 0] /\ sched = <<>>

Start(i) == pc[i] = "idle" /\ pc' = [pc EXCEPT ![i] = "open"] /\ UNCHANGED <<tmp, out>>
Read(i) == /\ pc[i] = "open"
           /\ IF Prog[i] \in Bad THEN pc' = [pc EXCEPT ![i] = "err"] /\ UNCHANGED <<tmp, out>>
              ELSE pc' = [pc EXCEPT ![i] = "asm"] /\ tmp' = (TmpOf(i) :> Prog[i]) @@ tmp /\ UNCHANGED out
Link(i) == /\ pc[i] = "asm" /\ pc' = [pc EXCEPT ![i] = "linked"]
           /\ out' = (Target(i) :> (IF TmpOf(i) \in DOMAIN tmp THEN tmp[TmpOf(i)] ELSE None)) @@ out
           /\ UNCHANGED tmp
Finish(i) == /\ pc[i] = "linked" /\ pc' = [pc EXCEPT ![i] = "done"]
             /\ tmp' = [x \in DOMAIN tmp \ {TmpOf(i)} |-> tmp[x]] /\ UNCHANGED out

Step(i) == Start(i) \/ Read(i) \/ Link(i) \/ Finish(i)
Next == \E i \in Jobs : Step(i) /\ sched' = Append(sched, i)
Spec == Init /\ [][Next]_vars

Ended == \A i \in Jobs : pc[i] \in {"done", "err"}
(* every output is the program of a job with that target; a job with a target of its own finds its program there *)
Faithful == \A x \in DOMAIN out : \E i \in Jobs : Target(i) = x /\ out[x] = Prog[i] /\ pc[i] \in {"linked", "done"}
Own == \A i \in Jobs : (pc[i] \in {"linked", "done"} /\ \A j \in Jobs : j # i => Target(j) # Target(i))
                       => Target(i) \in DOMAIN out /\ out[Target(i)] = Prog[i]
Clean == Ended => tmp = [x \in {} |-> 0]
(* failing jobs write nothing *)
Quiet == \A x \in DOMAIN out : \E i \in Jobs : Target(i) = x /\ Prog[i] \notin Bad
=============================================================================
