----------------------------- MODULE CoreTrace -----------------------------
(***************************************************************************)
(* Trace validation: every recorded run of a compiled program must be a     *)
(* behaviour of ClaraCore.  Input (JSON): files (programs) and traces.      *)
(* Each trace is explored from its own initial state; a transition is Chunk *)
(* machine steps.  A verdict line is printed for every trace.               *)
(***************************************************************************)
EXTENDS ClaraCore, Json, IOUtils
CONSTANTS Chunk, Fuel
Data == JsonDeserialize(IOEnv.CORE_JSON)
Files == Data.files
Traces == Data.traces
VARIABLES p, s
Init == p \in 1..Len(Traces) /\ s = Start(Files[Traces[p].file], Traces[p])
Report(t) == PrintT("VERDICT " \o ToString(p) \o " " \o t.st \o " " \o ToString(t.pos) \o " " \o ToString(t.n) \o " " \o ToString(t.want))
Next ==
  /\ ~Done(s) /\ s.n < Fuel
  /\ p' = p
  /\ s' = Run(Files[Traces[p].file], Traces[p], s, Chunk)
  /\ (Done(s') \/ s'.n >= Fuel) => Report(s')
Spec == Init /\ [][Next]_<<p, s>>
Sane == s.pos <= Len(Traces[p].out)
=============================================================================
