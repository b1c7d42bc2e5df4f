----------------------------- MODULE TypesTrace -----------------------------
(***************************************************************************)
(* Verdicts of ClaraTypes on programs given to the real compiler, compared  *)
(* with what the compiler did.  Input: lib (declarations of the standard    *)
(* library), progs: nodes and declarations of each program, and what was    *)
(* observed: acc (an executable was made), diags: for every diagnostic the  *)
(* nodes that contain the token it points at, dfn: the declaration that does; fnOf: the declaration each *)
(* node belongs to.  A program with `each' is a collection of unrelated      *)
(* functions, judged one by one; in one with `all' the errors in different     *)
(* functions are independent of each other.                                  *)
(***************************************************************************)
EXTENDS ClaraTypes, Json, IOUtils
Data == JsonDeserialize(IOEnv.TYPES_JSON)
Lib == Data.lib
Progs == Data.progs

Whole(p) ==
  LET q == Progs[p] IN
  [nodes |-> Lib.nodes \o q.nodes, decls |-> Lib.decls \o q.decls, from |-> Len(Lib.nodes) + 1, types |-> q.types]

VARIABLES p, st
Judge(q) ==
  LET P == Whole(q)
      fs == Findings(P)
      v == Verdict(fs)
      o == Progs[q]
      blamed == {f[2] : f \in fs}
      must == {f[2] : f \in {g \in fs : g[1] = "E"}}
      lost == {i \in 1..Len(o.diags) : Range(o.diags[i]) \cap blamed = {}}      \* points at nothing that is wrong
      owner(b) == IF b <= Len(Lib.nodes) THEN 0 ELSE o.fnOf[b - Len(Lib.nodes)]
      silent == {w \in {owner(b) : b \in must} : \A i \in 1..Len(o.diags) : \A b \in Range(o.diags[i]) \cap blamed : owner(b) # w}
  IN [v |-> v,
      out |-> IF v = "unspecified" THEN "unspecified"
              ELSE IF v = "accept" THEN (IF o.acc THEN "ok" ELSE "rejected-valid")
              ELSE IF o.acc THEN "accepted-invalid"
              ELSE IF o.pos /\ lost # {} THEN "misplaced"
              ELSE IF o.pos /\ o.all /\ silent # {} THEN "silent"
              ELSE "ok",
      fs |-> IF v = "reject" THEN must ELSE {}, x |-> IF lost # {} THEN lost ELSE silent]

(* every declaration on its own: a diagnostic inside it if and only if something is wrong with it *)
JudgeEach(q) ==
  LET P == Whole(q)
      fs == Findings(P)
      o == Progs[q]
      owner(b) == IF b <= Len(Lib.nodes) THEN 0 ELSE o.fnOf[b - Len(Lib.nodes)]
      v == TLCEval([w \in 0..Len(o.decls) |-> Verdict({f \in fs : owner(f[2]) = w})])
      odd == {w \in 1..Len(o.decls) : \/ v[w] = "accept" /\ w \in Range(o.dfn)
                                      \/ v[w] = "reject" /\ w \notin Range(o.dfn)}
  IN [acc |-> {w \in 1..Len(o.decls) : v[w] = "accept"}, rej |-> {w \in 1..Len(o.decls) : v[w] = "reject"}, odd |-> odd,
      whole |-> IF o.acc # (\A w \in DOMAIN v : v[w] = "accept") /\ ~(\E w \in DOMAIN v : v[w] = "unspecified") THEN "odd" ELSE "ok"]

Init == p \in 1..Len(Progs) /\ st = "start"
Next == /\ st = "start" /\ p' = p
        /\ ~Progs[p].each
        /\ LET j == Judge(p) IN
           /\ st' = j.out
           /\ PrintT("VERDICT " \o ToString(p) \o " " \o j.v \o " " \o j.out \o " " \o ToString(j.fs) \o " " \o ToString(j.x))
NextEach == /\ st = "start" /\ p' = p /\ Progs[p].each
            /\ LET j == JudgeEach(p) IN
               /\ st' = j.whole
               /\ PrintT("EACH " \o ToString(p) \o " " \o j.whole \o " " \o ToString(j.acc) \o " " \o ToString(j.rej) \o " " \o ToString(j.odd))
Spec == Init /\ [][Next \/ NextEach]_<<p, st>>
=============================================================================
