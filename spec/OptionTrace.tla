---------------------------- MODULE OptionTrace ----------------------------
(***************************************************************************)
(* Compiling with options that show intermediate results (C30).  What a       *)
(* compilation of program p comes to - status, diagnostics in order, whether   *)
(* there is an executable - is a function of p; with -lex the tokens of p are  *)
(* listed (all but spaces, line ends and comments), with their positions.      *)
(*   D.progs[p]: c, cl (text, see ClaraLex), base: the outcome without options *)
(*   D.runs: p, out: outcome, lex: were tokens asked for, toks: <<line, col, text>> *)
(***************************************************************************)
EXTENDS ClaraLex, Json, IOUtils
D == JsonDeserialize(IOEnv.OPT_JSON)

Silent == {"Space", "EOL", "Comment"}
(* the listing of the tokens from p on; <<FALSE, _>> if the text is malformed *)
RECURSIVE List(_, _, _, _, _, _)
List(c, cl, p, line, col, acc) ==
  IF p > Len(c) THEN <<TRUE, Append(acc, <<line, col, <<69, 79, 70>>>>)>>      \* EOF
  ELSE LET t == TokenAt(c, cl, p)
           w == Walk(c, p, t.end, line, col)
       IN IF t.kind = "Err" THEN <<FALSE, acc>>
          ELSE List(c, cl, t.end, w[1], w[2], IF t.kind \in Silent THEN acc ELSE Append(acc, <<line, col, SubSeq(c, p, t.end - 1)>>))

VARIABLES r, done
Verdict(x) ==
  LET q == D.progs[x.p] IN
  IF x.out # q.base THEN "outcome"
  ELSE IF ~x.lex THEN "ok"
  ELSE LET l == List(q.c, q.cl, 1, 1, 1, <<>>) IN IF l[1] /\ l[2] # x.toks THEN "tokens" ELSE "ok"
Init == r \in 1..Len(D.runs) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED r /\ PrintT("VERDICT " \o ToString(r) \o " " \o Verdict(D.runs[r]))
Spec == Init /\ [][Next]_<<r, done>>
=============================================================================
