----------------------------- MODULE SyntaxTrace -----------------------------
(***************************************************************************)
(* Texts given to the real compiler, and what it did with them: acc (an      *)
(* executable was made), l and k: line and column of its first diagnostic    *)
(* (0 if it has none in this file).  The texts are scanned by ClaraLex and   *)
(* read by ClaraSyntax, one token per step.  A text ends as "syntax" (the     *)
(* token at line, col cannot be read), "eof" (the end cannot), "lex" (no       *)
(* token can be read at line, col; this is noticed before anything is parsed)   *)
(* or "ok".                                                                *)
(***************************************************************************)
EXTENDS ClaraLex, ClaraSyntax, Json, IOUtils
Data == JsonDeserialize(IOEnv.SYNTAX_JSON).texts
Skip == {"Space", "Comment", "EOL"}

VARIABLES i, p, line, col,      \* text, position in it
          stack,                \* of ClaraSyntax
          bad,                  \* <<line, col>> of the first token that could not be read, <<>> if none
          st                    \* "read", then the verdict
vars == <<i, p, line, col, stack, bad, st>>
Before(l1, k1, l2, k2) == l1 < l2 \/ (l1 = l2 /\ k1 <= k2)

(* the fault is f, from l1:k1 to l2:k2 *)
Judge(f, l1, k1, l2, k2) ==
  LET o == Data[i]
      v == IF f = "ok" THEN "ok"
           ELSE IF o.acc THEN "accepted"
           ELSE IF Before(l1, k1, o.l, o.k) /\ Before(o.l, o.k, l2, k2) THEN "ok"
           ELSE "misplaced"
  IN /\ st' = v
     /\ PrintT("VERDICT " \o ToString(i) \o " " \o f \o " " \o v \o " " \o ToString(l1) \o ":" \o ToString(k1))
     /\ UNCHANGED <<i, p, line, col, stack, bad>>

Init == i \in 1..Len(Data) /\ p = 1 /\ line = 1 /\ col = 1 /\ stack = Start /\ bad = <<>> /\ st = "read"

End == /\ st = "read" /\ p > Len(Data[i].c)
       /\ IF bad # <<>> THEN Judge("syntax", bad[1], bad[2], bad[1], bad[2])
          ELSE IF Can(stack, "EOF") THEN Judge("ok", 0, 0, 0, 0)
          ELSE Judge("eof", line, col, line, col)
Token == /\ st = "read" /\ p <= Len(Data[i].c)
         /\ LET c == Data[i].c
                t == TokenAt(c, Data[i].cl, p)
                at == Walk(c, p, t.end, line, col)
            IN IF t.kind = "Err" THEN Judge("lex", line, col, at[1], at[2])
               ELSE /\ p' = t.end /\ line' = at[1] /\ col' = at[2] /\ UNCHANGED <<i, st>>
                    /\ IF t.kind \in Skip \/ bad # <<>> THEN UNCHANGED <<stack, bad>>
                       ELSE LET s == Read(stack, t.kind) IN
                            IF s = Stuck THEN stack' = stack /\ bad' = <<line, col>> ELSE stack' = s /\ bad' = bad
Next == End \/ Token
Spec == Init /\ [][Next]_vars
=============================================================================
