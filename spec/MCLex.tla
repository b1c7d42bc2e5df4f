------------------------------- MODULE MCLex -------------------------------
(* On every short text: each token is the longest word there; a text without a word there is an error, except 0x and strings. *)
EXTENDS ClaraLex
CONSTANTS Alphabet, MaxLen
Class(x) == IF x = 95 \/ x \in 97..122 \/ x \in 65..90 \/ x = 233 THEN 1 ELSE IF x \in 48..57 \cup {1635} THEN 2 ELSE 0
VARIABLES c, p, line, col, kinds
vars == <<c, p, line, col, kinds>>
cl == [j \in 1..Len(c) |-> Class(c[j])]
Init == /\ c \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen} /\ p = 1 /\ line = 1 /\ col = 1 /\ kinds = <<>>
Next == /\ p <= Len(c)
        /\ LET t == TokenAt(c, cl, p)
               w == Walk(c, p, t.end, line, col)
           IN IF t.kind = "Err" THEN p' = Len(c) + 1 /\ kinds' = Append(kinds, "Err") /\ UNCHANGED <<line, col>>
              ELSE p' = t.end /\ kinds' = Append(kinds, t.kind) /\ line' = w[1] /\ col' = w[2]
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
(* the end of every token is the end of the longest word; errors start no word (0x starts the number 0: taken for malformed) *)
Maximal == p <= Len(c) =>
  LET t == TokenAt(c, cl, p) IN
  IF t.kind = "Err" THEN Longest(c, cl, p) = p \/ SubSeq(c, p, p + 1) = <<Zero, LetterX>>
  ELSE t.end = Longest(c, cl, p) /\ t.end > p
Position == p <= Len(c) => <<line, col>> = Walk(c, 1, p, 1, 1)
(* nothing after an error *)
Stops == \A j \in 1..Len(kinds) : kinds[j] = "Err" => j = Len(kinds)
=============================================================================
