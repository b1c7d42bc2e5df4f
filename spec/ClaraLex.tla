------------------------------ MODULE ClaraLex ------------------------------
(***************************************************************************)
(* The lexical structure of Clara (property C22) as a transition system:    *)
(* a position in the text with its line and column, moved by one token at a  *)
(* time.  Text is a sequence of characters (code points) c and their classes *)
(* cl (1 letter or underscore, 2 digit, 0 anything else).                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

LF == 10
CR == 13
SP == 32
DQ == 34
BS == 92
Slash == 47
LetterX == 120
Zero == 48

EscChars == {114, 110, 92, 34}      \* \r \n \\ \"
IsHex(x, k) == k = 2 \/ x \in 97..102 \/ x \in 65..70

Two == (<<58, 61>> :> "Das") @@ (<<62, 62>> :> "BRight") @@ (<<62, 61>> :> "Gte") @@ (<<60, 60>> :> "BLeft")
       @@ (<<60, 61>> :> "Lte") @@ (<<46, 46>> :> "DotDot") @@ (<<61, 61>> :> "Eq")
One == (40 :> "LParen") @@ (41 :> "RParen") @@ (123 :> "LBrace") @@ (125 :> "RBrace") @@ (91 :> "LBrack") @@ (93 :> "RBrack")
       @@ (171 :> "LGmet") @@ (187 :> "RGmet") @@ (35 :> "Hash") @@ (63 :> "Question") @@ (44 :> "Comma") @@ (58 :> "Colon")
       @@ (43 :> "Plus") @@ (45 :> "Min") @@ (42 :> "Mul") @@ (126 :> "BNot") @@ (94 :> "BXor") @@ (124 :> "BOr") @@ (38 :> "BAnd")
       @@ (62 :> "Gt") @@ (60 :> "Lt") @@ (46 :> "Dot") @@ (61 :> "As") @@ (47 :> "Div") @@ (10 :> "EOL") @@ (13 :> "EOL")
Words == (<<102,110>> :> "Fn") @@ (<<114,101,116,117,114,110>> :> "Return") @@ (<<105,102>> :> "If") @@ (<<101,108,115,101,105,102>> :> "ElseIf")
       @@ (<<101,108,115,101>> :> "Else") @@ (<<116,114,117,101>> :> "True") @@ (<<102,97,108,115,101>> :> "False") @@ (<<110,111,116>> :> "Not")
       @@ (<<97,110,100>> :> "And") @@ (<<111,114>> :> "Or") @@ (<<115,116,114,117,99,116>> :> "Struct") @@ (<<119,104,105,108,101>> :> "While")
       @@ (<<102,111,114>> :> "For") @@ (<<105,110>> :> "In") @@ (<<101,110,117,109>> :> "Enum") @@ (<<109,97,116,99,104>> :> "Match")
       @@ (<<99,97,115,101>> :> "Case") @@ (<<116,121,112,101>> :> "Type")

RECURSIVE WordEnd(_, _, _), DigitEnd(_, _, _), HexEnd(_, _, _), LineEnd(_, _), SpaceEnd(_, _), StrEnd(_, _)
WordEnd(c, cl, p) == IF p > Len(c) THEN p ELSE IF cl[p] = 0 THEN p ELSE WordEnd(c, cl, p + 1)
DigitEnd(c, cl, p) == IF p > Len(c) THEN p ELSE IF cl[p] # 2 THEN p ELSE DigitEnd(c, cl, p + 1)
HexEnd(c, cl, p) == IF p > Len(c) THEN p ELSE IF ~IsHex(c[p], cl[p]) THEN p ELSE HexEnd(c, cl, p + 1)
LineEnd(c, p) == IF p > Len(c) THEN p ELSE IF c[p] \in {LF, CR} THEN p ELSE LineEnd(c, p + 1)
SpaceEnd(c, p) == IF p > Len(c) THEN p ELSE IF c[p] # SP THEN p ELSE SpaceEnd(c, p + 1)
(* <<"ok" or "bad", position after the closing quote or of the fault>> *)
StrEnd(c, p) ==
  IF p > Len(c) THEN <<"bad", p>>
  ELSE IF c[p] = DQ THEN <<"ok", p + 1>>
  ELSE IF c[p] # BS THEN StrEnd(c, p + 1)
  ELSE IF p + 1 <= Len(c) /\ c[p + 1] \in EscChars THEN StrEnd(c, p + 2) ELSE <<"bad", p + 1>>

Tok(kind, q) == [kind |-> kind, end |-> q]
Bad(q) == Tok("Err", q)      \* the fault lies between the start of the token and q

(* the token that starts at p (p <= Len(c)) *)
TokenAt(c, cl, p) ==
  LET x == c[p]
      y == IF p < Len(c) THEN c[p + 1] ELSE 0
  IN IF x = SP THEN Tok("Space", SpaceEnd(c, p))
     ELSE IF x = Slash /\ y = Slash THEN Tok("Comment", LineEnd(c, p))
     ELSE IF x = DQ THEN (LET e == StrEnd(c, p + 1) IN IF e[1] = "ok" THEN Tok("String", e[2]) ELSE Bad(e[2]))
     ELSE IF x = Zero /\ y = LetterX
          THEN (IF p + 2 <= Len(c) /\ IsHex(c[p + 2], cl[p + 2]) THEN Tok("Integer", HexEnd(c, cl, p + 2)) ELSE Bad(p + 2))
     ELSE IF x \in Zero..(Zero + 9) THEN Tok("Integer", DigitEnd(c, cl, p))
     ELSE IF cl[p] = 1
          THEN (LET q == WordEnd(c, cl, p)
                    w == SubSeq(c, p, q - 1)
                IN Tok(IF w \in DOMAIN Words THEN Words[w] ELSE "Identifier", q))
     ELSE IF <<x, y>> \in DOMAIN Two THEN Tok(Two[<<x, y>>], p + 2)
     ELSE IF x \in DOMAIN One THEN Tok(One[x], p + 1)
     ELSE Bad(p)

(* line and column after the characters p..q-1 *)
RECURSIVE Walk(_, _, _, _, _)
Walk(c, p, q, line, col) ==
  IF p >= q THEN <<line, col>>
  ELSE IF c[p] = LF THEN Walk(c, p + 1, q, line + 1, 1) ELSE Walk(c, p + 1, q, line, col + 1)

----------------------------------------------------------------------------
(* What a word of each kind is, independently of how the text is scanned *)
All(w, j, P(_)) == \A k \in j..Len(w) : P(k)
IsWord(c, cl, kind) ==
  LET n == Len(c) IN
  CASE kind = "Space" -> n > 0 /\ \A k \in 1..n : c[k] = SP
    [] kind = "Comment" -> n >= 2 /\ c[1] = Slash /\ c[2] = Slash /\ \A k \in 1..n : c[k] \notin {LF, CR}
    [] kind = "Integer" -> \/ n > 0 /\ c[1] \in Zero..(Zero + 9) /\ \A k \in 1..n : cl[k] = 2
                           \/ n > 2 /\ c[1] = Zero /\ c[2] = LetterX /\ \A k \in 3..n : IsHex(c[k], cl[k])
    [] kind = "Name" -> n > 0 /\ cl[1] = 1 /\ \A k \in 1..n : cl[k] \in {1, 2}
    [] kind = "Op" -> (n = 1 /\ c[1] \in DOMAIN One) \/ (n = 2 /\ c \in DOMAIN Two)
    [] kind = "String" -> /\ n >= 2 /\ c[1] = DQ /\ c[n] = DQ
                          /\ \E esc \in SUBSET (2..n - 1) :      \* the positions of backslashes that start an escape
                               \A k \in 2..n - 1 :
                                 /\ k \in esc => c[k] = BS /\ k + 1 <= n - 1 /\ c[k + 1] \in EscChars /\ k + 1 \notin esc
                                 /\ k \notin esc => k - 1 \in esc \/ c[k] \notin {DQ, BS}
Kinds == {"Space", "Comment", "Integer", "Name", "Op", "String"}
Longest(c, cl, p) ==      \* end of the longest word at p, p if there is none
  LET ends == {q \in p + 1..Len(c) + 1 : \E k \in Kinds : IsWord(SubSeq(c, p, q - 1), SubSeq(cl, p, q - 1), k)}
  IN IF ends = {} THEN p ELSE CHOOSE q \in ends : \A r \in ends : r <= q
=============================================================================
