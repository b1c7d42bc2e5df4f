------------------------------ MODULE MCSyntax ------------------------------
(***************************************************************************)
(* The grammar machine as a transition system: every sequence of tokens of  *)
(* the alphabet up to MaxLen.  Checked: from every state the machine gets    *)
(* into, a program can still be completed (so the token on which it gets stuck *)
(* is the first one at which no program is possible any more), every         *)
(* nonterminal is reached, and the table is deterministic by construction.   *)
(***************************************************************************)
EXTENDS ClaraSyntax
CONSTANTS Alphabet, MaxLen, First, Show
VARIABLES stack, seen

(* the shortest way to finish what a symbol stands for *)
Finish(n) ==
  CASE n = "prog" -> <<"EOF">>
    [] n = "decl" -> <<"Fn", "Identifier", "LParen", "RParen">>
    [] n = "ids" -> <<"RBrack">>
    [] n \in {"tps", "rtype", "fnbody", "expr?", "asg", "range", "else", "cstmts", "tail"} -> <<>>
    [] n \in {"types", "types1"} -> <<"RGmet">>
    [] n \in {"args", "args1", "ftypes", "ftypes1", "params0", "params1", "vars", "vars1"} -> <<"RParen">>
    [] n \in {"elems", "elems1"} -> <<"RBrack">>
    [] n = "params" -> <<"LParen", "RParen">>
    [] n = "param" -> <<"Identifier", "Colon", "Identifier">>
    [] n = "type" -> <<"Identifier">>
    [] n \in {"fields", "ctors", "stmts", "cases"} -> <<"RBrace">>
    [] n \in {"body", "block"} -> <<"LBrace", "RBrace">>
    [] n = "stmt" -> <<"Return">>
    [] n \in {"expr", "operand"} -> <<"Integer">>
    [] OTHER -> <<n>>
RECURSIVE FinishAll(_)
FinishAll(s) == IF s = <<>> THEN <<>> ELSE Finish(Head(s)) \o FinishAll(Tail(s))

Init == stack = Start /\ seen = <<>>
Next == /\ Len(seen) < MaxLen /\ stack # Stuck /\ stack # <<>>
        /\ \E k \in (IF Len(seen) < Len(First) THEN {First[Len(seen) + 1]} ELSE Alphabet) :
             /\ stack' = Read(stack, k)
             /\ seen' = Append(seen, k)
             /\ (Show /\ stack' = Stuck) => PrintT("SENTENCE " \o ToString(seen'))
Spec == Init /\ [][Next]_<<stack, seen>>

(* random programs: any token that can come, and a finish (simulation) *)
GenNext == /\ stack # <<>>
           /\ IF Len(seen) >= MaxLen
              THEN /\ seen' = seen \o FinishAll(stack) /\ stack' = <<>>
                   /\ PrintT("SENTENCE " \o ToString(seen'))
              ELSE \E k \in (IF Len(seen) < Len(First) THEN {First[Len(seen) + 1]} ELSE Alphabet) :
                     /\ Can(stack, k) /\ stack' = Read(stack, k) /\ seen' = Append(seen, k)
Gen == Init /\ [][GenNext]_<<stack, seen>>

Empty == <<>>
FnHead == <<"Fn", "Identifier", "LParen", "RParen", "LBrace">>
Lambda == <<"Fn", "Identifier", "LParen", "RParen", "LBrace", "Identifier", "Das">>

Completable == stack # Stuck => Fault(stack, FinishAll(stack), 1) = 0
Agrees == (Fault(Start, seen, 1) = 0) = (stack # Stuck)
OnlyEof == stack = <<>> => seen[Len(seen)] = "EOF"
=============================================================================
