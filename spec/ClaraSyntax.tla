---------------------------- MODULE ClaraSyntax ----------------------------
(***************************************************************************)
(* The grammar of Clara as a pushdown machine over token kinds (ClaraLex's).*)
(* The machine's state is what is still expected: a stack of terminals (token kinds) and *)
(* nonterminals (lower case names), top first.  It reads one token at a time; the     *)
(* first token it cannot read is the one a syntax error is about.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Binary == {"Plus", "Min", "Mul", "Div", "BLeft", "BRight", "BAnd", "BOr", "BXor", "Gt", "Gte", "Lt", "Lte", "Eq", "Or", "And", "Dot"}
Prefix == {"Not", "BNot", "Min"}
Atoms  == {"Integer", "String", "True", "False", "Identifier"}
StartExpr == Atoms \cup Prefix \cup {"LParen", "Fn", "LBrack"}
StartType == {"Fn", "LBrack", "Identifier"}

Rules == {"prog", "decl", "ids", "tps", "types", "types1", "args", "args1", "elems", "elems1", "ftypes", "ftypes1", "params", "params0", "params1", "param",
          "rtype", "type", "fields", "ctors", "fnbody", "body", "block", "stmts", "stmt", "expr?", "asg", "range", "else", "cases", "cstmts", "vars", "vars1",
          "expr", "operand", "tail"}
No == <<"none">>      \* no rule: an error

(* what the nonterminal n becomes when the next token is of kind k *)
Expand(n, k) ==
  CASE n = "prog"   -> (CASE k = "EOF" -> <<"EOF">>
                          [] k = "Hash" -> <<"Hash", "LBrack", "Identifier", "ids", "decl", "prog">>
                          [] k \in {"Fn", "Struct", "Enum"} -> <<"decl", "prog">>
                          [] OTHER -> No)
    [] n = "ids"    -> (CASE k = "Comma" -> <<"Comma", "Identifier", "ids">> [] k = "RBrack" -> <<"RBrack">> [] OTHER -> No)
    [] n = "decl"   -> (CASE k = "Fn" -> <<"Fn", "Identifier", "tps", "params", "rtype", "fnbody">>
                          [] k = "Struct" -> <<"Struct", "Identifier", "tps", "LBrace", "fields">>
                          [] k = "Enum" -> <<"Enum", "Identifier", "tps", "LBrace", "ctors">>
                          [] OTHER -> No)
    [] n = "tps"    -> IF k = "LGmet" THEN <<"LGmet", "types">> ELSE <<>>
    [] n = "types"  -> IF k = "RGmet" THEN <<"RGmet">> ELSE <<"type", "types1">>
    [] n = "types1" -> (CASE k = "Comma" -> <<"Comma", "type", "types1">> [] k = "RGmet" -> <<"RGmet">> [] OTHER -> No)
    [] n = "params" -> IF k = "LParen" THEN <<"LParen", "params0">> ELSE No
    [] n = "params0" -> IF k = "RParen" THEN <<"RParen">> ELSE <<"param", "params1">>
    [] n = "params1" -> (CASE k = "Comma" -> <<"Comma", "param", "params1">> [] k = "RParen" -> <<"RParen">> [] OTHER -> No)
    [] n = "param"  -> IF k = "Identifier" THEN <<"Identifier", "Colon", "type">> ELSE No
    [] n = "rtype"  -> IF k \in StartType THEN <<"type">> ELSE <<>>
    [] n = "type"   -> (CASE k = "Fn" -> <<"Fn", "LParen", "ftypes", "rtype">>
                          [] k = "LBrack" -> <<"LBrack", "RBrack", "type">>
                          [] k = "Identifier" -> <<"Identifier", "tps">>
                          [] OTHER -> No)
    [] n = "ftypes" -> IF k = "RParen" THEN <<"RParen">> ELSE <<"type", "ftypes1">>
    [] n = "ftypes1" -> (CASE k = "Comma" -> <<"Comma", "type", "ftypes1">> [] k = "RParen" -> <<"RParen">> [] OTHER -> No)
    [] n = "fields" -> IF k = "RBrace" THEN <<"RBrace">> ELSE <<"param", "fields">>
    [] n = "ctors"  -> (CASE k = "RBrace" -> <<"RBrace">> [] k = "Identifier" -> <<"Identifier", "params", "ctors">> [] OTHER -> No)
    [] n = "fnbody" -> (CASE k = "LBrace" -> <<"block">> [] k = "As" -> <<"As", "expr">> [] OTHER -> <<>>)
    [] n = "body"   -> (CASE k = "LBrace" -> <<"block">> [] k = "As" -> <<"As", "expr">> [] OTHER -> No)
    [] n = "block"  -> IF k = "LBrace" THEN <<"LBrace", "stmts">> ELSE No
    [] n = "stmts"  -> IF k = "RBrace" THEN <<"RBrace">> ELSE <<"stmt", "stmts">>
    [] n = "stmt"   -> (CASE k = "Return" -> <<"Return", "expr?">>
                          [] k = "While" -> <<"While", "expr", "block">>
                          [] k = "For" -> <<"For", "Identifier", "In", "expr", "range", "block">>
                          [] k = "If" -> <<"If", "expr", "block", "else">>
                          [] k = "Match" -> <<"Match", "expr", "LBrace", "cases">>
                          [] k \in StartExpr -> <<"expr", "asg">>
                          [] OTHER -> No)
    [] n = "expr?"  -> IF k \in StartExpr THEN <<"expr">> ELSE <<>>
    [] n = "asg"    -> IF k \in {"As", "Das"} THEN <<k, "expr">> ELSE <<>>
    [] n = "range"  -> IF k = "DotDot" THEN <<"DotDot", "expr">> ELSE <<>>
    [] n = "else"   -> (CASE k = "ElseIf" -> <<"ElseIf", "expr", "block", "else">> [] k = "Else" -> <<"Else", "block">> [] OTHER -> <<>>)
    [] n = "cases"  -> (CASE k = "RBrace" -> <<"RBrace">>
                          [] k = "Case" -> <<"Case", "Identifier", "LParen", "vars", "Colon", "cstmts", "cases">>
                          [] OTHER -> No)
    [] n = "cstmts" -> IF k \in {"Case", "RBrace"} THEN <<>> ELSE <<"stmt", "cstmts">>
    [] n = "vars"   -> (CASE k = "RParen" -> <<"RParen">> [] k = "Identifier" -> <<"Identifier", "vars1">> [] OTHER -> No)
    [] n = "vars1"  -> (CASE k = "Comma" -> <<"Comma", "Identifier", "vars1">> [] k = "RParen" -> <<"RParen">> [] OTHER -> No)
    [] n = "expr"   -> <<"operand", "tail">>
    [] n = "operand" -> (CASE k \in Atoms -> <<k>>
                          [] k \in Prefix -> <<k, "operand">>
                          [] k = "LParen" -> <<"LParen", "expr", "RParen">>
                          [] k = "LBrack" -> <<"LBrack", "elems">>
                          [] k = "Fn" -> <<"Fn", "tps", "params", "rtype", "body">>
                          [] k = "Type" -> <<"Type", "LParen", "type", "RParen">>
                          [] OTHER -> No)
    [] n = "tail"   -> (CASE k \in Binary -> <<k, "operand", "tail">>
                          [] k = "LParen" -> <<"LParen", "args", "tail">>
                          [] k = "LGmet" -> <<"LGmet", "types", "LParen", "args", "tail">>
                          [] k = "LBrack" -> <<"LBrack", "expr", "RBrack", "tail">>
                          [] k = "Question" -> <<"Question", "expr", "Colon", "expr", "tail">>
                          [] OTHER -> <<>>)
    [] n = "args"   -> IF k = "RParen" THEN <<"RParen">> ELSE <<"expr", "args1">>
    [] n = "args1"  -> (CASE k = "Comma" -> <<"Comma", "expr", "args1">> [] k = "RParen" -> <<"RParen">> [] OTHER -> No)
    [] n = "elems"  -> IF k = "RBrack" THEN <<"RBrack">> ELSE <<"expr", "elems1">>
    [] n = "elems1" -> (CASE k = "Comma" -> <<"Comma", "expr", "elems1">> [] k = "RBrack" -> <<"RBrack">> [] OTHER -> No)

Terminals == Binary \cup Prefix \cup Atoms \cup {"EOF", "Hash", "LBrack", "RBrack", "LParen", "RParen", "LBrace", "RBrace", "LGmet", "RGmet", "Comma", "Colon", "Fn", "Struct", "Enum",
             "As", "Das", "Return", "While", "For", "In", "If", "ElseIf", "Else", "Match", "Case", "Type", "Question", "DotDot"}
Table == TLCEval([n \in Rules |-> TLCEval([k \in Terminals |-> Expand(n, k)])])      \* (computed once)

Start == <<"prog">>
Stuck == <<"stuck">>

(* the stack after reading a token of kind k; Stuck if k cannot come here *)
RECURSIVE Read(_, _)
Read(stack, k) ==
  IF stack = <<>> THEN Stuck
  ELSE IF Head(stack) \notin Rules THEN (IF Head(stack) = k THEN Tail(stack) ELSE Stuck)
  ELSE LET r == Table[Head(stack)][k] IN IF r = No THEN Stuck ELSE Read(r \o Tail(stack), k)

Can(stack, k) == Read(stack, k) # Stuck

(* index of the first token that cannot be read, 0 if the whole sequence (which ends with EOF) is a program *)
RECURSIVE Fault(_, _, _)
Fault(stack, ks, i) ==
  IF i > Len(ks) THEN 0
  ELSE LET s == Read(stack, ks[i]) IN IF s = Stuck THEN i ELSE Fault(s, ks, i + 1)
=============================================================================
