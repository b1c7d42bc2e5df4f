----------------------------- MODULE ClaraTypes -----------------------------
(***************************************************************************)
(* Which programs are valid: the type rules and the declaration rules.      *)
(*                                                                          *)
(* A program is a syntax tree P: P.nodes is an array of nodes, P.decls the  *)
(* declarations in order (the standard library's first).  Nothing in it is  *)
(* typed: names of types, functions and variables are resolved here.        *)
(*                                                                          *)
(* A judgement yields a set of findings <<c, id>>:                            *)
(*   "E"  the rule for node id is broken                                    *)
(*   "M"  node id only suffers from an error reported elsewhere             *)
(*   "U"  the language does not say (such programs are not judged)          *)
(* Types: <<"int">> <<"bool">> <<"string">> <<"bytes">> <<"pointer">> <<"nothing">>*)
(*   <<"arr", t>> <<"st", name, args>> <<"en", name, args>> <<"fn", ps, r>>      *)
(*   <<"par", owner, name>>; <<"bad">> where an error was found;               *)
(*   <<"ov", types>> the name of an overloaded function.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

IntT == <<"int">>  BoolT == <<"bool">>  StrT == <<"string">>  Nothing == <<"nothing">>  Bad == <<"bad">>
Builtin == {"int", "bool", "string", "bytes", "pointer", "nothing"}
MaxParams == 6   MaxDynamic == 5   MaxCase == 5   MaxCaptured == 6

E(id) == {<<"E", id>>}   M(id) == {<<"M", id>>}   U(id) == {<<"U", id>>}
R(t, e) == [t |-> t, e |-> e]
Map(s, Op(_)) == TLCEval([i \in 1..Len(s) |-> Op(s[i])])      \* (TLCEval: once, not at every use)
Range(s) == {s[i] : i \in 1..Len(s)}
Flat(s) == UNION Range(s)
Distinct(s) == Cardinality(Range(s)) = Len(s)

RECURSIVE HasBad(_), Subst(_, _), Pars(_)
HasBad(t) == CASE t[1] = "bad" -> TRUE
               [] t[1] = "arr" -> HasBad(t[2])
               [] t[1] \in {"st", "en"} -> \E i \in 1..Len(t[3]) : HasBad(t[3][i])
               [] t[1] = "fn" -> HasBad(t[3]) \/ \E i \in 1..Len(t[2]) : HasBad(t[2][i])
               [] OTHER -> FALSE
Subst(t, b) ==
  CASE t[1] = "par" -> IF t \in DOMAIN b THEN b[t] ELSE t
    [] t[1] = "arr" -> <<"arr", Subst(t[2], b)>>
    [] t[1] \in {"st", "en"} -> <<t[1], t[2], Map(t[3], LAMBDA x : Subst(x, b))>>
    [] t[1] = "fn" -> <<"fn", Map(t[2], LAMBDA x : Subst(x, b)), Subst(t[3], b)>>
    [] OTHER -> t
Pars(t) == CASE t[1] = "par" -> {t}
             [] t[1] = "arr" -> Pars(t[2])
             [] t[1] \in {"st", "en"} -> UNION {Pars(t[3][i]) : i \in 1..Len(t[3])}
             [] t[1] = "fn" -> Pars(t[3]) \cup UNION {Pars(t[2][i]) : i \in 1..Len(t[2])}
             [] OTHER -> {}

(* does an argument of type t fit the parameter type p of a generic function whose type parameters are own? m: bindings so far *)
NoFit == [ok |-> FALSE, b |-> <<>>]
RECURSIVE Fit(_, _, _, _), FitSeq(_, _, _, _, _)
Fit(t, p, own, m) ==
  IF ~m.ok THEN m
  ELSE IF p \in own THEN IF p \in DOMAIN m.b THEN (IF m.b[p] = t THEN m ELSE NoFit)
                         ELSE [ok |-> TRUE, b |-> (p :> t) @@ m.b]
  ELSE IF t[1] # p[1] THEN NoFit
  ELSE CASE t[1] = "arr" -> Fit(t[2], p[2], own, m)
         [] t[1] \in {"st", "en"} -> IF t[2] # p[2] \/ Len(t[3]) # Len(p[3]) THEN NoFit ELSE FitSeq(t[3], p[3], own, 1, m)
         [] t[1] = "fn" -> IF Len(t[2]) # Len(p[2]) THEN NoFit ELSE Fit(t[3], p[3], own, FitSeq(t[2], p[2], own, 1, m))
         [] OTHER -> IF t = p THEN m ELSE NoFit
FitSeq(ts, ps, own, i, m) == IF i > Len(ts) \/ ~m.ok THEN m ELSE FitSeq(ts, ps, own, i + 1, Fit(ts[i], ps[i], own, m))

(* an argument may be the name of an overloaded function: the first declaration that fits counts *)
RECURSIVE FitFirst(_, _, _, _, _), FitArgs(_, _, _, _, _)
FitFirst(ts, p, own, i, m) ==
  IF i > Len(ts) THEN NoFit
  ELSE LET r == Fit(ts[i], p, own, m) IN IF r.ok THEN r ELSE FitFirst(ts, p, own, i + 1, m)
FitArgs(ts, ps, own, i, m) ==
  IF i > Len(ts) \/ ~m.ok THEN m
  ELSE FitArgs(ts, ps, own, i + 1, IF ts[i][1] = "ov" THEN FitFirst(ts[i][2], ps[i], own, 1, m) ELSE Fit(ts[i], ps[i], own, m))

----------------------------------------------------------------------------
(* Types in the program text.  P.types: name -> declaration node; tp: visible type parameters, name -> type *)

RECURSIVE Res(_, _, _)
Res(P, tp, id) ==
  LET n == P.nodes[id] IN
  CASE n.k = "tn" ->
         LET as == Map(n.as, LAMBDA a : Res(P, tp, a))
             es == UNION {as[i].e : i \in 1..Len(as)}
             ts == Map(as, LAMBDA a : a.t)
         IN IF n.n \in DOMAIN tp THEN (IF n.as = <<>> THEN R(tp[n.n], {}) ELSE R(Bad, E(id) \cup es))
            ELSE IF n.n \in Builtin THEN (IF n.as = <<>> THEN R(<<n.n>>, {}) ELSE R(Bad, E(id) \cup es))
            ELSE IF n.n \in DOMAIN P.types THEN
                   LET d == P.nodes[P.types[n.n]] IN
                   IF Len(d.tps) # Len(ts) THEN R(Bad, IF n.as = <<>> THEN U(id) ELSE E(id) \cup es)
                   ELSE IF es # {} THEN R(Bad, es)
                   ELSE R(<<IF d.k = "struct" THEN "st" ELSE "en", n.n, ts>>, {})
            ELSE R(Bad, E(id) \cup es)
    [] n.k = "ta" -> LET r == Res(P, tp, n.e) IN R(IF r.e = {} THEN <<"arr", r.t>> ELSE Bad, r.e)
    [] n.k = "tf" ->
         LET ps == Map(n.ps, LAMBDA a : Res(P, tp, a))
             r  == IF n.r = 0 THEN R(Nothing, {}) ELSE Res(P, tp, n.r)
             es == r.e \cup UNION {ps[i].e : i \in 1..Len(ps)}
         IN R(IF es = {} THEN <<"fn", Map(ps, LAMBDA a : a.t), r.t>> ELSE Bad, es)

TParams(owner, tps) == [x \in Range(tps) |-> <<"par", owner, x>>]
ParSeq(owner, tps) == Map(tps, LAMBDA x : <<"par", owner, x>>)

(* parameter lists: the types, and what is wrong with the list *)
Params(P, tp, ps) == Map(ps, LAMBDA q : Res(P, tp, P.nodes[q].t))
ParamErrs(P, ps) == UNION {IF \E j \in 1..(i - 1) : P.nodes[ps[j]].n = P.nodes[ps[i]].n THEN E(ps[i]) ELSE {} : i \in 1..Len(ps)}
Types(rs) == Map(rs, LAMBDA r : r.t)
Errs(rs) == UNION {rs[i].e : i \in 1..Len(rs)}

(* the functions a declaration brings: [n, ps, r, own, at, kind] *)
Funs(P, d) ==
  LET n == P.nodes[d]
      tp == TParams(d, n.tps)
      own == ParSeq(d, n.tps)
  IN CASE n.k = "fn" -> <<[n |-> n.n, ps |-> Types(Params(P, tp, n.params)), own |-> own, at |-> d, kind |-> IF n.ext THEN "ext" ELSE "fn",
                           r |-> IF n.ret = 0 THEN Nothing ELSE Res(P, tp, n.ret).t]>>
       [] n.k = "struct" -> <<[n |-> n.cons, ps |-> Types(Params(P, tp, n.fields)), own |-> own, at |-> d, kind |-> "cons",
                               r |-> <<"st", n.n, own>>]>>
       [] n.k = "enum" -> Map(n.cases, LAMBDA c : [n |-> P.nodes[c].n, ps |-> Types(Params(P, tp, P.nodes[c].params)), own |-> own,
                                                   at |-> c, kind |-> "case", r |-> <<"en", n.n, own>>])

RECURSIVE AllFuns(_, _)
AllFuns(P, i) == IF i > Len(P.decls) THEN <<>> ELSE Funs(P, P.decls[i]) \o AllFuns(P, i + 1)
ByName(fs) == TLCEval([x \in {fs[i].n : i \in 1..Len(fs)} |-> SelectSeq(fs, LAMBDA f : f.n = x)])

----------------------------------------------------------------------------
(* Expressions.  C: context [P, fns (by name), tp, env, ret].  env: scopes, innermost first; a scope maps names to types. *)

RECURSIVE LookupIn(_, _)
LookupIn(env, x) == IF env = <<>> THEN <<"none">>
                    ELSE IF x \in DOMAIN env[1] THEN env[1][x] ELSE LookupIn(env[2], x)
Empty == [x \in {} |-> 0]
Enter(env) == <<Empty, env>>
Bind(env, x, t) == <<(x :> t) @@ env[1], env[2]>>

FnT(f) == <<"fn", f.ps, f.r>>
Special == {"printf", "debug", "unsafe"}

(* a name used as a value; arg: as an argument of a call, where an overloaded name may stand *)
NameT(C, id, x, arg) ==
  LET v == LookupIn(C.env, x) IN
  IF v # <<"none">> THEN R(v, IF v = Bad THEN M(id) ELSE {})
  ELSE IF x \in Special THEN R(Bad, U(id))
  ELSE IF x \in DOMAIN C.fns THEN
         LET fs == C.fns[x] IN
         IF \E i \in 1..Len(fs) : fs[i].own # <<>> \/ HasBad(FnT(fs[i])) THEN R(Bad, U(id))
         ELSE IF Len(fs) = 1 THEN R(FnT(fs[1]), {})
         ELSE IF x \in DOMAIN C.P.types THEN R(Bad, U(id))
         ELSE IF arg THEN R(<<"ov", Map(fs, FnT)>>, {}) ELSE R(Bad, E(id))
  ELSE R(Bad, E(id))

IntOps == {"+", "-", "*", "/", "<<", ">>", "&", "|", "^"}
CmpOps == {"<", "<=", ">", ">=", "=="}

(* a call of one function f with arguments of types ts and explicit type arguments xs *)
Apply(f, ts, xs) ==
  LET own == Range(f.own) IN
  IF Len(f.ps) # Len(ts) \/ (xs # <<>> /\ Len(xs) # Len(f.own)) THEN NoFit
  ELSE LET m == FitArgs(ts, f.ps, own, 1, [ok |-> TRUE, b |-> [p \in {f.own[i] : i \in 1..Len(xs)} |-> xs[CHOOSE i \in 1..Len(xs) : f.own[i] = p]]])
       IN IF m.ok /\ (Pars(f.r) \cap own) \subseteq DOMAIN m.b THEN m ELSE NoFit
RECURSIVE FirstApply(_, _, _, _)
FirstApply(fs, ts, xs, i) ==
  IF i > Len(fs) THEN Bad
  ELSE LET m == Apply(fs[i], ts, xs) IN IF m.ok THEN Subst(fs[i].r, m.b) ELSE FirstApply(fs, ts, xs, i + 1)

Dynamic(id, ft, ts, xs) ==      \* a call through a value of type ft
  IF ft[1] # "fn" THEN R(Bad, E(id))
  ELSE IF xs # <<>> \/ Len(ts) # Len(ft[2]) \/ ~FitArgs(ts, ft[2], {}, 1, [ok |-> TRUE, b |-> Empty]).ok THEN R(Bad, E(id))
  ELSE IF Len(ts) > MaxDynamic THEN R(Bad, E(id))
  ELSE R(ft[3], {})

Named(C, id, x, ts, xs) ==      \* a call by name
  LET v == LookupIn(C.env, x) IN
  IF v = Bad THEN R(Bad, M(id))
  ELSE IF v # <<"none">> THEN Dynamic(id, v, ts, xs)
  ELSE IF x \in Special THEN R(Bad, U(id))
  ELSE IF x \notin DOMAIN C.fns THEN R(Bad, E(id))
  ELSE IF x \in DOMAIN C.P.types THEN R(Bad, U(id))
  ELSE IF \E i \in 1..Len(C.fns[x]) : HasBad(FnT(C.fns[x][i])) THEN R(Bad, M(id))
  ELSE IF Len(ts) > MaxParams THEN R(Bad, E(id))
  ELSE LET t == FirstApply(C.fns[x], ts, xs, 1) IN R(t, IF t = Bad THEN E(id) ELSE {})

RECURSIVE ExprT(_, _, _), Stmt(_, _), Stmts(_, _, _), Terminates(_, _), LastTerminates(_, _), LamT(_, _)
Val(C, id) == ExprT(C, id, FALSE)

FieldsOf(C, t) ==      \* of a struct type: name -> type
  LET d == C.P.types[t[2]]
      n == C.P.nodes[d]
      b == [p \in Range(ParSeq(d, n.tps)) |-> t[3][CHOOSE i \in 1..Len(n.tps) : n.tps[i] = p[3]]]
  IN [x \in {C.P.nodes[n.fields[i]].n : i \in 1..Len(n.fields)} |->
        LET i == CHOOSE i \in 1..Len(n.fields) : C.P.nodes[n.fields[i]].n = x
            r == Res(C.P, TParams(d, n.tps), C.P.nodes[n.fields[i]].t)
        IN Subst(r.t, b)]

Args(C, as) == Map(as, LAMBDA a : ExprT(C, a, TRUE))
TArgs(C, ts) == Map(ts, LAMBDA t : Res(C.P, C.tp, t))

ExprT(C, id, arg) ==
  LET n == C.P.nodes[id] IN
  CASE n.k = "int" -> R(IntT, IF n.fits THEN {} ELSE E(id))
    [] n.k = "bool" -> R(BoolT, {})
    [] n.k = "str" -> R(StrT, {})
    [] n.k = "var" -> NameT(C, id, n.n, arg)
    [] n.k = "un" ->
         LET a == Val(C, n.a)
             want == IF n.op = "not" THEN BoolT ELSE IntT
         IN IF a.t = Bad THEN R(Bad, a.e) ELSE IF a.t = want THEN R(want, a.e) ELSE R(Bad, a.e \cup E(id))
    [] n.k = "bin" ->
         LET a == Val(C, n.a)  b == Val(C, n.b)  e == a.e \cup b.e
             want == IF n.op \in {"and", "or"} THEN BoolT ELSE IntT
             res == IF n.op \in IntOps THEN IntT ELSE BoolT
         IN IF a.t = Bad \/ b.t = Bad THEN R(Bad, e)
            ELSE IF a.t = want /\ b.t = want THEN R(res, e) ELSE R(Bad, e \cup E(id))
    [] n.k = "tern" ->
         LET c == Val(C, n.c)  a == Val(C, n.a)  b == Val(C, n.b)  e == c.e \cup a.e \cup b.e IN
         IF c.t \notin {Bad, BoolT} THEN R(Bad, e \cup E(n.c))
         ELSE IF Bad \in {c.t, a.t, b.t} THEN R(Bad, e)
         ELSE IF a.t = b.t THEN R(a.t, e \cup (IF a.t = Nothing THEN U(id) ELSE {})) ELSE R(Bad, e \cup E(id))
    [] n.k = "arr" ->
         LET es == Map(n.es, LAMBDA x : Val(C, x))  e == Errs(es) IN
         IF n.es = <<>> THEN R(Bad, E(id))
         ELSE IF Bad \in Range(Types(es)) THEN R(Bad, e)
         ELSE IF \E i \in 1..Len(es) : es[i].t # es[1].t THEN R(Bad, e \cup E(id))
         ELSE R(<<"arr", es[1].t>>, e \cup (IF es[1].t = Nothing THEN U(id) ELSE {}))
    [] n.k = "idx" ->
         LET a == Val(C, n.a)  i == Val(C, n.i)  e == a.e \cup i.e IN
         IF a.t = Bad \/ i.t = Bad THEN R(Bad, e)
         ELSE IF a.t[1] = "arr" /\ i.t = IntT THEN R(a.t[2], e) ELSE R(Bad, e \cup E(id))
    [] n.k = "dot" ->
         LET o == Val(C, n.o) IN
         IF o.t = Bad THEN R(Bad, o.e)
         ELSE IF o.t[1] \in {"arr", "string"} /\ n.n = "length" THEN R(IntT, o.e)
         ELSE IF o.t[1] = "pointer" THEN R(Bad, o.e \cup U(id))
         ELSE IF o.t[1] = "st" /\ n.n \in DOMAIN FieldsOf(C, o.t) THEN
                LET t == FieldsOf(C, o.t)[n.n] IN R(t, o.e \cup (IF HasBad(t) THEN M(id) ELSE {}))
         ELSE R(Bad, o.e \cup E(id))
    [] n.k = "call" ->
         LET as == Args(C, n.as)  xs == TArgs(C, n.ts)  e == Errs(as) \cup Errs(xs)
             v == LookupIn(C.env, n.n)
             unknown == v = <<"none">> /\ n.n \notin DOMAIN C.fns /\ n.n \notin Special
         IN IF unknown THEN R(Bad, e \cup E(id))
            ELSE IF Bad \in Range(Types(as)) \cup Range(Types(xs)) THEN R(Bad, e \cup M(id))
            ELSE LET r == Named(C, id, n.n, Types(as), Types(xs)) IN R(r.t, e \cup r.e)
    [] n.k = "mcall" ->
         LET o == Val(C, n.o)  as == Args(C, n.as)  xs == TArgs(C, n.ts)  e == o.e \cup Errs(as) \cup Errs(xs) IN
         IF Bad \in {o.t} \cup Range(Types(as)) \cup Range(Types(xs)) THEN R(Bad, e \cup M(id))
         ELSE LET r == IF o.t[1] = "st" /\ n.n \in DOMAIN FieldsOf(C, o.t)
                       THEN Dynamic(id, FieldsOf(C, o.t)[n.n], Types(as), Types(xs))
                       ELSE Named(C, id, n.n, <<o.t>> \o Types(as), Types(xs))
              IN R(r.t, e \cup r.e)
    [] n.k = "dyn" ->
         LET f == Val(C, n.f)  as == Args(C, n.as)  e == f.e \cup Errs(as) IN
         IF C.P.nodes[n.f].k \in {"int", "bool", "str", "un", "bin", "arr"} THEN R(Bad, e \cup E(id))
         ELSE IF C.P.nodes[n.f].k = "tern" \/ (C.P.nodes[n.f].k = "lam" /\ C.P.nodes[n.f].expr # 0) THEN R(Bad, e \cup U(id))
         ELSE IF Bad \in {f.t} \cup Range(Types(as)) THEN R(Bad, e \cup M(id))
         ELSE LET r == Dynamic(id, f.t, Types(as), <<>>) IN R(r.t, e \cup r.e)
    [] n.k = "lam" -> LamT(C, id)
    [] n.k = "type" -> R(Bad, U(id))

LamT(C, id) ==
  LET n == C.P.nodes[id]
      ps == Params(C.P, C.tp, n.params)
      rt == IF n.ret = 0 THEN R(Nothing, {}) ELSE Res(C.P, C.tp, n.ret)
      head == Errs(ps) \cup rt.e \cup ParamErrs(C.P, n.params)
              \cup (IF Len(n.params) > MaxDynamic THEN E(id) ELSE {})
              \cup (IF n.tps # <<>> THEN U(id) ELSE {})
      seen == {x \in Range(n.uses) : LookupIn(C.env, x) # <<"none">>}      \* may be captured
      few  == IF Cardinality(seen) <= MaxCaptured THEN {}
              ELSE IF seen \cap Range(n.binds) = {} THEN E(id) ELSE U(id)
      env == <<TLCEval([x \in {C.P.nodes[n.params[i]].n : i \in 1..Len(n.params)} |->
                   ps[CHOOSE i \in 1..Len(n.params) : C.P.nodes[n.params[i]].n = x].t]), C.env>>
      D == [C EXCEPT !.env = env, !.ret = rt.t]
  IN IF head # {} THEN R(Bad, head)
     ELSE IF n.expr # 0 THEN
            LET b == Val(D, n.expr) IN
            R(<<"fn", Types(ps), rt.t>>, b.e \cup few \cup (IF b.t \in {Bad, rt.t} THEN {} ELSE E(n.expr)))
     ELSE IF rt.t # Nothing /\ ~LastTerminates(C.P, n.body) THEN R(Bad, E(id))
     ELSE R(<<"fn", Types(ps), rt.t>>, Stmts(D, n.body, 1).e \cup few)

----------------------------------------------------------------------------
(* Statements: the context after it, and the findings *)

S(C, e) == [c |-> C, e |-> e]
Block(C, body) == Stmts([C EXCEPT !.env = Enter(@)], body, 1).e
Stmts(C, ss, i) ==
  IF i > Len(ss) THEN S(C, {})
  ELSE LET a == Stmt(C, ss[i])  b == Stmts(a.c, ss, i + 1) IN S(b.c, a.e \cup b.e)

Target(C, id) ==      \* left hand side of an assignment
  LET n == C.P.nodes[id] IN
  IF n.k = "var" THEN
    LET r == Val(C, id) IN IF LookupIn(C.env, n.n) = <<"none">> /\ r.t # Bad THEN R(Bad, r.e \cup E(id)) ELSE r
  ELSE IF n.k = "dot" THEN
    LET r == Val(C, id)  o == Val(C, n.o) IN
    IF n.n = "length" /\ o.t[1] \in {"arr", "string"} THEN R(Bad, r.e \cup E(id)) ELSE r
  ELSE IF n.k = "idx" THEN Val(C, id)
  ELSE R(Bad, Val(C, id).e \cup E(id))

Case(C, t, id) ==      \* one case of a match on a value of type t
  LET n == C.P.nodes[id]
      known == n.c \in DOMAIN C.fns /\ LookupIn(C.env, n.c) = <<"none">> /\ C.fns[n.c][1].kind = "case"
      f == C.fns[n.c][1]
      b == [p \in Range(f.own) |-> t[3][CHOOSE i \in 1..Len(f.own) : f.own[i] = p]]
      wrong == E(id) \cup UNION {M(s) : s \in Range(n.body)}      \* with consequences in its body, perhaps
  IN IF ~known THEN wrong
     ELSE IF f.r[2] # t[2] THEN wrong
     ELSE IF Len(f.ps) # Len(n.vs) THEN wrong
     ELSE IF ~Distinct(n.vs) THEN wrong
     ELSE LET sc == TLCEval([x \in Range(n.vs) |-> Subst(f.ps[CHOOSE i \in 1..Len(n.vs) : n.vs[i] = x], b)]) IN
          Stmts([C EXCEPT !.env = <<sc, @>>], n.body, 1).e

Stmt(C, id) ==
  LET n == C.P.nodes[id] IN
  CASE n.k = "expr" -> S(C, Val(C, n.e).e)
    [] n.k = "das" ->
         LET r == Val(C, n.e)  l == C.P.nodes[n.l] IN
         IF l.k # "var" THEN S(C, r.e \cup E(id))
         ELSE IF l.n \in DOMAIN C.env[1] THEN S(C, r.e \cup (IF C.env[1][l.n] = Bad \/ r.t = Bad THEN M(id) ELSE E(id)))
         ELSE S([C EXCEPT !.env = Bind(@, l.n, r.t)], r.e \cup (IF r.t = Nothing THEN U(id) ELSE {}))
    [] n.k = "as" ->
         LET r == Val(C, n.e)  l == Target(C, n.l) IN
         S(C, r.e \cup l.e \cup (IF Bad \in {r.t, l.t} \/ r.t = l.t THEN {} ELSE E(id)))
    [] n.k = "if" ->
         LET cs == Map(n.cs, LAMBDA c : Val(C, c)) IN
         S(C, Errs(cs) \cup UNION {IF cs[i].t \in {Bad, BoolT} THEN {} ELSE E(n.cs[i]) : i \in 1..Len(cs)}
              \cup UNION {Block(C, n.bs[i]) : i \in 1..Len(n.bs)})
    [] n.k = "while" ->
         LET c == Val(C, n.c) IN
         S(C, c.e \cup (IF c.t \in {Bad, BoolT} THEN {} ELSE E(n.c)) \cup Block(C, n.body))
    [] n.k = "for" ->
         LET a == Val(C, n.a)  b == IF n.b = 0 THEN R(IntT, {}) ELSE Val(C, n.b)
             ok == IF n.b = 0 THEN a.t[1] = "arr" ELSE a.t = IntT /\ b.t = IntT
             vt == IF ~ok THEN Bad ELSE IF n.b = 0 THEN a.t[2] ELSE IntT
         IN S(C, a.e \cup b.e \cup (IF ok \/ Bad \in {a.t, b.t} THEN {} ELSE E(n.h))
              \cup Stmts([C EXCEPT !.env = Bind(Enter(@), n.n, vt)], n.body, 1).e)
    [] n.k = "match" ->
         LET v == Val(C, n.e) IN
         IF v.t = Bad THEN S(C, v.e)
         ELSE IF v.t[1] # "en" THEN S(C, v.e \cup E(n.e))
         ELSE LET cs == Map(n.cases, LAMBDA c : Case(C, v.t, c))
                  names == Map(n.cases, LAMBDA c : C.P.nodes[c].c)
                  all == {C.P.nodes[c].n : c \in Range(C.P.nodes[C.P.types[v.t[2]]].cases)}
              IN S(C, v.e \cup Flat(cs)
                      \cup UNION {IF \E j \in 1..(i - 1) : names[j] = names[i] THEN E(n.cases[i]) ELSE {} : i \in 1..Len(names)}
                      \cup (IF all \subseteq Range(names) THEN {} ELSE E(id)))
    [] n.k = "ret" ->
         LET r == IF n.e = 0 THEN R(Nothing, {}) ELSE Val(C, n.e) IN
         S(C, r.e \cup (IF r.t \in {Bad, C.ret} THEN (IF n.e # 0 /\ r.t = Nothing THEN U(id) ELSE {}) ELSE E(id)))

(* does control never run off the end? *)
LastTerminates(P, ss) == ss # <<>> /\ Terminates(P, ss[Len(ss)])
Terminates(P, id) ==
  LET n == P.nodes[id] IN
  CASE n.k = "ret" -> TRUE
    [] n.k = "if" -> n.els /\ \A i \in 1..Len(n.bs) : LastTerminates(P, n.bs[i])
    [] n.k = "match" -> n.cases # <<>> /\ \A i \in 1..Len(n.cases) : LastTerminates(P, P.nodes[n.cases[i]].body)
    [] OTHER -> FALSE

----------------------------------------------------------------------------
(* Declarations *)

RECURSIVE EraseR(_)
EraseR(t) == CASE t[1] = "arr" -> <<"arr", EraseR(t[2])>>
               [] t[1] = "fn" -> <<"fn", Map(t[2], EraseR), Nothing>>
               [] t[1] \in {"st", "en"} -> <<t[1], t[2], Map(t[3], EraseR)>>
               [] OTHER -> t

(* two functions with the same name: may both exist? *)
Clash(f, g) ==
  LET k == {f.kind, g.kind} IN
  IF k = {"cons"} THEN {}      \* two types of that name
  ELSE IF "cons" \in k THEN E(IF g.kind = "cons" THEN f.at ELSE g.at)
  ELSE IF k = {"case"} THEN E(g.at)
  ELSE IF "case" \in k THEN U(g.at)
  ELSE IF f.own # <<>> \/ g.own # <<>> THEN
         (IF Len(f.ps) = Len(g.ps) THEN
            (IF f.own # <<>> /\ g.own # <<>> /\
                [i \in 1..Len(g.ps) |-> Subst(g.ps[i], [p \in Range(g.own) |-> <<"par", 0, p[3]>>])] =
                [i \in 1..Len(f.ps) |-> Subst(f.ps[i], [p \in Range(f.own) |-> <<"par", 0, p[3]>>])]
             THEN E(g.at) ELSE U(g.at))
          ELSE {})
  ELSE IF f.ps = g.ps THEN E(g.at)
  ELSE IF Map(f.ps, EraseR) = Map(g.ps, EraseR) THEN U(g.at)
  ELSE {}

Clashes(fs, from) ==
  UNION {IF fs[i].at < from THEN {}
         ELSE UNION {IF fs[j].n = fs[i].n THEN Clash(fs[j], fs[i]) ELSE {} : j \in 1..(i - 1)} : i \in 1..Len(fs)}

DeclErrs(P, d) ==
  LET n == P.nodes[d]
      tp == TParams(d, n.tps)
      dupT == IF Distinct(n.tps) THEN {} ELSE E(d)
  IN CASE n.k = "struct" ->
            dupT \cup Errs(Params(P, tp, n.fields)) \cup ParamErrs(P, n.fields)
            \cup (IF Len(n.fields) > MaxParams THEN E(d) ELSE {})
            \cup (IF n.lower THEN {} ELSE E(d))
       [] n.k = "enum" ->
            dupT \cup UNION {LET c == P.nodes[n.cases[i]] IN
                             Errs(Params(P, tp, c.params)) \cup ParamErrs(P, c.params)
                             \cup (IF Len(c.params) > MaxCase THEN E(n.cases[i]) ELSE {}) : i \in 1..Len(n.cases)}
       [] n.k = "fn" ->
            LET ps == Params(P, tp, n.params)
                rt == IF n.ret = 0 THEN R(Nothing, {}) ELSE Res(P, tp, n.ret)
            IN dupT \cup Errs(ps) \cup rt.e \cup ParamErrs(P, n.params)
               \cup (IF ~n.ext /\ Len(n.params) > MaxParams THEN E(d) ELSE {})
               \cup (IF n.blk /\ rt.t \notin {Nothing, Bad} /\ ~LastTerminates(P, n.body) THEN E(d) ELSE {})

TypeClashes(P, from) ==
  LET ts == SelectSeq(P.decls, LAMBDA d : P.nodes[d].k # "fn") IN
  UNION {IF ts[i] < from THEN {}
         ELSE IF P.nodes[ts[i]].n \in Builtin \/ \E j \in 1..(i - 1) : P.nodes[ts[j]].n = P.nodes[ts[i]].n THEN E(ts[i]) ELSE {} : i \in 1..Len(ts)}
  \cup UNION {IF \E j \in 1..Len(ts) : (ts[i] >= from \/ ts[j] >= from) /\ P.nodes[ts[j]].k = "struct" /\ P.nodes[ts[j]].lower /\ P.nodes[ts[j]].cons = P.nodes[ts[i]].n
             THEN E(ts[i]) ELSE {} : i \in 1..Len(ts)}      \* a type that takes the name of a constructor
  \cup UNION {IF P.nodes[ts[i]].k # "enum" THEN {}         \* a case that has the name of a type
             ELSE UNION {IF P.nodes[c].n \in DOMAIN P.types /\ (c >= from \/ P.types[P.nodes[c].n] >= from) THEN E(c) ELSE {} : c \in Range(P.nodes[ts[i]].cases)} : i \in 1..Len(ts)}

BodyErrs(P, fns, d) ==
  LET n == P.nodes[d] IN
  IF n.k # "fn" \/ n.ext THEN {}
  ELSE LET tp == TParams(d, n.tps)
           ps == Types(Params(P, tp, n.params))
           rt == IF n.ret = 0 THEN Nothing ELSE Res(P, tp, n.ret).t
           env == <<TLCEval([x \in {P.nodes[n.params[i]].n : i \in 1..Len(n.params)} |->
                       ps[CHOOSE i \in 1..Len(n.params) : P.nodes[n.params[i]].n = x]]), <<>>>>
           C == [P |-> P, fns |-> fns, tp |-> tp, env |-> env, ret |-> rt]
       IN IF n.expr # 0 THEN LET b == Val(C, n.expr) IN b.e \cup (IF b.t \in {Bad, rt} THEN {} ELSE E(n.expr))
          ELSE Stmts(C, n.body, 1).e

(* the runtime starts the program by calling main without arguments *)
MainErrs(P, fs) ==
  LET ms == {i \in 1..Len(fs) : fs[i].n = "main" /\ fs[i].ps = <<>>} IN
  IF ms = {} THEN E(1)
  ELSE IF \A i \in ms : fs[i].kind = "fn" /\ fs[i].own = <<>> /\ ~P.nodes[fs[i].at].ext THEN {} ELSE U(1)

(* everything wrong with the declarations and bodies from node number P.from on (what precedes is the library) *)
Findings(P) ==
  LET fs == AllFuns(P, 1)
      fns == ByName(fs)
      mine == SelectSeq(P.decls, LAMBDA d : d >= P.from)
      decl == Clashes(fs, P.from) \cup TypeClashes(P, P.from) \cup UNION {DeclErrs(P, mine[i]) : i \in 1..Len(mine)}
  IN decl \cup MainErrs(P, fs) \cup UNION {BodyErrs(P, fns, mine[i]) : i \in 1..Len(mine)}

Verdict(fs) == IF \E f \in fs : f[1] = "U" THEN "unspecified" ELSE IF \E f \in fs : f[1] = "E" THEN "reject" ELSE "accept"
=============================================================================
