----------------------------- MODULE ClaraCore -----------------------------
(***************************************************************************)
(* Small-step semantics of Clara.                                           *)
(*                                                                          *)
(* A program is data: F (a "file") holds the syntax tree as an array of     *)
(* nodes, the functions, structs and enums.  The machine state is           *)
(*   k    continuation: linked list of work items, <<item, rest>> or <<>>    *)
(*   v    value stack (linked list)                                          *)
(*   env  scope chain of the current activation (linked list of scopes)      *)
(*   heap sequence of objects: struct, array, bytes, byte buffer, map cells,  *)
(*        captured environments                                             *)
(*   pos  number of bytes written to standard output so far                  *)
(*   st   "run", "exit" (with code), or why the run cannot be explained      *)
(* There is no garbage collector here: memory is never reclaimed, which is  *)
(* exactly what a program may rely on (property C16).                       *)
(*                                                                          *)
(* Output is bound to a recorded run: writing bytes is possible only if     *)
(* they are the next bytes of the recorded output T.out.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, ClaraInt

Nil == <<>>
Push(x, l) == <<x, l>>
Nothing == <<"n">>

Bool(x) == <<"b", x>>
Str(bs) == <<"s", bs>>
Ref(a)  == <<"r", a>>

----------------------------------------------------------------------------
(* Types and overload resolution.  A type is <<kind, ...>>:                   *)
(*   <<"int">> <<"bool">> <<"string">> <<"bytes">> <<"nothing">>               *)
(*   <<"arr", t>> <<"st", name, args>> <<"en", name, args>>                    *)
(*   <<"fn", params, ret>> <<"par", name>>                                     *)

NoBind == [ok |-> TRUE, b |-> [x \in {} |-> <<>>]]

RECURSIVE MatchT(_, _, _), MatchSeq(_, _, _, _)
(* match argument type t against parameter type p under binding m *)
MatchT(t, p, m) ==
  IF ~m.ok THEN m
  ELSE IF p[1] = "par" THEN
         IF p[2] \in DOMAIN m.b THEN [m EXCEPT !.ok = (m.b[p[2]] = t)]
         ELSE [ok |-> TRUE, b |-> (p[2] :> t) @@ m.b]
  ELSE IF t[1] # p[1] THEN [m EXCEPT !.ok = FALSE]
  ELSE CASE t[1] = "arr" -> MatchT(t[2], p[2], m)
         [] t[1] \in {"st", "en"} ->
              IF t[2] # p[2] \/ Len(t[3]) # Len(p[3]) THEN [m EXCEPT !.ok = FALSE]
              ELSE MatchSeq(t[3], p[3], 1, m)
         [] t[1] = "fn" ->
              IF Len(t[2]) # Len(p[2]) THEN [m EXCEPT !.ok = FALSE]
              ELSE MatchT(t[3], p[3], MatchSeq(t[2], p[2], 1, m))
         [] OTHER -> m
MatchSeq(ts, ps, j, m) ==
  IF j > Len(ts) \/ ~m.ok THEN m ELSE MatchSeq(ts, ps, j + 1, MatchT(ts[j], ps[j], m))

Applicable(fn, ts) == Len(fn.ptypes) = Len(ts) /\ MatchSeq(ts, fn.ptypes, 1, NoBind).ok

(* the first declared function of that name that accepts the argument types *)
RECURSIVE FirstMatch(_, _, _, _)
FirstMatch(F, idx, ts, j) ==
  IF j > Len(idx) THEN 0
  ELSE IF Applicable(F.fns[idx[j]], ts) THEN idx[j] ELSE FirstMatch(F, idx, ts, j + 1)

IsFn(F, name) == name \in DOMAIN F.byName
Overload(F, name, ts) ==
  IF ~IsFn(F, name) THEN 0
  ELSE LET idx == F.byName[name] IN
       IF Len(idx) = 1 THEN idx[1] ELSE FirstMatch(F, idx, ts, 1)

(* a function passed where a value of function type et is expected *)
RECURSIVE FirstOfType(_, _, _, _)
FirstOfType(F, idx, et, j) ==
  IF j > Len(idx) THEN 0
  ELSE LET fn == F.fns[idx[j]] IN
       IF MatchT(<<"fn", fn.ptypes, fn.ret>>, et, NoBind).ok THEN idx[j]
       ELSE FirstOfType(F, idx, et, j + 1)
FnOfType(F, name, et) ==
  LET idx == F.byName[name] IN
  IF Len(idx) = 1 THEN idx[1] ELSE FirstOfType(F, idx, et, 1)

----------------------------------------------------------------------------
(* Scopes.  <<"L", f>>: variables of a block;  <<"H", a>>: the captured      *)
(* variables of a function value, which live in the heap object a.          *)

EmptyScope == <<"L", [x \in {} |-> 0]>>

RECURSIVE Visible(_, _, _)
Visible(env, heap, x) ==
  IF env = Nil THEN FALSE
  ELSE LET sc == env[1] IN
       \/ x \in (IF sc[1] = "L" THEN DOMAIN sc[2] ELSE DOMAIN heap[sc[2]][2])
       \/ Visible(env[2], heap, x)

RECURSIVE Lookup(_, _, _)
Lookup(env, heap, x) ==
  LET sc == env[1] IN
  IF sc[1] = "L" THEN IF x \in DOMAIN sc[2] THEN sc[2][x] ELSE Lookup(env[2], heap, x)
  ELSE IF x \in DOMAIN heap[sc[2]][2] THEN heap[sc[2]][2][x] ELSE Lookup(env[2], heap, x)

Declare(env, x, val) == <<<<"L", (x :> val) @@ env[1][2]>>, env[2]>>

(* assignment to the innermost variable x: <<env', heap'>> *)
RECURSIVE AssignVar(_, _, _, _)
AssignVar(env, heap, x, val) ==
  LET sc == env[1] IN
  IF sc[1] = "L" THEN
    IF x \in DOMAIN sc[2] THEN <<<<<<"L", [sc[2] EXCEPT ![x] = val]>>, env[2]>>, heap>>
    ELSE LET r == AssignVar(env[2], heap, x, val) IN <<<<sc, r[1]>>, r[2]>>
  ELSE IF x \in DOMAIN heap[sc[2]][2]
       THEN <<env, [heap EXCEPT ![sc[2]] = <<"E", [@[2] EXCEPT ![x] = val]>>]>>
       ELSE LET r == AssignVar(env[2], heap, x, val) IN <<<<sc, r[1]>>, r[2]>>

(* all visible variables with their current values: what a closure captures *)
RECURSIVE Flatten(_, _)
Flatten(env, heap) ==
  IF env = Nil THEN [x \in {} |-> 0]
  ELSE (IF env[1][1] = "L" THEN env[1][2] ELSE heap[env[1][2]][2]) @@ Flatten(env[2], heap)

----------------------------------------------------------------------------
(* Operator precedence parsing of flat expressions (C01, C02): tokens are    *)
(* <<"e", id>> operand, <<"u", op>> prefix, <<"o", op>> infix, <<"(">>, <<")">>.*)
(* Postfix form: <<"e", id>>, <<"u", op>>, <<"o", op>>.                        *)

Prec(op) ==
  CASE op \in {"*", "/"} -> 10
    [] op \in {"+", "-"} -> 9
    [] op \in {"<<", ">>"} -> 8
    [] op \in {">", ">=", "<", "<="} -> 7
    [] op = "==" -> 6
    [] op = "&" -> 5
    [] op = "^" -> 4
    [] op = "|" -> 3
    [] op = "and" -> 2
    [] op = "or" -> 1
UnaryPrec == 11

StackPrec(t) == IF t[1] = "u" THEN UnaryPrec ELSE IF t[1] = "(" THEN 0 ELSE Prec(t[2])

RECURSIVE Postfix(_, _, _, _)
Postfix(ts, j, ops, out) ==
  IF j > Len(ts) THEN
    IF ops = Nil THEN out ELSE Postfix(ts, j, ops[2], Append(out, ops[1]))
  ELSE LET t == ts[j] IN
       CASE t[1] = "e" -> Postfix(ts, j + 1, ops, Append(out, t))
         [] t[1] \in {"u", "("} -> Postfix(ts, j + 1, Push(t, ops), out)
         [] t[1] = ")" -> IF ops[1][1] = "(" THEN Postfix(ts, j + 1, ops[2], out)
                          ELSE Postfix(ts, j, ops[2], Append(out, ops[1]))
         [] t[1] = "o" -> IF ops # Nil /\ StackPrec(ops[1]) >= Prec(t[2])      \* left associative
                          THEN Postfix(ts, j, ops[2], Append(out, ops[1]))
                          ELSE Postfix(ts, j + 1, Push(t, ops), out)

(* the operations of a postfix sequence as work items, in order *)
RECURSIVE Items(_, _, _)
Items(ps, j, k) ==
  IF j = 0 THEN k
  ELSE LET t == ps[j]
           it == CASE t[1] = "e" -> <<"E", t[2]>> [] t[1] = "u" -> <<"UN", t[2]>> [] t[1] = "o" -> <<"BIN", t[2]>>
       IN Items(ps, j - 1, Push(it, k))

----------------------------------------------------------------------------
(* Operators *)

Undef == <<"undef">>      \* outside the specified behaviour (division by zero, bad shift count)

UnOp(op, a) ==
  CASE op = "-" -> INeg(a)
    [] op = "~" -> INot(a)
    [] op = "not" -> Bool(~a[2])

BinOp(op, a, b) ==
  CASE op = "+" -> IAdd(a, b)
    [] op = "-" -> ISub(a, b)
    [] op = "*" -> IMul(a, b)
    [] op = "/" -> IF IZero(b) THEN Undef ELSE IDiv(a, b)
    [] op = "&" -> IAnd(a, b)
    [] op = "|" -> IOr(a, b)
    [] op = "^" -> IXor(a, b)
    [] op = "<<" -> IF IsShift(b) THEN IShl(a, b) ELSE Undef
    [] op = ">>" -> IF IsShift(b) THEN ISar(a, b) ELSE Undef
    [] op = "==" -> Bool(a = b)
    [] op = "<" -> Bool(ILt(a, b))
    [] op = "<=" -> Bool(~ILt(b, a))
    [] op = ">" -> Bool(ILt(b, a))
    [] op = ">=" -> Bool(~ILt(a, b))
    [] op = "and" -> Bool(a[2] /\ b[2])
    [] op = "or" -> Bool(a[2] \/ b[2])

----------------------------------------------------------------------------
(* Byte strings *)

SByte(u) == IF u >= 128 THEN u - 256 ELSE u
UByte(s) == IF s < 0 THEN s + 256 ELSE s
ToU(bs) == <<>> \o [j \in 1..Len(bs) |-> UByte(bs[j])]
ToS(bs) == <<>> \o [j \in 1..Len(bs) |-> SByte(bs[j])]
RECURSIVE Find(_, _, _)
Find(s, sub, from) ==      \* 0-based
  IF from + Len(sub) > Len(s) THEN -1
  ELSE IF SubSeq(s, from + 1, from + Len(sub)) = sub THEN from ELSE Find(s, sub, from + 1)
Rep(n, x) == <<>> \o [j \in 1..n |-> x]

InRange(idx, n) == idx[1] = "i" /\ idx[2] >= 0 /\ idx[2] < n

----------------------------------------------------------------------------
(* Output, panics, exits.  T.out is the recorded output, T.rc the recorded   *)
(* exit status.                                                              *)

Stop(s, why) == [s EXCEPT !.st = why, !.k = Nil]

Emit(T, s, bs) ==
  IF s.pos + Len(bs) <= Len(T.out) /\ SubSeq(T.out, s.pos + 1, s.pos + Len(bs)) = bs
  THEN [s EXCEPT !.pos = @ + Len(bs)]
  ELSE [Stop(s, "output") EXCEPT !.want = bs]

Exit(T, s, code) ==
  IF s.st # "run" THEN s
  ELSE IF s.pos # Len(T.out) THEN [Stop(s, "extra-output") EXCEPT !.want = <<>>]
  ELSE IF T.rc # code THEN [Stop(s, "status") EXCEPT !.want = <<code>>]
  ELSE Stop(s, "ok")

Rule == <<47, 47, 32>> \o Rep(77, 45) \o <<10>>
PanicPre == <<47, 47, 32, 80, 97, 110, 105, 99, 58, 32>>                      \* "// Panic: "
PanicText(msg) == <<10>> \o Rule \o PanicPre \o msg \o <<10>> \o Rule
(* "index out of bounds! index = " / ", array.length = " *)
OobA == <<105,110,100,101,120,32,111,117,116,32,111,102,32,98,111,117,110,100,115,33,32,105,110,100,101,120,32,61,32>>
OobB == <<44,32,97,114,114,97,121,46,108,101,110,103,116,104,32,61,32>>
(* "\nBacktrace:\nTODO!\n\n" *)
OobTail == <<10,66,97,99,107,116,114,97,99,101,58,10,84,79,68,79,33,10,10>>
OutOfRange == <<105,100,120,32,105,115,32,111,117,116,32,111,102,32,114,97,110,103,101>>   \* "idx is out of range"
NegLength == <<108,101,110,103,116,104,32,99,97,110,110,111,116,32,98,101,32,110,101,103,97,116,105,118,101>>
BadLength == <<97,114,114,97,121,32,108,101,110,103,116,104,32,105,115,32,111,117,116,32,111,102,32,114,97,110,103,101>>   \* "array length is out of range"
NoMemory == <<70,97,105,108,101,100,32,116,111,32,97,108,108,111,99,97,116,101,32,109,101,109,111,114,121,33>>   \* "Failed to allocate memory!"
NegPos == <<112,111,115,32,111,114,32,108,101,110,103,116,104,32,99,97,110,110,111,116,32,98,101,32,110,101,103,97,116,105,118,101>>
PosTooBig == <<112,111,115,43,108,101,110,103,116,104,32,62,32,98,117,102,46,115,105,122,101>>

(* the program prints the message and stops with status 1 *)
Panic(T, s, msg) == Exit(T, Emit(T, s, PanicText(msg)), 1)
OutOfBounds(T, s, idx, len) ==
  Exit(T, Emit(T, s, PanicText(OobA \o IDec(idx) \o OobB \o NatDec(len)) \o OobTail), 1)

----------------------------------------------------------------------------
(* Machine helpers *)

Ret(s, val) == [s EXCEPT !.v = Push(val, @)]
Alloc(s, obj) == [s EXCEPT !.heap = Append(@, obj), !.v = Push(Ref(Len(s.heap) + 1), @)]

(* pop n values: the oldest first *)
RECURSIVE PopN(_, _, _)
PopN(v, n, acc) == IF n = 0 THEN <<acc, v>> ELSE PopN(v[2], n - 1, <<v[1]>> \o acc)

(* push evaluation of expressions es[j..] before the rest k *)
RECURSIVE EvalAll(_, _, _)
EvalAll(es, j, k) == IF j = 0 THEN k ELSE EvalAll(es, j - 1, Push(<<"E", es[j]>>, k))

RECURSIVE Bind(_, _, _, _)
Bind(names, vals, j, f) ==
  IF j > Len(names) THEN f ELSE Bind(names, vals, j + 1, (names[j] :> vals[j]) @@ f)
ScopeOf(names, vals) == <<"L", Bind(names, vals, 1, [x \in {} |-> 0])>>

FieldIdx(F, sname, f) ==
  LET fs == F.structs[sname] IN CHOOSE j \in 1..Len(fs) : fs[j] = f

(* leave the current activation: drop work up to its frame marker *)
RECURSIVE Unwind(_)
Unwind(k) == IF k[1][1] = "R" THEN k ELSE Unwind(k[2])

(* run the body of function fn (a record with params, body, expr) in env0 *)
Enter(s, fn, args, env0) ==
  [s EXCEPT !.env = Push(ScopeOf(fn.params, args), env0),
            !.k = IF fn.expr > 0 THEN Push(<<"E", fn.expr>>, Push(<<"R", s.env, fn.void>>, s.k))
                  ELSE Push(<<"B", fn.body, 1>>, Push(<<"RN">>, Push(<<"R", s.env, FALSE>>, s.k)))]

CallValue(F, s, f, args) ==
  IF f[1] = "f" THEN Enter(s, F.fns[f[2]], args, Nil)
  ELSE Enter(s, F.nodes[f[2]], args, Push(<<"H", f[3]>>, Nil))

----------------------------------------------------------------------------
(* Library functions, as mathematical operations on their arguments.         *)

LibNames == {"println", "print", "printHex", "printHexPadded", "toString", "append", "Equals",
  "Substring", "IndexOf", "byte", "Bytes", "length", "get", "set", "NewByteBuffer", "size",
  "substring", "reset", "array", "intArray", "stringArray", "mod", "toBinary", "fnv1a",
  "panic", "assert", "exit", "gc", "vraw0", "vraw1", "vraw2", "vraw3", "vraw4", "vraw5", "vraw6",
  "toList", "reverse", "map", "find", "foreach", "reduce", "remove", "isSome", "isNone", "filter",
  "orElse", "peek", "then", "vtrack", "vprobe", "vmix", "vstr", "vid", "vids", "vsecond", "vbytes", "vtick",
  "Now", "toMicros", "toMillis", "toSecs", "vclock"}

RawNames == {"vraw0", "vraw1", "vraw2", "vraw3", "vraw4", "vraw5", "vraw6"}

BoolText(x) == IF x THEN <<116,114,117,101>> ELSE <<102,97,108,115,101>>
Space == <<32>>
NL10 == <<10>>

RECURSIVE JoinDec(_, _)
JoinDec(vals, j) == IF j > Len(vals) THEN <<>>
                    ELSE Space \o IDec(vals[j]) \o JoinDec(vals, j + 1)

(* weighted sum of the arguments: result of the observing external functions *)
RECURSIVE Weigh(_, _)
Weigh(vals, j) == IF j > Len(vals) THEN I(0) ELSE IAdd(IMul(I(j), vals[j]), Weigh(vals, j + 1))

(* Lists, options and results of the library.  Serial number 0: an enum value whose identity is *)
(* not tracked.                                                                                *)
None == <<"e", "None", <<>>, 0>>
Some(x) == <<"e", "Some", <<x>>, 0>>
Empty == <<"e", "Empty", <<>>, 0>>
Element(x, l) == <<"e", "Element", <<x, l>>, 0>>
RECURSIVE ToSeq(_, _)
ToSeq(l, acc) == IF l[2] = "Empty" THEN acc ELSE ToSeq(l[3][2], Append(acc, l[3][1]))
RECURSIVE ListOf(_, _, _)
ListOf(q, j, l) == IF j = 0 THEN l ELSE ListOf(q, j - 1, Element(q[j], l))
AsList(q) == ListOf(q, Len(q), Empty)
Rev(q) == <<>> \o [j \in 1..Len(q) |-> q[Len(q) + 1 - j]]

----------------------------------------------------------------------------
(* Reachability (C16, C17).  A key identifies an object: <<"r", address>> or  *)
(* <<"x", serial number>> (strings and enum values).                          *)

KeyOf(x) == CASE x[1] = "r" -> <<"r", x[2]>>
              [] x[1] = "c" -> <<"r", x[3]>>
              [] x[1] = "e" -> IF x[4] = 0 THEN <<"none">> ELSE <<"x", x[4]>>
              [] x[1] = "s" -> IF Len(x) = 3 THEN <<"x", x[3]>> ELSE <<"none">>
              [] OTHER -> <<"none">>

RangeOf(f) == {f[x] : x \in DOMAIN f}
KidsOf(heap, x) ==
  CASE x[1] = "r" -> (LET o == heap[x[2]] IN
                      CASE o[1] = "S" -> RangeOf(o[3]) [] o[1] = "A" -> RangeOf(o[2]) [] OTHER -> {})
    [] x[1] = "c" -> RangeOf(heap[x[3]][2])
    [] x[1] = "e" -> RangeOf(x[3])
    [] OTHER -> {}

(* values are plain or have parts; the closure of a set of values *)
RECURSIVE Closure(_, _, _)
Closure(heap, new, seen) ==
  IF new = {} THEN seen
  ELSE LET more == UNION {KidsOf(heap, x) : x \in new} IN
       Closure(heap, {x \in more : x[1] \in {"r", "c", "e", "s"}} \ seen, seen \cup more)

ScopeVals(heap, sc) == IF sc[1] = "L" THEN RangeOf(sc[2]) ELSE {<<"c", 0, sc[2]>>} \cup RangeOf(heap[sc[2]][2])
RECURSIVE EnvVals(_, _), StackVals(_), FrameVals(_, _), HiddenVals(_)
EnvVals(env, heap) == IF env = Nil THEN {} ELSE ScopeVals(heap, env[1]) \cup EnvVals(env[2], heap)
StackVals(v) == IF v = Nil THEN {} ELSE {v[1]} \cup StackVals(v[2])
(* suspended activations and the arrays of running array loops *)
FrameVals(k, heap) ==
  IF k = Nil THEN {}
  ELSE (CASE k[1][1] = "R" -> EnvVals(k[1][2], heap) [] k[1][1] = "EN" -> {Ref(k[1][3])} [] OTHER -> {}) \cup FrameVals(k[2], heap)
(* matched values of running match statements, which an implementation may keep *)
HiddenVals(k) == IF k = Nil THEN {} ELSE (IF k[1][1] = "PS" /\ Len(k[1]) = 2 THEN {k[1][2]} ELSE {}) \cup HiddenVals(k[2])

Roots(s) == EnvVals(s.env, s.heap) \cup StackVals(s.v) \cup FrameVals(s.k, s.heap)
Reachable(s) == LET r == Roots(s) IN {KeyOf(x) : x \in Closure(s.heap, r, r)}
MayReach(s) == LET r == Roots(s) \cup HiddenVals(s.k) IN {KeyOf(x) : x \in Closure(s.heap, r, r)}

(* a: argument values, ts: their static types, n: the call node *)
Lib(F, T, s, name, a, ts) ==
  LET t1 == IF Len(ts) > 0 THEN ts[1][1] ELSE "none" IN
  CASE name = "println" ->
         Ret(Emit(T, s, (CASE t1 = "int" -> IDec(a[1]) [] t1 = "bool" -> BoolText(a[1][2]) [] t1 = "string" -> a[1][2]) \o NL10), Nothing)
    [] name = "print" ->
         Ret(Emit(T, s, IF t1 = "int" THEN IDec(a[1]) ELSE a[1][2]), Nothing)
    [] name = "printHex" -> Ret(Emit(T, s, <<48, 120>> \o IHex(a[1]) \o NL10), Nothing)
    [] name = "printHexPadded" -> Ret(Emit(T, s, <<48, 120>> \o Hex16(a[1]) \o NL10), Nothing)
    [] name = "mod" -> IF IZero(a[2]) THEN Stop(s, "undef") ELSE Ret(s, ISub(a[1], IMul(IDiv(a[1], a[2]), a[2])))
    [] name = "toBinary" -> Ret(s, Str(IBin(a[1])))
    [] name = "fnv1a" -> Ret(s, IFnv(a[1][2]))
    [] name = "Equals" -> Ret(s, Bool(a[1][2] = a[2][2]))
    [] name = "Substring" ->      \* [start, end)
         LET p == a[2]  q == a[3]  str == a[1][2] IN
         IF ILt(q, p) THEN Panic(T, s, NegLength)
         ELSE IF ~(InRange(p, Len(str) + 1) /\ InRange(q, Len(str) + 1)) THEN Stop(s, "undef")
         ELSE Ret(s, Str(SubSeq(str, p[2] + 1, q[2])))
    [] name = "IndexOf" ->
         LET str == a[1][2]  sub == a[2][2]  from == IF Len(a) = 3 THEN a[3] ELSE I(0) IN
         IF sub = <<>> \/ IIsNeg(from) THEN Stop(s, "undef")
         ELSE IF ~InRange(from, Len(str) + 1) THEN Ret(s, I(-1))
         ELSE Ret(s, I(Find(str, sub, from[2])))
    [] name = "byte" ->
         IF InRange(a[2], Len(a[1][2])) THEN Ret(s, I(SByte(a[1][2][a[2][2] + 1])))
         ELSE Panic(T, s, OutOfRange)
    [] name = "Bytes" ->
         IF ~IIsNeg(a[1]) /\ ~ILt(a[1], IShl(I(1), I(47))) THEN Panic(T, s, NoMemory)
         ELSE IF ~InRange(a[1], 1000000) THEN Stop(s, "undef")
         ELSE Alloc(s, <<"B", Rep(a[1][2], 0)>>)
    [] name = "length" -> Ret(s, I(Len(s.heap[a[1][2]][2])))
    [] name = "get" ->
         LET b == s.heap[a[1][2]][2] IN
         IF InRange(a[2], Len(b)) THEN Ret(s, I(b[a[2][2] + 1])) ELSE Panic(T, s, OutOfRange)
    [] name = "set" ->
         LET b == s.heap[a[1][2]][2] IN
         IF InRange(a[2], Len(b))
         THEN Ret([s EXCEPT !.heap[a[1][2]] = <<"B", [b EXCEPT ![a[2][2] + 1] = ByteOf(a[3])]>>], Nothing)
         ELSE Panic(T, s, OutOfRange)
    [] name = "NewByteBuffer" -> Alloc(s, <<"BB", <<>>>>)
    [] name = "size" -> Ret(s, I(Len(s.heap[a[1][2]][2])))
    [] name = "reset" -> Ret([s EXCEPT !.heap[a[1][2]] = <<"BB", <<>>>>], Nothing)
    [] name = "substring" ->
         LET b == s.heap[a[1][2]][2] IN
         IF IIsNeg(a[2]) \/ IIsNeg(a[3]) THEN Panic(T, s, NegPos)
         ELSE IF ILt(I(Len(b)), IAdd(a[2], a[3])) THEN Panic(T, s, PosTooBig)
         ELSE Ret(s, Str(ToU(SubSeq(b, a[2][2] + 1, a[2][2] + a[3][2]))))
    [] name = "append" ->
         IF t1 = "string" THEN Ret([s EXCEPT !.ser = @ + 1], <<"s", a[1][2] \o a[2][2], s.ser + 1>>)
         ELSE IF t1 = "en" THEN Ret(s, Element(a[2], a[1]))
         ELSE LET b == s.heap[a[1][2]][2]
                  more == IF ts[2][1] = "int" THEN <<ByteOf(a[2])>> ELSE ToS(a[2][2])
              IN Ret([s EXCEPT !.heap[a[1][2]] = <<"BB", b \o more>>],
                     IF ts[2][1] = "int" THEN Nothing ELSE a[1])
    [] name = "toString" ->
        (CASE t1 = "int" -> Ret(s, Str(IDec(a[1])))
           [] t1 = "bool" -> Ret(s, Str(BoolText(a[1][2])))
           [] t1 = "st" -> Ret(s, Str(ToU(s.heap[a[1][2]][2])))
           [] t1 = "bytes" ->
                LET b == s.heap[a[1][2]][2]
                    p == IF Len(a) = 3 THEN a[2] ELSE I(0)
                    n == CASE Len(a) = 1 -> I(Len(b)) [] Len(a) = 2 -> a[2] [] OTHER -> a[3]
                IN IF IIsNeg(n) THEN Panic(T, s, NegLength)
                   ELSE IF ~(InRange(p, Len(b) + 1) /\ InRange(n, Len(b) - p[2] + 1)) THEN Stop(s, "undef")
                   ELSE Ret(s, Str(ToU(SubSeq(b, p[2] + 1, p[2] + n[2])))))
    [] name \in {"array", "intArray", "stringArray"} ->
         IF IIsNeg(a[1]) \/ ~ILt(a[1], IShl(I(1), I(59))) THEN Panic(T, s, BadLength)    \* such lengths do not count bytes
         ELSE IF ~ILt(a[1], IShl(I(1), I(44))) THEN Panic(T, s, NoMemory)                \* 2^47 bytes: no address space
         ELSE IF ~InRange(a[1], 100000) THEN Stop(s, "undef")
         ELSE Alloc(s, <<"A", Rep(a[1][2], CASE name = "intArray" -> Undef
                                             [] Len(a) = 2 -> a[2]
                                             [] OTHER -> None)>>)
    [] name = "panic" -> Panic(T, s, a[1][2])
    [] name = "assert" -> IF a[1][2] THEN Ret(s, Nothing) ELSE Panic(T, s, a[2][2])
    [] name = "exit" -> IF InRange(a[1], 256) THEN Exit(T, s, a[1][2]) ELSE Stop(s, "undef")
    [] name = "gc" -> Ret(s, Nothing)
    [] name = "toList" -> Ret(s, AsList(s.heap[a[1][2]][2]))
    [] name = "reverse" -> Ret(s, AsList(Rev(ToSeq(a[1], <<>>))))
    [] name = "map" ->
         IF ts[1][2] = "list" THEN [s EXCEPT !.k = Push(<<"LMAP", a[2], ToSeq(a[1], <<>>), 1, <<>>>>, s.k)]
         ELSE IF a[1][2] \in {"None", "Err"} THEN Ret(s, a[1])
         ELSE CallValue(F, [s EXCEPT !.k = Push(<<"WRAP", a[1][2]>>, s.k)], a[2], a[1][3])
    [] name = "then" -> IF a[1][2] = "Err" THEN Ret(s, a[1]) ELSE CallValue(F, s, a[2], a[1][3])
    [] name = "find" -> [s EXCEPT !.k = Push(<<"LFIND", a[2], ToSeq(a[1], <<>>), 1>>, s.k)]
    [] name = "foreach" -> [s EXCEPT !.k = Push(<<"LEACH", a[2], ToSeq(a[1], <<>>), 1>>, s.k)]
    [] name = "reduce" -> [s EXCEPT !.k = Push(<<"LRED", a[3], ToSeq(a[1], <<>>), 1>>, s.k), !.v = Push(a[2], @)]
    [] name = "remove" -> [s EXCEPT !.k = Push(<<"LREM", a[2], ToSeq(a[1], <<>>), 1>>, s.k)]
    [] name = "isSome" -> Ret(s, Bool(a[1][2] = "Some"))
    [] name = "isNone" -> Ret(s, Bool(a[1][2] = "None"))
    [] name = "orElse" -> Ret(s, IF a[1][2] = "Some" THEN a[1][3][1] ELSE a[2])
    [] name = "filter" -> IF a[1][2] = "None" THEN Ret(s, a[1])
                          ELSE CallValue(F, [s EXCEPT !.k = Push(<<"FILT", a[1]>>, s.k)], a[2], a[1][3])
    [] name = "peek" -> IF a[1][2] \in {"None", "Err"} THEN Ret(s, a[1])
                        ELSE CallValue(F, [s EXCEPT !.k = Push(<<"PEEK", a[1]>>, s.k)], a[2], a[1][3])
    (* tracked objects: vprobe(id) prints whether the object was released; only used right after gc() *)
    [] name = "vtrack" -> Ret([s EXCEPT !.tr = (a[2] :> KeyOf(a[1])) @@ @], I(0))
    [] name = "vprobe" ->
         LET txt(b) == <<112>> \o JoinDec(<<a[1], I(b)>>, 1) \o NL10
             seen == IF SubSeq(T.out, s.pos + 1, s.pos + Len(txt(1))) = txt(1) THEN 1 ELSE 0
             key == s.tr[a[1]]
             b == IF a[1] \notin DOMAIN s.tr THEN 2
                  ELSE IF key \in Reachable(s) THEN (IF T.probe = "dead" THEN seen ELSE 0)
                  ELSE IF key \notin MayReach(s) THEN (IF T.probe = "live" THEN seen ELSE 1)
                  ELSE seen
         IN IF a[1] \in DOMAIN s.tr /\ key = <<"none">> THEN Stop(s, "model-untracked") ELSE Ret(Emit(T, s, txt(b)), I(b))
    (* observing external functions of the harness: print their C arguments *)
    [] name \in RawNames -> Ret(Emit(T, s, <<114>> \o NatDec(Len(a)) \o JoinDec(a, 1) \o NL10), Weigh(a, 1))
    [] name = "vstr" -> Ret(Emit(T, s, <<83, 32>> \o a[1][2] \o Space \o IDec(a[2]) \o Space \o a[3][2] \o NL10), a[2])
    [] name = "vmix" -> Ret(Emit(T, s, <<77, 32>> \o a[2][2] \o JoinDec(<<a[1], a[3]>>, 1)
                                   \o JoinDec(s.heap[a[4][2]][2], 1) \o NL10), IAdd(a[1], a[3]))
    [] name = "vbytes" -> Ret(Emit(T, s, <<66>> \o JoinDec([j \in 1..Len(s.heap[a[1][2]][2]) |-> I(s.heap[a[1][2]][2][j])], 1) \o NL10), a[2])
    [] name \in {"vid", "vids"} -> Ret(s, a[1])
    [] name = "vsecond" -> Ret(s, a[2])
    (* the clock: every reading is one microsecond after the one before; vclock sets it *)
    [] name = "vclock" -> Ret([s EXCEPT !.clk = <<a[1], a[2]>>], a[1])
    [] name = "Now" -> Alloc([s EXCEPT !.clk = IF @[2] = I(999999) THEN <<IAdd(@[1], I(1)), I(0)>> ELSE <<@[1], IAdd(@[2], I(1))>>], <<"S", "time", s.clk>>)
    [] name \in {"toMicros", "toMillis", "toSecs"} ->
         LET t == s.heap[a[1][2]][3]
             us == IAdd(IMul(t[1], I(1000000)), t[2])
         IN Ret(s, CASE name = "toMicros" -> us [] name = "toMillis" -> IDiv(us, I(1000)) [] OTHER -> IDiv(us, I(1000000)))
    [] name = "vtick" -> Ret(Emit(T, s, <<116>> \o JoinDec(<<a[1]>>, 1) \o NL10), a[1])

----------------------------------------------------------------------------
(* One step: expressions *)

CallNamed(F, T, s, name, args, ts) ==
  LET u == Overload(F, name, ts) IN
  IF u > 0 THEN
    LET fn == F.fns[u] IN
    CASE fn.kind = "fn" -> Enter(s, fn, args, Nil)
      [] fn.kind = "struct" -> Alloc(s, <<"S", fn.of, args>>)
      [] fn.kind = "enum" -> Ret([s EXCEPT !.ser = @ + 1], <<"e", name, args, s.ser + 1>>)
  ELSE IF name \in LibNames THEN Lib(F, T, s, name, args, ts)
  ELSE Stop(s, "model-unknown-function")

IdentValue(F, s, n) ==
  IF Visible(s.env, s.heap, n.n) THEN Lookup(s.env, s.heap, n.n)
  ELSE <<"f", FnOfType(F, n.n, n.et)>>

EvalStep(F, T, s, id, k) ==      \* k: continuation without the item
  LET n == F.nodes[id] IN
  CASE n.k = "val" -> [s EXCEPT !.k = k, !.v = Push(n.v, @)]
    [] n.k = "dec" -> [s EXCEPT !.k = k, !.v = Push(DecLit(n.d, 1, I(0)), @)]
    [] n.k = "hex" -> [s EXCEPT !.k = k, !.v = Push(HexLit(n.d, 1, I(0)), @)]
    [] n.k = "var" -> [s EXCEPT !.k = k, !.v = Push(IdentValue(F, s, n), @)]
    [] n.k = "un" -> [s EXCEPT !.k = Push(<<"E", n.a>>, Push(<<"UN", n.op>>, k))]
    [] n.k = "bin" -> [s EXCEPT !.k = Push(<<"E", n.a>>, Push(<<"E", n.b>>, Push(<<"BIN", n.op>>, k)))]
    [] n.k = "flat" -> LET p == Postfix(n.ts, 1, Nil, <<>>) IN [s EXCEPT !.k = Items(p, Len(p), k)]
    [] n.k = "tern" -> [s EXCEPT !.k = Push(<<"E", n.c>>, Push(<<"COND", n.a, n.b>>, k))]
    [] n.k = "call" ->      \* f(args) by name: a variable of that name shadows functions
         IF Visible(s.env, s.heap, n.f)
         THEN [s EXCEPT !.v = Push(Lookup(s.env, s.heap, n.f), @),
                        !.k = EvalAll(n.as, Len(n.as), Push(<<"DYN", Len(n.as)>>, k))]
         ELSE [s EXCEPT !.k = EvalAll(n.as, Len(n.as), Push(<<"CALL", id>>, k))]
    [] n.k = "dot" ->       \* x.f(args)
         IF n.ot[1] = "st" /\ (n.ot[2] \in DOMAIN F.structs) /\ (\E j \in 1..Len(F.structs[n.ot[2]]) : F.structs[n.ot[2]][j] = n.f)
         THEN [s EXCEPT !.k = Push(<<"E", n.o>>, Push(<<"FLD", n.f>>, EvalAll(n.as, Len(n.as), Push(<<"DYN", Len(n.as)>>, k))))]
         ELSE IF Visible(s.env, s.heap, n.f)
         THEN [s EXCEPT !.v = Push(Lookup(s.env, s.heap, n.f), @),
                        !.k = Push(<<"E", n.o>>, EvalAll(n.as, Len(n.as), Push(<<"DYN", Len(n.as) + 1>>, k)))]
         ELSE [s EXCEPT !.k = Push(<<"E", n.o>>, EvalAll(n.as, Len(n.as), Push(<<"CALL", id>>, k)))]
    [] n.k = "dyn" -> [s EXCEPT !.k = Push(<<"E", n.f>>, EvalAll(n.as, Len(n.as), Push(<<"DYN", Len(n.as)>>, k)))]
    [] n.k = "fld" -> [s EXCEPT !.k = Push(<<"E", n.o>>, Push(<<"FLD", n.f>>, k))]
    [] n.k = "idx" -> [s EXCEPT !.k = Push(<<"E", n.a>>, Push(<<"E", n.i>>, Push(<<"IDX">>, k)))]
    [] n.k = "arr" -> [s EXCEPT !.k = EvalAll(n.es, Len(n.es), Push(<<"ARR", Len(n.es)>>, k))]
    [] n.k = "lam" ->
         LET vis == Flatten(s.env, s.heap)        \* captured: the visible variables the body mentions
             own == {n.fv[j] : j \in 1..Len(n.fv)} \cap DOMAIN vis
         IN [s EXCEPT !.k = k, !.heap = Append(@, <<"E", [x \in own |-> vis[x]]>>),
                      !.v = Push(<<"c", id, Len(s.heap) + 1>>, @)]

(* a statement; k is the rest *)
ExecStep(F, T, s, id, k) ==
  LET n == F.nodes[id] IN
  CASE n.k = "expr" -> [s EXCEPT !.k = Push(<<"E", n.e>>, Push(<<"DROP">>, k))]
    [] n.k = "das" -> [s EXCEPT !.k = Push(<<"E", n.e>>, Push(<<"DECL", n.n>>, k))]
    [] n.k = "as" ->        \* the right side first
         LET tgt == F.nodes[n.t] IN
         (CASE tgt.k = "var" -> [s EXCEPT !.k = Push(<<"E", n.e>>, Push(<<"SETV", tgt.n>>, k))]
           [] tgt.k = "fld" -> [s EXCEPT !.k = Push(<<"E", n.e>>, Push(<<"E", tgt.o>>, Push(<<"SETF", tgt.f>>, k)))]
           [] tgt.k = "idx" -> [s EXCEPT !.k = Push(<<"E", n.e>>, Push(<<"E", tgt.a>>, Push(<<"E", tgt.i>>, Push(<<"SETI">>, k))))])
    [] n.k = "if" -> [s EXCEPT !.k = Push(<<"IF", id, 1>>, k)]
    [] n.k = "while" -> [s EXCEPT !.k = Push(<<"E", n.c>>, Push(<<"WH", id>>, k))]
    [] n.k = "range" ->     \* end is re-evaluated before every iteration
         [s EXCEPT !.env = Push(EmptyScope, @),
                   !.k = Push(<<"E", n.a>>, Push(<<"RINIT", id>>, Push(<<"PS">>, k)))]
    [] n.k = "each" -> [s EXCEPT !.k = Push(<<"E", n.a>>, Push(<<"EACH", id>>, k))]
    [] n.k = "match" -> [s EXCEPT !.k = Push(<<"E", n.e>>, Push(<<"MATCH", id>>, k))]
    [] n.k = "ret" -> IF n.e = 0 THEN [s EXCEPT !.k = Unwind(k), !.v = Push(Nothing, @)]
                      ELSE [s EXCEPT !.k = Push(<<"E", n.e>>, Push(<<"RET">>, k))]

Block(s, body, k) ==
  [s EXCEPT !.env = Push(EmptyScope, @), !.k = Push(<<"B", body, 1>>, Push(<<"PS">>, k))]

Step(F, T, s) ==
  LET it == s.k[1]
      k  == s.k[2]
      top == s.v[1]
  IN
  CASE it[1] = "E" -> EvalStep(F, T, s, it[2], k)
    [] it[1] = "B" -> IF it[3] > Len(it[2]) THEN [s EXCEPT !.k = k]
                      ELSE ExecStep(F, T, s, it[2][it[3]], IF it[3] = Len(it[2]) THEN k ELSE Push(<<"B", it[2], it[3] + 1>>, k))
    [] it[1] = "UN" -> [s EXCEPT !.k = k, !.v = Push(UnOp(it[2], top), s.v[2])]
    [] it[1] = "BIN" -> LET r == BinOp(it[2], s.v[2][1], top) IN
                        IF r = Undef THEN Stop(s, "undef")
                        ELSE [s EXCEPT !.k = k, !.v = Push(r, s.v[2][2])]
    [] it[1] = "COND" -> [s EXCEPT !.v = s.v[2], !.k = Push(<<"E", IF top[2] THEN it[2] ELSE it[3]>>, k)]
    [] it[1] = "CALL" -> LET n == F.nodes[it[2]]
                             c == Len(n.as) + (IF n.k = "dot" THEN 1 ELSE 0)
                             p == PopN(s.v, c, <<>>)
                         IN CallNamed(F, T, [s EXCEPT !.k = k, !.v = p[2]], n.f, p[1], n.ts)
    [] it[1] = "DYN" -> LET p == PopN(s.v, it[2], <<>>) IN
                        CallValue(F, [s EXCEPT !.k = k, !.v = p[2][2]], p[2][1], p[1])
    [] it[1] = "FLD" ->
         IF top[1] = "s" THEN [s EXCEPT !.k = k, !.v = Push(I(Len(top[2])), s.v[2])]
         ELSE LET o == s.heap[top[2]] IN
              (CASE o[1] = "S" -> [s EXCEPT !.k = k, !.v = Push(o[3][FieldIdx(F, o[2], it[2])], s.v[2])]
                [] o[1] = "A" -> [s EXCEPT !.k = k, !.v = Push(I(Len(o[2])), s.v[2])]
                [] o[1] = "BB" -> [s EXCEPT !.k = k, !.v = Push(I(Len(o[2])), s.v[2])])
    [] it[1] = "IDX" ->
         LET o == s.heap[s.v[2][1][2]] IN
         IF InRange(top, Len(o[2]))
         THEN LET x == o[2][top[2] + 1] IN
              IF x = Undef THEN Stop(s, "undef") ELSE [s EXCEPT !.k = k, !.v = Push(x, s.v[2][2])]
         ELSE OutOfBounds(T, s, top, Len(o[2]))
    [] it[1] = "ARR" -> LET p == PopN(s.v, it[2], <<>>) IN
                        Alloc([s EXCEPT !.k = k, !.v = p[2]], <<"A", p[1]>>)
    [] it[1] = "DROP" -> [s EXCEPT !.k = k, !.v = s.v[2]]
    [] it[1] = "DECL" -> [s EXCEPT !.k = k, !.v = s.v[2], !.env = Declare(@, it[2], top)]
    [] it[1] = "SETV" -> LET r == AssignVar(s.env, s.heap, it[2], top) IN
                         [s EXCEPT !.k = k, !.v = s.v[2], !.env = r[1], !.heap = r[2]]
    [] it[1] = "SETF" -> LET o == s.heap[top[2]] IN
                         [s EXCEPT !.k = k, !.v = s.v[2][2],
                                   !.heap[top[2]] = <<"S", o[2], [o[3] EXCEPT ![FieldIdx(F, o[2], it[2])] = s.v[2][1]]>>]
    [] it[1] = "SETI" ->
         LET a == s.v[2][1][2]
             o == s.heap[a]
         IN IF InRange(top, Len(o[2]))
            THEN [s EXCEPT !.k = k, !.v = s.v[2][2][2],
                           !.heap[a] = <<"A", [o[2] EXCEPT ![top[2] + 1] = s.v[2][2][1]]>>]
            ELSE OutOfBounds(T, s, top, Len(o[2]))
    [] it[1] = "IF" ->
         LET n == F.nodes[it[2]] IN
         IF it[3] <= Len(n.cs) THEN [s EXCEPT !.k = Push(<<"E", n.cs[it[3]]>>, Push(<<"IFT", it[2], it[3]>>, k))]
         ELSE IF n.els THEN Block(s, n.bs[it[3]], k) ELSE [s EXCEPT !.k = k]
    [] it[1] = "IFT" ->
         LET n == F.nodes[it[2]]
             s1 == [s EXCEPT !.v = s.v[2]]
         IN IF top[2] THEN Block(s1, n.bs[it[3]], k)
            ELSE [s1 EXCEPT !.k = Push(<<"IF", it[2], it[3] + 1>>, k)]
    [] it[1] = "WH" ->
         LET n == F.nodes[it[2]]
             s1 == [s EXCEPT !.v = s.v[2]]
         IN IF top[2] THEN Block(s1, n.body, Push(<<"E", n.c>>, Push(<<"WH", it[2]>>, k)))
            ELSE [s1 EXCEPT !.k = k]
    [] it[1] = "RINIT" ->
         LET n == F.nodes[it[2]]
             x == IF n.down THEN ISub(top, I(1)) ELSE top
         IN [s EXCEPT !.v = s.v[2], !.env = Declare(@, n.n, x), !.k = Push(<<"RTEST", it[2]>>, k)]
    [] it[1] = "RTEST" ->
         LET n == F.nodes[it[2]] IN
         IF n.down
         THEN IF ~IIsNeg(Lookup(s.env, s.heap, n.n)) THEN [s EXCEPT !.k = Push(<<"RBODY", it[2]>>, k)] ELSE [s EXCEPT !.k = k]
         ELSE [s EXCEPT !.k = Push(<<"E", n.b>>, Push(<<"RCMP", it[2]>>, k))]
    [] it[1] = "RCMP" ->
         LET n == F.nodes[it[2]]
             s1 == [s EXCEPT !.v = s.v[2]]
         IN IF ILt(Lookup(s.env, s.heap, n.n), top) THEN [s1 EXCEPT !.k = Push(<<"RBODY", it[2]>>, k)]
            ELSE [s1 EXCEPT !.k = k]
    [] it[1] = "RBODY" ->
         Block(s, F.nodes[it[2]].body, Push(<<"RNEXT", it[2]>>, k))
    [] it[1] = "RNEXT" ->
         LET n == F.nodes[it[2]]
             x == IAdd(Lookup(s.env, s.heap, n.n), I(IF n.down THEN -1 ELSE 1))
             r == AssignVar(s.env, s.heap, n.n, x)
         IN [s EXCEPT !.env = r[1], !.heap = r[2], !.k = Push(<<"RTEST", it[2]>>, k)]
    [] it[1] = "EACH" -> [s EXCEPT !.v = s.v[2], !.k = Push(<<"EN", it[2], top[2], 1>>, k)]
    [] it[1] = "EN" ->      \* next element of the array at address it[3]
         LET n == F.nodes[it[2]]
             a == s.heap[it[3]][2]
         IN IF it[4] > Len(a) THEN [s EXCEPT !.k = k]
            ELSE [s EXCEPT !.env = Push(ScopeOf(<<n.n>>, <<a[it[4]]>>), @),
                           !.k = Push(<<"B", n.body, 1>>, Push(<<"PS">>, Push(<<"EN", it[2], it[3], it[4] + 1>>, k)))]
    [] it[1] = "MATCH" ->
         LET n == F.nodes[it[2]]
             c == n.cases[CHOOSE j \in 1..Len(n.cases) : n.cases[j].c = top[2]]
         IN [s EXCEPT !.v = s.v[2], !.env = Push(ScopeOf(c.vs, top[3]), @),
                      !.k = Push(<<"B", c.body, 1>>, Push(<<"PS", top>>, k))]
    [] it[1] = "LMAP" ->
         IF it[4] > Len(it[3]) THEN Ret([s EXCEPT !.k = k], AsList(it[5]))
         ELSE CallValue(F, [s EXCEPT !.k = Push(<<"LMAPR", it[2], it[3], it[4], it[5]>>, k)], it[2], <<it[3][it[4]]>>)
    [] it[1] = "LMAPR" -> [s EXCEPT !.v = s.v[2], !.k = Push(<<"LMAP", it[2], it[3], it[4] + 1, Append(it[5], top)>>, k)]
    [] it[1] = "LFIND" ->
         IF it[4] > Len(it[3]) THEN Ret([s EXCEPT !.k = k], None)
         ELSE CallValue(F, [s EXCEPT !.k = Push(<<"LFINDR", it[2], it[3], it[4]>>, k)], it[2], <<it[3][it[4]]>>)
    [] it[1] = "LFINDR" -> IF top[2] THEN [s EXCEPT !.k = k, !.v = Push(Some(it[3][it[4]]), s.v[2])]
                           ELSE [s EXCEPT !.v = s.v[2], !.k = Push(<<"LFIND", it[2], it[3], it[4] + 1>>, k)]
    [] it[1] = "LREM" ->       \* the list without the first match, and the match
         IF it[4] > Len(it[3]) THEN Alloc([s EXCEPT !.k = k], <<"S", "pair", <<AsList(it[3]), None>>>>)
         ELSE CallValue(F, [s EXCEPT !.k = Push(<<"LREMR", it[2], it[3], it[4]>>, k)], it[2], <<it[3][it[4]]>>)
    [] it[1] = "LREMR" -> IF top[2] THEN Alloc([s EXCEPT !.k = k, !.v = s.v[2]],
                                               <<"S", "pair", <<AsList(SubSeq(it[3], 1, it[4] - 1) \o SubSeq(it[3], it[4] + 1, Len(it[3]))), Some(it[3][it[4]])>>>>)
                          ELSE [s EXCEPT !.v = s.v[2], !.k = Push(<<"LREM", it[2], it[3], it[4] + 1>>, k)]
    [] it[1] = "LEACH" ->
         IF it[4] > Len(it[3]) THEN Ret([s EXCEPT !.k = k], Nothing)
         ELSE CallValue(F, [s EXCEPT !.k = Push(<<"DROP">>, Push(<<"LEACH", it[2], it[3], it[4] + 1>>, k))], it[2], <<it[3][it[4]]>>)
    [] it[1] = "LRED" ->
         IF it[4] > Len(it[3]) THEN [s EXCEPT !.k = k]
         ELSE CallValue(F, [s EXCEPT !.v = s.v[2], !.k = Push(<<"LRED", it[2], it[3], it[4] + 1>>, k)], it[2], <<top, it[3][it[4]]>>)
    [] it[1] = "WRAP" -> [s EXCEPT !.k = k, !.v = Push(<<"e", it[2], <<top>>, 0>>, s.v[2])]
    [] it[1] = "FILT" -> [s EXCEPT !.k = k, !.v = Push(IF top[2] THEN it[2] ELSE None, s.v[2])]
    [] it[1] = "PEEK" ->       \* option: the function's result is dropped; result: Some(e) turns it into Err(e)
         [s EXCEPT !.k = k, !.v = Push(IF it[2][2] = "Ok" /\ top[2] = "Some" THEN <<"e", "Err", top[3], 0>> ELSE it[2], s.v[2])]
    [] it[1] = "PS" -> [s EXCEPT !.k = k, !.env = s.env[2]]
    [] it[1] = "RET" -> [s EXCEPT !.k = Unwind(k)]
    [] it[1] = "RN" -> [s EXCEPT !.k = k, !.v = Push(Nothing, @)]
    [] it[1] = "R" -> [s EXCEPT !.k = k, !.env = it[2], !.v = IF it[3] THEN Push(Nothing, s.v[2]) ELSE @]
    [] it[1] = "END" -> Exit(T, s, 0)

----------------------------------------------------------------------------
Start(F, T) ==
  [k |-> Push(<<"B", F.fns[F.byName[T.entry][1]].body, 1>>, Push(<<"RN">>, Push(<<"R", Push(EmptyScope, Nil), FALSE>>, Push(<<"END">>, Nil)))),
   v |-> Nil, env |-> Push(EmptyScope, Nil), heap |-> <<>>, ser |-> 0, clk |-> <<I(0), I(0)>>, tr |-> [x \in {} |-> 0], pos |-> 0, st |-> "run", want |-> <<>>, n |-> 0]

Done(s) == s.st # "run"

(* c steps, as a fold: TLC evaluates it without nesting *)
Run(F, T, s0, c) ==
  LET Go(s, j) == IF Done(s) THEN s ELSE Step(F, T, s)
  IN [FoldLeft(Go, s0, [j \in 1..c |-> j]) EXCEPT !.n = @ + 1]
=============================================================================
