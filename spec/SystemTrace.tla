---------------------------- MODULE SystemTrace ----------------------------
(* Runs of real programs against ClaraSystem.  Events:                                                                 *)
(*   <<"args", list>> <<"env", pairs>> <<"size", n>> <<"get", name, present, value>> <<"text", errno, text>>             *)
(*   <<"open", slot, node, ok, message>> <<"fsize", slot, ok, n, message>> <<"read", slot, n, m, ok, buffer, message>>     *)
(*   <<"all", slot, ok, content, message>>                                                                             *)
EXTENDS ClaraSystem, SequencesExt, Json, IOUtils
D == JsonDeserialize(IOEnv.SYS_JSON)
VARIABLES tr, done
vars == <<tr, done>>

(* s: [fd |-> slot -> <<node, pos>>, bad] *)
Step(W, s, e) ==
  LET no == [s EXCEPT !.bad = s.n]
      node(k) == W.fs[s.fd[k][1]]
      pos(k) == s.fd[k][2]
      ok(b) == IF b THEN s ELSE no
  IN CASE e[1] = "args" -> ok(e[2] = W.argv)
       [] e[1] = "env" -> ok(/\ Len(e[2]) = Cardinality(Vars(W))
                             /\ {e[2][j] : j \in 1..Len(e[2])} = Vars(W))
       [] e[1] = "size" -> ok(e[2] = Cardinality(Vars(W)))
       [] e[1] = "get" -> ok(IF e[3] THEN <<e[2], e[4]>> \in Vars(W) ELSE e[2] \notin Names(W))
       [] e[1] = "text" -> ok(e[3] = D.text[e[2]])
       [] e[1] = "open" -> IF e[4] # Opens(W.fs[e[3]]) THEN no
                           ELSE IF e[4] THEN [s EXCEPT !.fd = (e[2] :> <<e[3], 0>>) @@ @]
                           ELSE ok(Describes(D, e[5], W.fs[e[3]]))
       [] e[1] = "fsize" -> ok(e[3] /\ e[4] = Len(node(e[2]).b))
       [] e[1] = "read" -> IF e[3] > e[4] THEN ok(~e[5])                  \* the buffer is too small: an error
                           ELSE IF e[5] # Reads(node(e[2])) THEN no
                           ELSE IF ~e[5] THEN ok(Describes(D, e[7], node(e[2])))
                           ELSE IF e[6] # ReadInto(node(e[2]), pos(e[2]), e[3], e[4]) THEN no
                           ELSE [s EXCEPT !.fd[e[2]][2] = Min(@ + e[3], Len(node(e[2]).b))]
       [] e[1] = "all" -> IF e[3] # Reads(node(e[2])) THEN no
                          ELSE IF e[3] THEN (IF e[4] = node(e[2]).b THEN [s EXCEPT !.fd[e[2]][2] = Len(e[4])] ELSE no)
                          ELSE ok(Describes(D, e[5], node(e[2])))

Run(t) == LET Go(s, e) == IF s.bad > 0 THEN s ELSE Step(D.traces[t].w, [s EXCEPT !.n = @ + 1], e)
          IN FoldLeft(Go, [fd |-> [x \in {} |-> 0], n |-> 0, bad |-> 0], D.traces[t].ev).bad
Init == tr \in 1..Len(D.traces) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tr
        /\ PrintT("VERDICT " \o ToString(tr) \o " " \o ToString(Run(tr)))
Spec == Init /\ [][Next]_vars
=============================================================================
