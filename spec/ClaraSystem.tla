---------------------------- MODULE ClaraSystem ----------------------------
(***************************************************************************)
(* A running program and its surroundings (C23, C24): the arguments and      *)
(* environment it was started with, and a file system of regular files and   *)
(* of paths that cannot be opened or read for some reason.                    *)
(*   W.argv  sequence of byte strings                                        *)
(*   W.envp  sequence of byte strings NAME=VALUE                             *)
(*   W.fs    sequence of nodes [k |-> kind, b |-> bytes, p |-> path]          *)
(* State: open files, slot -> <<node, position>>.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

EqSign == 61
SplitAt(s) == CHOOSE j \in 1..Len(s) : s[j] = EqSign /\ \A k \in 1..j - 1 : s[k] # EqSign
NameOf(s) == SubSeq(s, 1, SplitAt(s) - 1)
ValueOf(s) == SubSeq(s, SplitAt(s) + 1, Len(s))
Vars(W) == {<<NameOf(W.envp[j]), ValueOf(W.envp[j])>> : j \in 1..Len(W.envp)}
Names(W) == {NameOf(W.envp[j]) : j \in 1..Len(W.envp)}

(* why a path cannot be opened or read: errno and its description *)
Cause(kind) == CASE kind = "missing" -> 2 [] kind = "denied" -> 13 [] kind = "notdir" -> 20 [] kind = "dir" -> 21
                 [] kind = "long" -> 36 [] kind = "loop" -> 40 [] OTHER -> 0

Contains(s, w) == \E j \in 0..Len(s) - Len(w) : SubSeq(s, j + 1, j + Len(w)) = w
(* D.text[e]: the description of errno e; others are described by their number *)
Describes(D, msg, node) ==
  /\ Contains(msg, node.p)
  /\ Cause(node.k) <= Len(D.text) => Contains(msg, D.text[Cause(node.k)])

Opens(node) == node.k \in {"file", "dir"}
Reads(node) == node.k = "file"

Min(a, b) == IF a < b THEN a ELSE b
(* reading up to n bytes into a buffer of m bytes, m >= n, zero before *)
ReadInto(node, pos, n, m) ==
  LET got == Min(n, Len(node.b) - pos) IN
  SubSeq(node.b, pos + 1, pos + got) \o [j \in 1..m - got |-> 0]
=============================================================================
