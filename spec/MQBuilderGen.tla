---------------------------- MODULE MQBuilderGen ----------------------------
(***************************************************************************)
(* Histories of one ent SQL builder: it is asked for its condition again   *)
(* and again, alone or as a part of statements of several dialects with    *)
(* arguments before it.  Whatever was asked before, an answer depends only *)
(* on the call: the dialect decides the spelling, the arguments before it  *)
(* the first number.                                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Depth, Emit

Calls == [how : {"alone", "join", "clone"}, d : {"sqlite", "postgres"}, pre : {0, 2}]

VARIABLES parsed,    \* the query was read
          dialect,   \* of the last call
          total,     \* arguments before the last call
          history, answers
vars == <<parsed, dialect, total, history, answers>>

Init == parsed = FALSE /\ dialect = "" /\ total = 0 /\ history = <<>> /\ answers = <<>>

(* What the builder keeps between calls is the tree, and what the caller   *)
(* set: both are overwritten before they are used.                         *)
Ask(c) ==
  /\ parsed' = TRUE
  /\ dialect' = c.d
  /\ total' = c.pre
  /\ history' = Append(history, c)
  /\ answers' = Append(answers, [d |-> dialect', first |-> total' + 1])
Next == Len(history) < Depth /\ \E c \in Calls : Ask(c)
Spec == Init /\ [][Next]_vars

Depends == \A i \in 1..Len(history) : answers[i] = [d |-> history[i].d, first |-> history[i].pre + 1]
Complete == Emit /\ Len(history) = Depth => PrintT(ToJson([calls |-> history]))
=============================================================================
