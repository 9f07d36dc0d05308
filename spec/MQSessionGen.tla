---------------------------- MODULE MQSessionGen ----------------------------
(***************************************************************************)
(* All short histories over a few queries, and what is true of every       *)
(* history: a step never adds rows, never touches another handle, and a    *)
(* wrong query stays wrong.                                                *)
(***************************************************************************)
EXTENDS MQSession, Json

CONSTANTS Depth, Model, Kinds, Emit

Q == TLCEval(Small(Model))

Steps(hs) ==
  LET hh == { h \in 1..Len(hs) : MayUse(hs, h) } IN
       { [op |-> "fork", h |-> h] : h \in { h \in hh : ~hs[h].shared } }
  \cup { [op |-> "query", h |-> h, via |-> v, qs |-> <<Q[k]>>] : h \in hh, v \in {"apply", "wire"}, k \in 1..Len(Q) }
  \cup { [op |-> "query", h |-> h, via |-> "call", qs |-> <<Q[k]>>] : h \in hh, k \in {2, 5} }
  \cup { [op |-> "query", h |-> h, via |-> "scope", qs |-> <<Q[k], Q[1]>>] : h \in hh, k \in 1..Len(Q) }
  \cup { [op |-> "query", h |-> h, via |-> "direct", qs |-> <<Q[k], Q[1]>>] : h \in hh, k \in {3, 4} }
  \cup { [op |-> "where", h |-> h, c |-> c] : h \in hh, c \in {"raw", "not"} }

(* A small content of the database to compare rows on. *)
MiniVals == << MkNull, MkInt(<<49>>), MkInt(<<50>>) >>
Env0 == TLCEval(
  IF Model = "persons"
  THEN LET paths == UNION { { <<Columns["persons"][i]>> : i \in 1..Len(Columns["persons"]) },
                            { <<T("Dept"), Columns["depts"][i]>> : i \in 1..Len(Columns["depts"]) },
                            { <<T("Boss"), Columns["persons"][i]>> : i \in 1..Len(Columns["persons"]) } } IN
       [k \in 1..9 |-> [p \in paths |-> IF Len(p) = 1 THEN MiniVals[((k - 1) % 3) + 1] ELSE MiniVals[((k - 1) \div 3) + 1]]]
  ELSE [k \in 1..9 |-> [p \in { <<Columns[Model][i]>> : i \in 1..Len(Columns[Model]) } |->
         IF p = <<T("i")>> THEN MiniVals[((k - 1) % 3) + 1] ELSE IF p = <<T("j")>> THEN MiniVals[((k - 1) \div 3) + 1] ELSE MkNull]])

VARIABLES handles, history
vars == <<handles, history>>

First(k) == [op |-> "open", m |-> Model, c |-> k]
Init == \E k \in Kinds : handles = Step(<<>>, First(k)) /\ history = <<First(k)>>
Next == /\ Len(history) <= Depth
        /\ \E st \in Steps(handles) :
             /\ handles' = Step(handles, st)
             /\ history' = Append(history, st)
Spec == Init /\ [][Next]_vars

Rows(h) == IF h.wrong THEN {} ELSE RowsOf(h, Env0, 1)
(* The newest handle has no row its origin does not have. *)
Narrows ==
  \A i \in 2..Len(history) : history[i].op # "open" => Rows(handles[i]) \subseteq Rows(handles[history[i].h])
StaysWrong ==
  \A i \in 2..Len(history) : history[i].op # "open" => (handles[history[i].h].wrong => handles[i].wrong)
Keep(h) == [h EXCEPT !.used = FALSE]
Isolated == [][\A i \in 1..Len(handles) : Keep(handles'[i]) = Keep(handles[i])]_vars
(* Conditions may be given in any order. *)
Commutes ==
  \A a, b \in Steps(handles) :
    a.op # "fork" /\ b.op # "fork" /\ a.h = b.h /\ Len(history) = 1 =>
      LET h == handles[a.h] IN
      Rows(Made(Made(h, a), b)) = Rows(Made(Made(h, b), a))
View == history
Complete == Emit /\ Len(history) = Depth + 1 => PrintT(ToJson([steps |-> history]))
=============================================================================
