------------------------------ MODULE MQGateGen ------------------------------
(***************************************************************************)
(* Two walks at once with the same handlers: every order of their calls.   *)
(* A walk does not depend on the other one.                                *)
(***************************************************************************)
EXTENDS MQVisit, TLC, Json

CONSTANTS Emit

Pairs == << << T("a = 1"), T("a = 1") >>, << T("a.b in [1]"), T("not (a)") >>, << T("f(a, 1)"), T("f(a, 1)") >>,
            << T("a between 1 and 2"), T("b is null") >>, << T("a = 1 or b"), T("f(a, [1]) is null") >> >>
Trees == TLCEval([p \in 1..Len(Pairs) |-> [i \in 1..2 |-> Read(Pairs[p][i]).v]])
HandlerSets == << [k \in Kinds |-> "go"], [k \in Kinds |-> IF k \in {"id", "ref", "op", "value"} THEN "go" ELSE "none"] >>

VARIABLES pair, hs, fails, walks, order
vars == <<pair, hs, fails, walks, order>>

Init == /\ pair \in 1..Len(Pairs)
        /\ hs \in 1..Len(HandlerSets)
        /\ fails \in {{}, {2}}
        /\ walks = [i \in 1..2 |-> WalkFrom(Numbered(Trees[pair][i], 1))]
        /\ order = <<>>

(* Up to and including the next call. *)
RECURSIVE ToCall(_)
ToCall(w) == IF Over(w) THEN w ELSE LET n == TLCEval(Step(w, HandlerSets[hs], fails)) IN IF Len(n.log) > Len(w.log) THEN n ELSE ToCall(n)
Next == \E i \in 1..2 :
  /\ ~Over(walks[i])
  /\ LET w == ToCall(walks[i]) IN
     /\ walks' = [walks EXCEPT ![i] = w]
     /\ order' = IF Len(w.log) > Len(walks[i].log) THEN Append(order, i) ELSE order
  /\ UNCHANGED <<pair, hs, fails>>
Spec == Init /\ [][Next]_vars

Done == \A i \in 1..2 : Over(walks[i])
Alone == Done => \A i \in 1..2 : walks[i] = RunWalk(WalkFrom(Numbered(Trees[pair][i], 1)), HandlerSets[hs], fails)
Emitted == Emit /\ Done => PrintT(ToJson([ss |-> Pairs[pair], h |-> HandlerSets[hs], fails |-> fails, order |-> order]))
=============================================================================
