----------------------------- MODULE MQVisitGen -----------------------------
(***************************************************************************)
(* All walks of small trees: every choice of handlers for the kinds of     *)
(* nodes that occur, every call that fails, every node of unknown type.    *)
(***************************************************************************)
EXTENDS MQVisit, TLC, Json

CONSTANTS Modes, Emit

Texts == << T("a = 1"), T("a.b in [1,'x']"), T("not (a)"), T("f(a, 1) is null"), T("a between 1 and 2 or b"), T("f() and [null]"),
            T("(not a) like f(b.c)"), T("a = 1 and b = 2 or c = 3") >>
Trees == TLCEval([i \in 1..Len(Texts) |-> Read(Texts[i]).v])
Nodes == TLCEval([i \in 1..Len(Texts) |-> AllNodes(Trees[i])])
KindsIn(i) == { KindOf(Nodes[i][k].node) : k \in 1..Len(Nodes[i]) }
Handlers(i) == { [k \in Kinds |-> IF k \in KindsIn(i) THEN f[k] ELSE "none"] : f \in [KindsIn(i) -> Modes] }

VARIABLES tree, h, fails, walk
vars == <<tree, h, fails, walk>>

Init == /\ tree \in 1..Len(Texts)
        /\ h \in Handlers(tree)
        /\ fails \in { {} } \cup { {k} : k \in 1..Len(Nodes[tree]) }
        /\ \E odd \in { {} } \cup { {k} : k \in IF fails = {} THEN 1..Len(Nodes[tree]) ELSE {} } :
             walk = WalkOdd(Numbered(Trees[tree], 1), odd)
Next == ~Over(walk) /\ walk' = Step(walk, h, fails) /\ UNCHANGED <<tree, h, fails>>
Spec == Init /\ [][Next]_vars

(* Parents first, in order, nobody twice. *)
InOrder == \A i \in 1..(Len(walk.log) - 1) : walk.log[i] < walk.log[i + 1]
(* Only kinds with a handler. *)
OfKind == \A i \in 1..Len(walk.log) : h[KindOf(Nodes[tree][walk.log[i]].node)] # "none"
(* Nothing after the first error, unless a handler catches. *)
Stops == /\ walk.res > 0 => Over(walk) /\ Len(walk.log) = walk.res /\ fails = {walk.res}
         /\ walk.res < 0 => Over(walk) /\ \A i \in 1..Len(walk.log) : \A k \in walk.odd : walk.log[i] < k
(* Nobody gets a node of unknown type, and its parents report it. *)
Unknown == /\ \A i \in 1..Len(walk.log) : walk.log[i] \notin walk.odd
           /\ Over(walk) /\ walk.odd # {} /\ (\A k \in Kinds : h[k] \notin {"catch", "stop"}) => walk.res = -1
Reported == Over(walk) /\ (\E f \in fails : f <= Len(walk.log)) /\ (\A k \in Kinds : h[k] # "catch") => walk.res \in fails
(* Everything is reached if nothing stops the walk. *)
Complete ==
  Over(walk) /\ walk.res = 0 /\ walk.odd = {} /\ (\A k \in Kinds : h[k] # "stop") /\ (\A f \in fails : f > Len(walk.log)) =>
    { walk.log[i] : i \in 1..Len(walk.log) } = { k \in 1..Len(Nodes[tree]) : h[KindOf(Nodes[tree][k].node)] # "none" }
Emitted == Emit /\ Over(walk) => PrintT(ToJson([s |-> Texts[tree], h |-> h, fails |-> fails, odd |-> walk.odd]))
=============================================================================
