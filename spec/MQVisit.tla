------------------------------- MODULE MQVisit -------------------------------
(***************************************************************************)
(* Walking a tree with a visitor.  A walk is a record                      *)
(*   todo  what is still to be done: nodes with their number, and marks    *)
(*         where a handler catches the errors of a child                   *)
(*   log   numbers of the nodes handlers were called with                  *)
(*   res   0, the number of the call whose error is returned, or -1 if the *)
(*         visitor does not know the type of a node it comes to            *)
(*   odd   numbers of the nodes of unknown type, no handler sees them      *)
(* Nodes are numbered parents first, children in the order of Children.    *)
(*                                                                         *)
(* Handlers have a mode: none (not supplied, the default descends), stop   *)
(* (does not descend), go (descends, returns the first error), catch       *)
(* (descends, ignores errors of its children).  fails: numbers of the      *)
(* calls that return an error instead.                                     *)
(***************************************************************************)
EXTENDS MQTree, TLC

Kinds == {"cmp", "log", "btw", "fn", "prd", "par", "not", "id", "ref", "op", "value"}
KindOf(n) == IF n.t \in {"int", "str", "bool", "null", "arr"} THEN "value" ELSE n.t

Numbered(n, i) == [node |-> n, i |-> i]
Mark == [i |-> 0]

RECURSIVE KidsFrom(_,_,_)
KidsFrom(c, k, i) == IF k > Len(c) THEN <<>> ELSE <<Numbered(c[k], i)>> \o KidsFrom(c, k + 1, i + Size(c[k]))
Kids(w) == KidsFrom(Children(w.node), 1, w.i + 1)
RECURSIVE Guarded(_)
Guarded(ws) == IF ws = <<>> THEN <<>> ELSE <<ws[1], Mark>> \o Guarded(Tail(ws))

(* All nodes with their numbers. *)
RECURSIVE AllFrom(_,_)
AllFrom(ws, acc) == IF ws = <<>> THEN acc ELSE AllFrom(TLCEval(Kids(ws[1]) \o Tail(ws)), TLCEval(Append(acc, ws[1])))
AllNodes(n) == AllFrom(<<Numbered(n, 1)>>, <<>>)

WalkOdd(w, odd) == [todo |-> <<w>>, log |-> <<>>, res |-> 0, odd |-> odd]
WalkFrom(w) == WalkOdd(w, {})

(* What remains after an error: everything up to the next mark is left. *)
RECURSIVE AfterError(_)
AfterError(ws) == IF ws = <<>> THEN <<>> ELSE IF ws[1] = Mark THEN Tail(ws) ELSE AfterError(Tail(ws))
Catches(ws) == \E k \in 1..Len(ws) : ws[k] = Mark

Step(w, h, fails) ==
  LET x == w.todo[1]  rest == Tail(w.todo) IN
  IF x = Mark THEN [w EXCEPT !.todo = rest]
  ELSE IF x.i \in w.odd THEN [w EXCEPT !.todo = AfterError(rest), !.res = IF Catches(rest) THEN 0 ELSE -1]
  ELSE LET mode == h[KindOf(x.node)]
           log == IF mode = "none" THEN w.log ELSE Append(w.log, x.i) IN
       IF mode # "none" /\ Len(log) \in fails
       THEN [w EXCEPT !.todo = AfterError(rest), !.log = log, !.res = IF Catches(rest) THEN 0 ELSE Len(log)]
       ELSE [w EXCEPT !.todo = CASE mode = "stop" -> rest
                                 [] mode = "catch" -> Guarded(Kids(x)) \o rest
                                 [] OTHER -> Kids(x) \o rest,
                      !.log = log, !.res = 0]
Over(w) == w.todo = <<>>

RECURSIVE RunWalk(_,_,_)
RunWalk(w, h, fails) == IF Over(w) THEN w ELSE RunWalk(TLCEval(Step(w, h, fails)), h, fails)
=============================================================================
