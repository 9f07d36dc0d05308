----------------------------- MODULE MQCallTrace -----------------------------
(***************************************************************************)
(* Recorded walks (visit [C16], gated [C17]) and the answers collected for *)
(* one call with one argument, whenever and wherever it was made (call     *)
(* [C17]), and what nodes say about themselves (nodes [C19]).              *)
(***************************************************************************)
EXTENDS MQVisit, MQTraceBase

SetOf(s) == { s[i] : i \in 1..Len(s) }
(* at: the call during which the context given to Visit was cancelled, -1  *)
(* before the first one, 0 never.  Handlers get that context.              *)
Seen(log, at) == [k \in 1..Len(log) |-> at = -1 \/ (at > 0 /\ k > at)]
Differs(run, w, at) ==
  IF run.res = -2 THEN "visitor panics"
  ELSE IF run.log # w.log THEN "other calls"
  ELSE IF run.seen # Seen(w.log, at) THEN "another context"
  ELSE IF run.res # w.res THEN "another result"
  ELSE "ok"

JudgeVisit(e) ==
  LET d == Read(e.s) IN
  IF ~d.ok THEN "skip: not in the language"
  ELSE IF e.r # "ok" THEN "not walked: " \o e.r
  ELSE IF ~e.ctx THEN "context lost"
  ELSE LET n == AllNodes(d.v)[e.root]
           w == RunWalk(WalkOdd(n, SetOf(e.odd)), e.h, SetOf(e.fails))
           vs == { Differs(e.runs[i], w, e.at) : i \in 1..Len(e.runs) } \ {"ok"} IN
       IF vs = {} THEN "ok" ELSE CHOOSE v \in vs : TRUE
OnVisit == IsEvent("visit") /\ Report(JudgeVisit(Event))

JudgeGated(e) ==
  LET d == [i \in 1..Len(e.ss) |-> Read(e.ss[i])] IN
  IF \E i \in 1..Len(d) : ~d[i].ok THEN "gen: not in the language"
  ELSE IF e.r # "ok" THEN "walks do not end: " \o e.r
  ELSE IF ~e.ctx THEN "context lost"
  ELSE LET vs == { Differs(e.runs[i], RunWalk(WalkFrom(Numbered(d[i].v, 1)), e.h, SetOf(e.fails)), IF i = 1 THEN e.at ELSE 0) : i \in 1..Len(d) } \ {"ok"} IN
       IF vs = {} THEN "ok" ELSE "walks disturb each other: " \o CHOOSE v \in vs : TRUE
OnGated == IsEvent("gated") /\ Report(JudgeGated(Event))

(* One answer, the arguments unchanged, and the answer of the specification *)
(* where it gives one.                                                      *)
JudgeCall(e) ==
  IF e.r # "ok" THEN "calls fail: " \o e.r
  ELSE IF ~e.same THEN "argument changed"
  ELSE IF Len(e.outs) # 1 THEN "different answers for the same arguments"
  ELSE LET o == e.outs[1] IN
       CASE e.op = "parse" ->
              LET d == Read(e.s) IN
              IF d.ok THEN IF o.r = "ok" /\ o.ast = d.v THEN "ok" ELSE "not the tree of the text"
              ELSE IF o.r = "err" THEN "ok" ELSE "not an error: " \o o.r
         [] e.op = "print" ->
              LET d == Read(e.s) IN
              IF ~d.ok THEN IF o.r = "none" THEN "ok" ELSE "printed without tree"
              ELSE IF o.r # "ok" THEN "not printed: " \o o.r
              ELSE LET p == Read(o.b) IN IF p.ok /\ p.v = d.v THEN "ok" ELSE "printed differently"
         [] e.op = "visit" ->
              LET d == Read(e.s) IN
              IF ~d.ok THEN IF o.r = "none" THEN "ok" ELSE "visited without tree"
              ELSE IF o.r = "ok" /\ o.run.res = 0 /\ o.run.log = [i \in 1..Size(d.v) |-> i] THEN "ok" ELSE "not every node once"
         [] e.op = "join" -> IF o.r = "ok" THEN "ok" ELSE "join fails: " \o o.r
         [] OTHER -> IF o.r \in {"ok", "none"} THEN "ok" ELSE "call fails: " \o o.r
OnCall == IsEvent("call") /\ Report(JudgeCall(Event))

(* C19: what the nodes of a tree say about themselves, in visiting order.  *)
Tells(n) ==
  LET k == KindOf(n) IN
  [iv |-> k = "value", ie |-> k \notin {"value", "id", "ref", "op"}, v |-> IF k = "value" THEN n ELSE [t |-> "none"]]
JudgeNodes(e) ==
  LET d == Read(e.s) IN
  IF ~d.ok THEN "skip: not in the language"
  ELSE IF e.r # "ok" THEN "nodes fail: " \o e.r
  ELSE IF ~e.same THEN "tree changed by asking"
  ELSE LET ns == AllNodes(d.v) IN
       IF e.nodes = [i \in 1..Len(ns) |-> Tells(ns[i].node)] THEN "ok"
       ELSE IF Len(e.nodes) # Len(ns) THEN "other nodes"
       ELSE LET i == CHOOSE i \in 1..Len(ns) : e.nodes[i] # Tells(ns[i].node) IN
            IF e.nodes[i].iv # Tells(ns[i].node).iv THEN "IsValue of a " \o ns[i].node.t
            ELSE IF e.nodes[i].ie # Tells(ns[i].node).ie THEN "IsExpression of a " \o ns[i].node.t
            ELSE "another value of a " \o ns[i].node.t
OnNodes == IsEvent("nodes") /\ Report(JudgeNodes(Event))

TraceNext == OnNodes \/ OnVisit \/ OnGated \/ OnCall
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
