---------------------------- MODULE MQScaleTrace ----------------------------
(***************************************************************************)
(* What the real code did with members of the families.                    *)
(***************************************************************************)
EXTENDS MQScale, MQTraceBase

(* A member may be refused only if it is larger than anyone would write.   *)
AlwaysAccepted == 1000
Accepts(e, m) ==
  CASE e.op \in {"print", "visit", "join"} -> m.ok.parse
    [] e.op = "gorm" -> m.ok.gorm
    [] e.op = "sql" -> m.ok.sql
    [] e.op = "ql" -> m.ok.ql
(* The operand of a range may be written for each bound, as long as that   *)
(* comes to an end.                                                        *)
InRanges == {"tested", "within"}
Complete(e, m) ==
  CASE e.op = "print" -> e.size = m.size /\ e.height = m.height /\ e.longest = m.longest
    [] e.op = "join" -> e.leaves = e.copies * m.leaves + e.copies - 1
    [] e.op = "visit" -> e.leaves = m.leaves
    [] e.op = "gorm" -> e.args = m.lits /\ e.places = m.lits /\ e.text = m.text
    [] e.op = "sql" -> (e.args \in {m.lits, m.written} \/ (e.f \in InRanges /\ e.args >= m.lits)) /\ e.places = e.args /\ e.text = m.text
    [] e.op = "ql" -> e.args = m.lits /\ e.text = m.text
JudgeSize(e) ==
  LET m == Measure(e.f, e.n) IN
  IF e.r \notin {"ok", "err"} THEN e.op \o ": " \o e.r
  ELSE IF e.r = "ok" /\ ~Accepts(e, m) THEN e.op \o ": accepted"
  ELSE IF e.r = "ok" /\ ~Complete(e, m) THEN e.op \o ": incomplete"
  ELSE IF e.r = "err" /\ Accepts(e, m) /\ e.n <= AlwaysAccepted THEN e.op \o ": refused"
  ELSE "ok"
OnSize == IsEvent("size") /\ Report(JudgeSize(Event))

TraceNext == OnSize
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
