----------------------------- MODULE MQQlTrace -----------------------------
(***************************************************************************)
(* Recorded behaviour of the entql builder: predicates (ql), the rows ent  *)
(* selects for them (qlrows), lists of queries (qls).                      *)
(***************************************************************************)
EXTENDS MQQl, MQTraceBase

Tables == ndJsonDeserialize(IOEnv.TABLES)
Data == TLCEval([tb \in 1..Len(Tables) |->
          LET t == Tables[tb].items
              cols == [i \in 1..Len(t.columns) |-> T(t.columns[i])] IN
          [i \in 1..Len(t.rows) |->
             [p \in { <<cols[j]>> : j \in 1..Len(cols) } |-> t.rows[i][CHOOSE j \in 1..Len(cols) : <<cols[j]>> = p]]]])

Wrong == Reading(<<>>, "and")
None == [t |-> "none"]
Means(n, p, w) == Readable(p) /\ SameMeaning(ToX(n, w), QlX(p))

(* C14: the predicate means the same. *)
JudgeQl(e) ==
  LET d == Read(e.s) IN
  IF ~d.ok THEN "skip: not in the language"
  ELSE IF ~QlCondition(d.v) THEN "skip: not supported"
  ELSE IF e.r # "ok" THEN "not built: " \o e.r
  ELSE IF ~Readable(e.p) THEN "not a predicate over fields and values"
  ELSE IF Means(d.v, e.p, Plain) THEN "ok"
  ELSE IF HasNotBetween(d.v) /\ Means(d.v, e.p, Wrong) THEN "known:not-between"
  ELSE "predicate differs"
OnQl == IsEvent("ql") /\ Report(JudgeQl(Event))

JudgeQlRows(e) ==
  LET d == Read(e.s) IN
  IF ~d.ok THEN "gen: not in the language"
  ELSE IF ~QlCondition(d.v) \/ ~Evaluable(d.v) THEN "skip: not evaluable"
  ELSE IF e.r # "ok" THEN "no result: " \o e.r
  ELSE LET rows == Data[e.tb]
           g == { i \in 1..Len(rows) : \E j \in 1..Len(e.ids) : rows[i][<<T("id")>>].d = e.ids[j] }
           wanted(w) == { i \in 1..Len(rows) : Holds(ToX(d.v, w), rows[i]) } IN
       IF Cardinality(g) # Len(e.ids) THEN "rows repeated or unknown"
       ELSE IF g = wanted(Plain) THEN "ok"
       ELSE IF HasNotBetween(d.v) /\ g = wanted(Wrong) THEN "known:not-between"
       ELSE "other rows"
OnQlRows == IsEvent("qlrows") /\ Report(JudgeQlRows(Event))

(* C15: everything else is an error. *)
JudgeQlErr(e) ==
  LET d == Read(e.s) IN
  IF e.s = <<>> THEN IF e.r = "ok" /\ e.p = None THEN "ok" ELSE "empty query gives something: " \o e.r
  ELSE IF IsBlankText(e.s) THEN IF e.r \in {"ok", "err"} /\ e.p = None THEN "ok" ELSE "blank query gives something: " \o e.r
  ELSE IF d.ok /\ QlCondition(d.v) THEN
    IF e.r = "ok" /\ e.p # None THEN "ok" ELSE "supported query fails: " \o e.r
  ELSE IF e.r = "ok" THEN "unsupported query gives no error"
  ELSE IF e.r # "err" THEN "unsupported query fails: " \o e.r
  ELSE IF e.p # None THEN "predicate next to an error"
  ELSE "ok"
OnQlErr == IsEvent("qlerr") /\ Report(JudgeQlErr(Event))

(* Predicates of a list up to the first failing query. *)
RECURSIVE Failing(_,_)
Failing(qs, i) ==
  IF i > Len(qs) THEN 0
  ELSE LET d == Read(qs[i]) IN IF qs[i] # <<>> /\ ~(d.ok /\ QlCondition(d.v)) THEN i ELSE Failing(qs, i + 1)
JudgeQls(e) ==
  LET f == Failing(e.qs, 1)
      used == SelectSeq(IF f = 0 THEN e.qs ELSE SubSeq(e.qs, 1, f - 1), LAMBDA q : q # <<>>)
      means(q, p) == LET n == Read(q).v IN Means(n, p, Plain) \/ Means(n, p, Wrong) IN
  IF e.r \notin {"ok", "err"} THEN "list fails: " \o e.r
  ELSE IF f = 0 /\ e.r # "ok" THEN "valid list fails"
  ELSE IF f > 0 /\ e.r # "err" THEN "failing query not reported"
  ELSE IF Len(e.ps) < Len(used) THEN "query not applied"
  ELSE IF Len(e.ps) > Len(used) THEN "more applied than asked"
  ELSE IF \E i \in 1..Len(used) : ~means(used[i], e.ps[i]) THEN "other predicate or order"
  ELSE "ok"
OnQls == IsEvent("qls") /\ Report(JudgeQls(Event))

TraceNext == OnQl \/ OnQlRows \/ OnQlErr \/ OnQls
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
