---------------------------- MODULE MQGormTrace ----------------------------
(***************************************************************************)
(* Recorded statements of the gorm adapter: generated conditions (cond)    *)
(* and the rows a real database returned for them (rows).                  *)
(***************************************************************************)
EXTENDS MQSql, MQSchema, MQTraceBase

Tables == ndJsonDeserialize(IOEnv.TABLES)
Envs == TLCEval([tb \in 1..Len(Tables) |-> [m \in DOMAIN Tables[tb] |->
          [i \in 1..Len(Tables[tb][m].rows) |-> RowEnv(Tables[tb], m, Tables[tb][m].rows[i])]]])
Ids == TLCEval([tb \in 1..Len(Tables) |-> [m \in DOMAIN Tables[tb] |->
          [i \in 1..Len(Tables[tb][m].rows) |-> IdOf(m, Tables[tb][m].rows[i]).d]]])

(* SQL paths of own columns may carry the table name. *)
RECURSIVE OwnCols(_,_)
OwnCols(x, table) ==
  LET all(a) == [i \in 1..Len(a) |-> OwnCols(a[i], table)] IN
  CASE x.t = "col" -> IF Len(x.p) = 2 /\ x.p[1] = table THEN XCol(<<x.p[2]>>) ELSE x
    [] x.t \in {"list", "and", "or"} -> [x EXCEPT !.a = all(@)]
    [] x.t = "fn" -> [x EXCEPT !.p = all(@)]
    [] x.t = "op" -> [x EXCEPT !.l = OwnCols(@, table), !.r = OwnCols(@, table)]
    [] x.t = "is" -> [x EXCEPT !.l = OwnCols(@, table)]
    [] x.t = "not" -> [x EXCEPT !.e = OwnCols(@, table)]
    [] OTHER -> x

(* gorm itself asks for rows that are not deleted. *)
Seen(m, x) == IF m \in Kept THEN XTwo("and", x, XIs("null", XCol(<<T("deleted_at")>>))) ELSE x

(* C06: literals are bound, and nothing else of the query is in the text.  *)
JudgeCond(e) ==
  LET d == Read(e.s) IN
  IF ~d.ok THEN "skip: not in the language"
  ELSE IF ~Known(e.m, d.v) \/ Ambiguous(e.m, d.v) THEN "skip: not supported"
  ELSE IF e.r # "ok" THEN "not built: " \o e.r
  ELSE LET ts == Tokens(e.w, e.d)
           lits == Literals(d.v)
           ph == Placeholders(ts) IN
       IF InlineLiteral(ts) THEN "literal or foreign text in the condition"
       ELSE IF Len(ph) # Len(e.vs) \/ (\E i \in 1..Len(ph) : ph[i] \notin 1..Len(e.vs)) THEN "placeholders without value"
       ELSE IF OddList(d.v) THEN IF e.vs = lits THEN "ok" ELSE "skip: list outside of IN"
       ELSE IF Len(e.vs) # Len(lits) THEN "literals not bound exactly once"
       ELSE LET q == ReadSql(ts, e.d, e.vs)
                n == Resolve(e.m, d.v) IN
            IF ~q.ok THEN "condition not readable"
            ELSE LET x == OwnCols(q.x, Models[e.m].table) IN
                 IF SameMeaning(Seen(e.m, ToX(n, NullList)), x) \/ SameMeaning(Seen(e.m, ToX(n, Plain)), x) THEN "ok"
                 ELSE IF [i \in 1..Len(ph) |-> e.vs[ph[i]]] = lits THEN "condition differs"
                 ELSE "literals misplaced"
OnCond == IsEvent("cond") /\ Report(JudgeCond(Event))

(* C08: names are checked before the database is asked.                    *)
JudgeNames(e) ==
  LET d == Read(e.s) IN
  IF ~d.ok THEN "skip: not in the language"
  ELSE IF ~Known(e.m, d.v) THEN IF e.r = "err" THEN "ok" ELSE "unknown name not reported: " \o e.r
  ELSE IF BindsMore(e.m, d.v) /\ ~Ambiguous(e.m, d.v) THEN IF e.r = "ok" THEN "ok" ELSE "not built: " \o e.r
  ELSE JudgeCond(e)
OnNames == IsEvent("names") /\ Report(JudgeNames(Event))

(* C07, C08: the rows for which the query is true. *)
Wanted(e, n, w) ==
  LET x == ToX(n, w)  env == Envs[e.tb][e.m] IN { i \in 1..Len(env) : (e.how = "unscoped" \/ ~Gone(e.m, Tables[e.tb][e.m].rows[i])) /\ Holds(x, env[i]) }
Got(e) == { i \in 1..Len(Ids[e.tb][e.m]) : \E j \in 1..Len(e.ids) : Ids[e.tb][e.m][i] = e.ids[j] }
JudgeRows(e) ==
  LET d == Read(e.s) IN
  IF ~d.ok THEN "gen: not in the language"
  ELSE IF ~Known(e.m, d.v) THEN IF e.r = "err" /\ e.ids = <<>> THEN "ok" ELSE "unknown name not reported: " \o e.r
  ELSE IF Ambiguous(e.m, d.v) THEN "skip: name with two meanings"
  ELSE IF e.r # "ok" THEN "no result: " \o e.r
  ELSE LET n == Resolve(e.m, d.v)  g == Got(e) IN
       IF Cardinality(g) # Len(e.ids) THEN "rows repeated or unknown"
       ELSE IF g = Wanted(e, n, Plain) \/ g = Wanted(e, n, NullList) THEN "ok"
       ELSE "other rows"
OnRows == IsEvent("rows") /\ Report(JudgeRows(Event))

TraceNext == OnCond \/ OnNames \/ OnRows
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
