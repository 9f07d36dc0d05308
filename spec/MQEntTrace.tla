----------------------------- MODULE MQEntTrace -----------------------------
(***************************************************************************)
(* Recorded behaviour of the ent SQL builder: conditions (bind, text), the *)
(* rows a real database returned (rows, edge) and repeated calls (calls).  *)
(***************************************************************************)
EXTENDS MQEnt, MQTraceBase

Tables == ndJsonDeserialize(IOEnv.TABLES)
Data == TLCEval([tb \in 1..Len(Tables) |-> [m \in DOMAIN Tables[tb] |->
          LET t == Tables[tb][m]
              cols == [i \in 1..Len(t.columns) |-> T(t.columns[i])] IN
          [i \in 1..Len(t.rows) |->
             [p \in { <<cols[j]>> : j \in 1..Len(cols) } |-> t.rows[i][CHOOSE j \in 1..Len(cols) : <<cols[j]>> = p]]]]])

(* The value of every placeholder number. *)
Bound(e) == IF e.d = "postgres" THEN [k \in (e.base + 1)..(e.base + Len(e.vs)) |-> e.vs[k - e.base]] ELSE e.vs
Base(e) == IF e.d = "postgres" THEN e.base ELSE 0
Numbered(ph, e) == ph = [i \in 1..Len(e.vs) |-> Base(e) + i]
(* Arguments of the condition among those around it. *)
Placed(e, vs) ==
  LET one == <<MkInt(T("1"))>>  two == <<MkInt(T("2"))>> IN
  CASE e.how \in {"join", "builder"} -> Copies(MkInt(T("7")), e.pre) \o vs
    [] e.how \in {"andfirst", "orfirst", "notor"} -> one \o vs
    [] e.how \in {"and", "or", "notand"} -> vs \o one
    [] e.how = "mixed" -> one \o vs \o two
    [] e.how = "pair" -> vs \o vs
    [] OTHER -> vs

Meant(e, n, w) == Around(e.how, e.pre, "i", "j", ToX(Columned(n), w))

(* C10: literals are bound, numbered and ordered; names are quoted. *)
JudgeBind(e) ==
  LET d == Read(e.s) IN
  IF ~d.ok \/ ~EntSupported(d.v, e.node) THEN "skip: not supported"
  ELSE IF HasOddName(d.v) THEN "skip: name without agreed words"
  ELSE IF e.r # "ok" THEN "not built: " \o e.r
  ELSE LET ts == Tokens(e.w, e.d)  vs == Bound(e)  ph == Placeholders(ts) IN
       IF \E i \in 1..Len(e.vs) : e.vs[i].t \in {"bad", "odd"} THEN "argument a driver does not accept"
       ELSE IF Foreign(ts, EmptyIn(d.v)) THEN "literal or foreign text in the condition"
       ELSE IF ~Numbered(ph, e) THEN "placeholders and arguments do not correspond"
       ELSE IF Unquoted(ts, e.d) THEN "name not quoted for the dialect"
       ELSE IF WrongNames(Columned(d.v), ts, {T("i"), T("j")}) THEN "other columns"
       ELSE IF (e.d # "postgres" \/ e.off) /\ (Casts(ts) # {} \/ \E i \in 1..Len(ts) : IsW(ts[i], S_cast)) THEN "cast not wanted"
       ELSE IF WrongCast(ts, vs) THEN "cast to another type"
       ELSE IF NotNull(e.vs) \in {NotNull(Placed(e, Literals(d.v))), NotNull(Placed(e, Written(d.v))), NotNull(Placed(e, WrittenOnce(d.v)))} THEN "ok"
       \* another order is fine if it means the same
       ELSE IF UsesEdge(d.v) \/ OddList(d.v) THEN "literals misplaced"
       ELSE LET q == ReadSql(ts, e.d, vs) IN
            IF q.ok /\ (SameMeaning(Meant(e, d.v, Plain), q.x) \/ (HasNotBetween(d.v) /\ \E w \in Mistaken : SameMeaning(Meant(e, d.v, w), q.x)))
            THEN "ok"
            ELSE "literals misplaced"
OnBind == IsEvent("bind") /\ Report(JudgeBind(Event))

(* C11: the condition is the query, also next to other conditions. *)
JudgeText(e) ==
  LET d == Read(e.s) IN
  IF ~d.ok \/ ~EntSupported(d.v, e.node) THEN "skip: not supported"
  ELSE IF HasOddName(d.v) THEN "skip: name without agreed words"
  ELSE IF UsesEdge(d.v) \/ OddList(d.v) THEN "skip: not read"
  ELSE IF e.r # "ok" THEN "not built: " \o e.r
  ELSE LET q == ReadSql(Tokens(e.w, e.d), e.d, Bound(e)) IN
       IF ~q.ok THEN "condition not readable"
       ELSE IF SameMeaning(Meant(e, d.v, Plain), q.x) THEN "ok"
       ELSE IF HasNotBetween(d.v) /\ (\E w \in Mistaken : SameMeaning(Meant(e, d.v, w), q.x)) THEN "known:not-between"
       ELSE "condition differs"
OnText == IsEvent("text") /\ Report(JudgeText(Event))

(* C11, C12: the rows for which the query is true. *)
Got(e, m) == LET rows == Data[e.tb][m] IN { i \in 1..Len(rows) : \E j \in 1..Len(e.ids) : rows[i][Id].d = e.ids[j] }
JudgeRowsOf(e, m, one, two) ==
  LET d == Read(e.s) IN
  IF ~d.ok THEN "gen: not in the language"
  ELSE IF ~EntSupported(d.v, e.node) THEN IF e.r = "err" /\ e.ids = <<>> THEN "ok" ELSE "unsupported query not reported: " \o e.r
  ELSE IF HasOddName(d.v) THEN "gen: name without agreed words"
  ELSE LET n == Columned(d.v)
           meant(w) == Around(e.how, e.pre, one, two, ToX(n, w)) IN
       IF Missing(ToX(n, Plain), m) THEN 
         IF e.r \in {"err", "db"} /\ e.ids = <<>> THEN "ok"
         ELSE IF e.r = "ok" /\ Caught(ToX(n, Plain), m, FALSE, {}) THEN "known:outer-alias"
         ELSE "unknown column not reported: " \o e.r
       ELSE IF e.r # "ok" THEN "no result: " \o e.r
       ELSE LET g == Got(e, m) IN
            IF Cardinality(g) # Len(e.ids) THEN "rows repeated or unknown"
            ELSE IF g = RowsWhere(meant(Plain), Data[e.tb], m) THEN "ok"
            ELSE IF HasNotBetween(n) /\ (\E w \in Mistaken : g = RowsWhere(meant(w), Data[e.tb], m)) THEN "known:not-between"
            ELSE "other rows"
OnRows == IsEvent("rows") /\ Report(JudgeRowsOf(Event, "items", "i", "j"))
OnEdge == IsEvent("edge") /\ Report(JudgeRowsOf(Event, Event.node, "id", "id"))

(* C13: errors are reported and leave nothing; every answer is the same.   *)
Relative(o) ==
  LET ts == Tokens(o.w, o.d)
      b == IF o.d = "postgres" THEN o.base ELSE 0 IN
  [i \in 1..Len(ts) |-> IF ts[i].k = "ph" THEN Ph(ts[i].i - b) ELSE ts[i]]
BoundIn(o) == IF o.d = "postgres" THEN [k \in (o.base + 1)..(o.base + Len(o.vs)) |-> o.vs[k - o.base]] ELSE o.vs
(* Every single answer is the condition, in the form of its own dialect.   *)
Answers(n, o) ==
  LET ts == Tokens(o.w, o.d) IN
  /\ Placeholders(ts) = [i \in 1..Len(o.vs) |-> (IF o.d = "postgres" THEN o.base ELSE 0) + i]
  /\ ~Unquoted(ts, o.d)
  /\ ~WrongCast(ts, BoundIn(o))
  /\ ~WrongNames(Columned(n), ts, {})
  /\ UsesEdge(n) \/ OddList(n) \/
     LET q == ReadSql(ts, o.d, BoundIn(o))
         x(w) == ToX(Columned(n), w) IN
     q.ok /\ (SameMeaning(x(Plain), q.x) \/ (HasNotBetween(n) /\ \E w \in Mistaken : SameMeaning(x(w), q.x)))
JudgeCalls(e) ==
  LET d == Read(e.s)
      ok == d.ok /\ EntSupported(d.v, e.node)
      o == e.outs IN
  IF \E i \in 1..Len(o) : o[i].r \notin {"ok", "err"} THEN "builder failed: " \o o[CHOOSE i \in 1..Len(o) : o[i].r \notin {"ok", "err"}].r
  ELSE IF ~ok THEN
    IF \E i \in 1..Len(o) : o[i].r # "err" THEN "error not reported"
    ELSE IF \E i \in 1..Len(o) : o[i].how # "alone" /\ ~o[i].st THEN "error not reported by the statement"
    ELSE IF \E i \in 1..Len(o) : o[i].w # <<>> \/ o[i].vs # <<>> THEN "condition after an error"
    ELSE "ok"
  ELSE IF \E i \in 1..Len(o) : o[i].r # "ok" THEN "supported query not built"
  ELSE IF \E i \in 1..Len(o) : o[i].st THEN "error of the statement"
  ELSE IF \E i \in 1..Len(o) : o[i].w = <<>> THEN "no condition"
  ELSE IF \E i \in 1..Len(o) : \E j \in 1..(i - 1) : o[i].vs # o[j].vs THEN "other arguments"
  ELSE IF \E i \in 1..Len(o) : \E j \in 1..(i - 1) : o[i].d = o[j].d /\ Relative(o[i]) # Relative(o[j]) THEN "another condition"
  ELSE IF ~HasOddName(d.v) /\ \E i \in 1..Len(o) : ~Answers(d.v, o[i]) THEN "not the condition"
  ELSE "ok"
OnCalls == IsEvent("calls") /\ Report(JudgeCalls(Event))

TraceNext == OnBind \/ OnText \/ OnRows \/ OnEdge \/ OnCalls
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
