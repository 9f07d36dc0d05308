--------------------------- MODULE MQSessionTrace ---------------------------
(***************************************************************************)
(* Recorded histories of gorm sessions: every statement that ran gave an   *)
(* outcome the history allows.                                             *)
(***************************************************************************)
EXTENDS MQSession, MQTraceBase

Tables == ndJsonDeserialize(IOEnv.TABLES)
Envs == TLCEval([tb \in 1..Len(Tables) |-> [m \in DOMAIN Tables[tb] |->
          [i \in 1..Len(Tables[tb][m].rows) |-> RowEnv(Tables[tb], m, Tables[tb][m].rows[i])]]])
Ids == TLCEval([tb \in 1..Len(Tables) |-> [m \in DOMAIN Tables[tb] |->
          [i \in 1..Len(Tables[tb][m].rows) |-> IdOf(m, Tables[tb][m].rows[i]).d]]])

(* The outcome as the specification sees it; rows that do not exist or     *)
(* came twice are reported before.                                         *)
Rows(e, m, o) == { i \in 1..Len(Ids[e.tb][m]) : \E j \in 1..Len(o.ids) : Ids[e.tb][m][i] = o.ids[j] }
Outcome(e, m, o) == [err |-> o.err, rows |-> Rows(e, m, o), n |-> o.n]

Only(S) == CHOOSE x \in S : TRUE
RECURSIVE Judge(_,_,_)
Judge(e, hs, i) ==
  IF i > Len(e.steps) THEN "ok"
  ELSE LET st == e.steps[i]  o == e.outs[i] IN
    IF st.op # "open" /\ ~MayUse(hs, st.h) THEN "gen: handle used twice"
    ELSE IF o.panic THEN "panic"
    ELSE IF st.op = "group" /\ Made(Fresh(hs[st.h].m, ""), st).wrong THEN "gen: wrong query in a group"
    ELSE IF st.op = "end" /\ Cardinality(Rows(e, hs[st.h].m, o)) # Len(o.ids) THEN "rows repeated or unknown"
    ELSE IF st.op = "end" /\ ~Allowed(hs[st.h], st.c, Envs[e.tb][hs[st.h].m], Outcome(e, hs[st.h].m, o))
    THEN (IF hs[st.h].wrong THEN "wrong query, " ELSE "") \o st.c \o
         (IF o.err THEN " gives an error" ELSE " has another result than the conditions")
    ELSE Only({ Judge(e, next, i + 1) : next \in {Step(hs, st)} })     \* evaluates Step once
OnSession == IsEvent("session") /\ Report(Judge(Event, <<>>, 1))

TraceNext == OnSession
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
