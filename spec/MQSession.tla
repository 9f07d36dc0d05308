----------------------------- MODULE MQSession -----------------------------
(***************************************************************************)
(* Histories of a gorm session.  Every step makes a new handle out of an   *)
(* earlier one; handle i is the result of step i.  A handle is what the    *)
(* user holds: the conditions given so far and whether one of the queries  *)
(* was wrong.                                                              *)
(*                                                                         *)
(*   open  m c       a fresh statement of model m; c = "none": on its      *)
(*                   table, the model is known only when it runs; c =      *)
(*                   "bad": with something that is no model                *)
(*   fork  h         a handle that may be used again and again (Session)   *)
(*   query h via qs  queries applied: one by one as scopes ("apply"), as a *)
(*                   list in one scope ("scope"), or at once ("wire", or   *)
(*                   the scopes called: "call", "direct")                  *)
(*   group h qs      conditions of another statement the queries were      *)
(*                   applied to                                            *)
(*   where h c       one of the conditions below given directly            *)
(*   other h c       something that is no condition: an order, a join      *)
(*   end   h c       the statement runs: find, first, count, pluck, update *)
(*                   or delete                                             *)
(*                                                                         *)
(* A handle that is no fork is used once.  Conditions only ever add up, so *)
(* the rows of a handle are those for which all its conditions hold, and   *)
(* none at all once a query is wrong.                                      *)
(***************************************************************************)
EXTENDS MQSchema

(* Conditions given directly, as the query that means the same. *)
DirectItems == [
  raw |-> "i = 1 or j = 2", and |-> "i is not null and j is not null", map |-> "i = 1", not |-> "not i = 1",
  group |-> "i = 1 or s = 'b'", in |-> "j in [1, 2]", struct |-> "i = 1", false |-> "1 = 2", clause |-> "i = 1 or i is null" ]
DirectPersons == [
  raw |-> "id = 1 or dept_id = 2", and |-> "id is not null and dept_id is not null", map |-> "dept_id = 1", not |-> "not id = 1",
  group |-> "id = 1 or id = 2", in |-> "id in [1, 2, 3]", struct |-> "dept_id = 1", false |-> "1 = 2",
  clause |-> "dept_id = 1 or dept_id is null" ]
Direct == TLCEval([m \in {"items", "notes", "persons"} |->
  LET d == IF m = "persons" THEN DirectPersons ELSE DirectItems IN
  [c \in DOMAIN d |-> ToX(Resolve(m, Read(T(d[c])).v), Plain)]])

Blank(s) == \A i \in 1..Len(s) : s[i] \in {9, 10, 13, 32}

(* What a query says about a model: nothing, an error, or a condition.     *)
(* In a list blank queries say nothing; alone, only the empty one does.    *)
Nothing == [t |-> "nothing"]
Wrong == [t |-> "wrong"]
Says(m, s, blank) ==
  IF s = <<>> \/ (blank /\ Blank(s)) THEN Nothing
  ELSE LET d == Read(s) IN
       IF ~d.ok \/ ~Known(m, d.v) THEN Wrong
       ELSE LET n == Resolve(m, d.v) IN
            [t |-> "cond", x |-> ToX(n, Plain), y |-> ToX(n, NullList), joins |-> UsesRelation(n)]

(* A few queries of every kind, and what they say, worked out once. *)
SmallItems == << "i = 1 or j = 1", "not i = 2", "1 = 1 or 1 = 1", "i = ", "i = 1) or (1 = 1", "nope = 1", "" >>
SmallPersons == << "id = 1 or dept_id = 1", "Dept.name = 'name-d1'", "not Boss.id = 1 or id > 3", "id = ", "id = 1) or (1 = 1",
                   "nope = 1", "" >>
Small(m) == LET q == IF m = "persons" THEN SmallPersons ELSE SmallItems IN [k \in 1..Len(q) |-> T(q[k])]
SmallTable == TLCEval([m \in {"items", "notes", "persons"} |->
  [s \in { Small(m)[k] : k \in 1..Len(Small(m)) } |-> [b \in BOOLEAN |-> Says(m, s, b)]]])
SaysQuick(m, s, blank) == IF s \in DOMAIN SmallTable[m] THEN SmallTable[m][s][blank] ELSE Says(m, s, blank)

(* ------------------------------- handles ------------------------------- *)
(* conds: conditions in two readings, see MQSem.  shared: made by fork.    *)
(* used: may not be used again.  joins: a relation is joined.  vague: a    *)
(* query was given without a model, it may be refused.                     *)
Fresh(m, c) == [m |-> m, conds |-> <<>>, wrong |-> c = "bad", shared |-> FALSE, used |-> FALSE, joins |-> FALSE,
                modeless |-> c = "none", vague |-> FALSE]
Dead == [Fresh("items", "") EXCEPT !.used = TRUE]

AddSaid(h, said) ==
  CASE said.t = "nothing" -> h
    [] said.t = "wrong" -> [h EXCEPT !.wrong = TRUE]
    [] said.t = "cond" -> [h EXCEPT !.conds = Append(@, <<said.x, said.y>>), !.joins = @ \/ said.joins, !.vague = @ \/ h.modeless]
RECURSIVE AddAll(_,_,_)
AddAll(h, qs, blank) ==
  IF qs = <<>> THEN h ELSE AddAll(TLCEval(AddSaid(h, SaysQuick(h.m, Head(qs), blank))), Tail(qs), blank)

(* The handle a step makes of handle h. *)
Made(h, st) ==
  LET n == [h EXCEPT !.shared = FALSE, !.used = FALSE] IN
  CASE st.op = "fork" -> [n EXCEPT !.shared = TRUE]
    [] st.op = "query" -> AddAll(n, st.qs, st.via \in {"scope", "direct"})
    [] st.op = "group" -> AddAll(n, st.qs, FALSE)
    [] st.op = "where" -> LET x == Direct[h.m][st.c] IN [n EXCEPT !.conds = Append(@, <<x, x>>)]
    [] st.op = "other" -> [n EXCEPT !.joins = @ \/ st.c = "join"]
    [] st.op = "end" -> Dead

(* The handles after one more step. *)
Step(hs, st) ==
  IF st.op = "open" THEN Append(hs, Fresh(st.m, st.c))
  ELSE LET h == hs[st.h] IN
       Append(IF h.shared THEN hs ELSE [hs EXCEPT ![st.h].used = TRUE], Made(h, st))

MayUse(hs, h) == h \in 1..Len(hs) /\ ~hs[h].used

(* ------------------------------- outcome ------------------------------- *)
(* env: model -> rows.  The rows a handle stands for, in one reading.      *)
Alive(m, env) == IF m \in Kept THEN env[<<T("deleted_at")>>].t = "null" ELSE TRUE
RowsOf(h, env, reading) ==
  { i \in 1..Len(env) : Alive(h.m, env[i]) /\ \A j \in 1..Len(h.conds) : Holds(h.conds[j][reading], env[i]) }

Changes(c) == c \in {"update", "delete"}
Least(S) == CHOOSE a \in S : \A b \in S : a <= b

(* An outcome: err, the rows returned or changed, and their number.        *)
Allowed(h, c, env, out) ==
  IF h.wrong THEN out.err /\ out.rows = {} /\ out.n = 0
  ELSE IF Changes(c) /\ h.conds = <<>> THEN out.err /\ out.rows = {} /\ out.n = 0
  ELSE LET fits(rows) ==
             CASE c = "count" -> ~out.err /\ out.n = Cardinality(rows) /\ out.rows = {}
               [] c = "first" -> IF rows = {} THEN out.err /\ out.rows = {}
                                 ELSE ~out.err /\ Cardinality(out.rows) = 1 /\ out.rows \subseteq rows
               [] OTHER -> ~out.err /\ out.rows = rows /\ out.n = Cardinality(rows) IN
       \/ h.vague /\ out.err /\ out.rows = {} /\ out.n = 0
       \/ Changes(c) /\ h.joins /\ out.err /\ out.rows = {} /\ out.n = 0
       \/ \E r \in {1, 2} : fits(RowsOf(h, env, r))
=============================================================================
