------------------------------ MODULE MQEdges ------------------------------
(***************************************************************************)
(* The schema graph the ent adapters are driven with (harness/cmd/mqent)   *)
(* and what a relation test means on a content of its tables.              *)
(*                                                                         *)
(* An edge leads to the related rows in one of three ways:                 *)
(*   own   c      the row itself holds the id of the related row in c      *)
(*   other c      related rows hold the id of the row in c                 *)
(*   join  t a b  rows of table t pair the id of the row in a with the id  *)
(*                of a related row in b                                    *)
(*                                                                         *)
(* The key of a row is its id, that of a town is its code.                 *)
(*                                                                         *)
(* A table can be in a schema of its own; that changes no row.             *)
(*                                                                         *)
(* Table logs has no id, so edges from and to it lead nowhere and are none *)
(* for the specification.                                                  *)
(***************************************************************************)
EXTENDS MQSem

Own(n, to, c) == [n |-> T(n), to |-> to, by |-> "own", c |-> T(c)]
Other(n, to, c) == [n |-> T(n), to |-> to, by |-> "other", c |-> T(c)]
Through(n, to, t, a, b) == [n |-> T(n), to |-> to, by |-> "join", t |-> t, a |-> T(a), b |-> T(b)]

Graph == [
  users |-> [cols |-> {T("id"), T("name"), T("age"), T("dept_id"), T("boss_id"), T("town_code")},
    edges |-> << Own("dept", "depts", "dept_id"), Other("staff", "users", "boss_id"), Own("boss", "users", "boss_id"),
                 Through("groups", "groups", "user_groups", "user_id", "group_id"),
                 Through("friends", "users", "friends", "a_id", "b_id"), Through("fans", "users", "friends", "b_id", "a_id"),
                 Other("cars", "cars", "owner_id"), Other("card", "cards", "user_id"), Other("leads", "depts", "lead_id"),
                 Own("Boss", "depts", "dept_id"), Through("bestFriends", "users", "friends", "a_id", "b_id"),
                 Other("car2", "cars", "owner_id"), Through("Other_Groups", "groups", "user_groups", "user_id", "group_id"),
                 Own("town", "towns", "town_code"), Through("visited", "towns", "visits", "user_id", "town_code"),
                 Other("rules", "towns", "mayor_id") >>],
  towns |-> [cols |-> {T("id"), T("code"), T("name"), T("age"), T("mayor_id"), T("near_code")},
    edges |-> << Other("users", "users", "town_code"), Through("visitors", "users", "visits", "town_code", "user_id"),
                 Own("mayor", "users", "mayor_id"), Own("near", "towns", "near_code"), Other("nears", "towns", "near_code"),
                 Through("roads", "towns", "roads", "a_code", "b_code") >>],
  depts |-> [cols |-> {T("id"), T("name"), T("size"), T("lead_id")},
    edges |-> << Other("users", "users", "dept_id"), Own("lead", "users", "lead_id") >>],
  groups |-> [cols |-> {T("id"), T("name"), T("age")},
    edges |-> << Through("users", "users", "user_groups", "group_id", "user_id") >>],
  cars |-> [cols |-> {T("id"), T("name"), T("age"), T("owner_id")}, edges |-> << Own("owner", "users", "owner_id") >>],
  cards |-> [cols |-> {T("id"), T("name"), T("size"), T("user_id")}, edges |-> << Own("user", "users", "user_id") >>],
  items |-> [cols |-> {T("id"), T("i"), T("j"), T("s"), T("t"), T("b"), T("c"), T("d")}, edges |-> <<>>] ]

(* The edge of that name on a table; "" is no table. *)
EdgesNamed(m, n) ==
  IF m \notin DOMAIN Graph THEN {}
  ELSE { Graph[m].edges[i] : i \in { i \in 1..Len(Graph[m].edges) : Graph[m].edges[i].n = n } }
EdgeOf(m, n) == CHOOSE e \in EdgesNamed(m, n) : TRUE

(* ------------------------------- related rows -------------------------- *)
(* data: table -> sequence of rows, a row maps <<column>> to its value.    *)
Id == <<T("id")>>
KeyOf(m, row) == IF m = "towns" THEN row[<<T("code")>>] ELSE row[Id]
SameKey(a, b) == a.t # "null" /\ a = b
RelatedRows(data, m, i, e) ==
  LET row == data[m][i]  to == data[e.to] IN
  { k \in 1..Len(to) :
      CASE e.by = "own" -> SameKey(row[<<e.c>>], KeyOf(e.to, to[k]))
        [] e.by = "other" -> SameKey(KeyOf(m, row), to[k][<<e.c>>])
        [] e.by = "join" -> \E j \in 1..Len(data[e.t]) :
             SameKey(KeyOf(m, row), data[e.t][j][<<e.a>>]) /\ SameKey(KeyOf(e.to, to[k]), data[e.t][j][<<e.b>>]) }

(* The expression with every relation test decided for row i of table m.   *)
RECURSIVE Ground(_,_,_,_)
Ground(x, data, m, i) ==
  LET g(y) == Ground(y, data, m, i)
      all(a) == [k \in 1..Len(a) |-> g(a[k])] IN
  CASE x.t = "edge" ->
         LET e == EdgeOf(m, x.n)
             ok == \E k \in RelatedRows(data, m, i, e) :
                     x.p = <<>> \/ Holds(Ground(x.p[1], data, e.to, k), data[e.to][k]) IN
         IF ok THEN XTrue ELSE XFalse
    [] x.t \in {"list", "and", "or"} -> [x EXCEPT !.a = all(@)]
    [] x.t = "fn" -> [x EXCEPT !.p = all(@)]
    [] x.t = "op" -> [x EXCEPT !.l = g(@), !.r = g(@)]
    [] x.t = "is" -> [x EXCEPT !.l = g(@)]
    [] x.t = "not" -> [x EXCEPT !.e = g(@)]
    [] OTHER -> x

(* The rows of table m for which an expression is true. *)
RowsWhere(x, data, m) == { i \in 1..Len(data[m]) : Holds(Ground(x, data, m, i), data[m][i]) }

(* Columns the tables at hand do not have. *)
RECURSIVE Missing(_,_)
Missing(x, m) ==
  CASE x.t = "col" -> ~(Len(x.p) = 1 /\ x.p[1] \in Graph[m].cols)
    [] x.t = "edge" -> \E i \in 1..Len(x.p) : Missing(x.p[i], EdgeOf(m, x.n).to)
    [] x.t \in {"list", "and", "or"} -> \E i \in 1..Len(x.a) : Missing(x.a[i], m)
    [] x.t = "fn" -> \E i \in 1..Len(x.p) : Missing(x.p[i], m)
    [] x.t = "op" -> Missing(x.l, m) \/ Missing(x.r, m)
    [] x.t = "is" -> Missing(x.l, m)
    [] x.t = "not" -> Missing(x.e, m)
    [] OTHER -> FALSE
(* Missing columns that an enclosing table catches: ent calls the related  *)
(* table t1 in every test through a join table.  j: the rows at hand are   *)
(* those of such a test, out: columns of the enclosing ones.               *)
RECURSIVE Caught(_,_,_,_)
Caught(x, m, j, out) ==
  CASE x.t = "col" -> x.p[1] \in Graph[m].cols \/ (j /\ x.p[1] \in out)
    [] x.t = "edge" -> LET e == EdgeOf(m, x.n) IN
         \A i \in 1..Len(x.p) : Caught(x.p[i], e.to, e.by = "join", IF j THEN out \cup Graph[m].cols ELSE out)
    [] x.t \in {"list", "and", "or"} -> \A i \in 1..Len(x.a) : Caught(x.a[i], m, j, out)
    [] x.t = "fn" -> \A i \in 1..Len(x.p) : Caught(x.p[i], m, j, out)
    [] x.t = "op" -> Caught(x.l, m, j, out) /\ Caught(x.r, m, j, out)
    [] x.t = "is" -> Caught(x.l, m, j, out)
    [] x.t = "not" -> Caught(x.e, m, j, out)
    [] OTHER -> TRUE
=============================================================================
