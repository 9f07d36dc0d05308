------------------------------- MODULE MQSem -------------------------------
(***************************************************************************)
(* What a query means.  Trees, SQL conditions and entql predicates are all *)
(* brought into one expression form, whose value over a row is defined by  *)
(* three-valued logic.  Two expressions mean the same if they have the     *)
(* same value whatever their atoms are.                                    *)
(*                                                                         *)
(* Expressions, after the rewriting done by the constructors X...:         *)
(*   col p        column, p a path of names (<<column>> or <<rel, column>>)*)
(*   val v        literal                                                  *)
(*   list a       list outside of a membership test                        *)
(*   op o l r     o one of eq, lt, like; the other comparisons are written *)
(*                with them: a >= b is NOT a < b, and so on                *)
(*   and a, or a  flattened; the empty AND is true, the empty OR is false  *)
(*   not e        e is no negation itself                                  *)
(*   is o l       o one of null, true, false                               *)
(*   fn n p       function call                                            *)
(*   edge n p     relation test with inner condition (<<>> or <<x>>)       *)
(* Membership is the OR of its equalities, a range the AND of its bounds.  *)
(***************************************************************************)
EXTENDS MQTree, TLC

(* ------------------------------ constructors --------------------------- *)
XCol(p) == [t |-> "col", p |-> p]
XVal(v) == [t |-> "val", v |-> v]
XList(a) == [t |-> "list", a |-> a]
XFn(n, p) == [t |-> "fn", n |-> n, p |-> p]
XEdge(n, p) == [t |-> "edge", n |-> n, p |-> p]
XOp(o, l, r) == [t |-> "op", o |-> o, l |-> l, r |-> r]
XNot(e) == IF e.t = "not" THEN e.e ELSE [t |-> "not", e |-> e]
XIs(o, l) == [t |-> "is", o |-> o, l |-> l]
XMany(t, a) == [t |-> t, a |-> a]
XTwo(t, l, r) ==
  XMany(t, (IF l.t = t THEN l.a ELSE <<l>>) \o (IF r.t = t THEN r.a ELSE <<r>>))
XTrue == XMany("and", <<>>)
XFalse == XMany("or", <<>>)

RECURSIVE XInFrom(_,_,_)
XInFrom(l, xs, i) ==
  IF i > Len(xs) THEN XFalse
  ELSE IF i = Len(xs) THEN XOp("eq", l, xs[i])
  ELSE XTwo("or", XOp("eq", l, xs[i]), XInFrom(l, xs, i + 1))
XIn(l, xs) == XInFrom(l, xs, 1)

XCompare(o, l, r) ==
  CASE o = "eq" -> XOp("eq", l, r)
    [] o = "neq" -> XNot(XOp("eq", l, r))
    [] o = "lt" -> XOp("lt", l, r)
    [] o = "gt" -> XOp("lt", r, l)
    [] o = "lte" -> XNot(XOp("lt", r, l))
    [] o = "gte" -> XNot(XOp("lt", l, r))
    [] o = "like" -> XOp("like", l, r)
    [] o = "not like" -> XNot(XOp("like", l, r))
XBetween(l, lo, hi) == XTwo("and", XCompare("gte", l, lo), XCompare("lte", l, hi))
XMatch(o, l) ==
  CASE o = "is null" -> XIs("null", l)
    [] o = "is true" -> XIs("true", l)
    [] o = "is false" -> XIs("false", l)
    [] o = "is not null" -> XNot(XIs("null", l))
    [] o = "is not true" -> XNot(XIs("true", l))
    [] o = "is not false" -> XNot(XIs("false", l))

(* ------------------------------ from trees ----------------------------- *)
(* Choices a reading of a tree may depend on:                              *)
(*   empty   what an empty list in a membership test contains: nothing, or *)
(*           a single NULL, the form gorm gives it                         *)
(*   outside "or": x NOT BETWEEN lo AND hi is x < lo OR x > hi;            *)
(*           "and": it is x < lo AND x > hi, a known finding;              *)
(*           "some": that only where x is a name or a literal              *)
Reading(empty, outside) == [empty |-> empty, outside |-> outside]
Plain == Reading(<<>>, "or")
NullList == Reading(<<XVal(MkNull)>>, "or")

RECURSIVE ToX(_,_)
ToX(n, w) ==
  LET lst(a) == [i \in 1..Len(a) |-> XVal(a[i])] IN
  CASE n.t \in {"int", "str", "bool", "null"} -> XVal(n)
    [] n.t = "arr" -> IF Len(n.a) = 1 THEN XVal(n.a[1]) ELSE XList(IF n.a = <<>> THEN w.empty ELSE lst(n.a))
    [] n.t = "id" -> XCol(<<n.n>>)
    [] n.t = "ref" -> XCol(n.ns)
    [] n.t = "fn" ->
         IF n.n = W_hasedge /\ Len(n.p) \in 1..2 /\ n.p[1].t = "id"
         THEN XEdge(n.p[1].n, [i \in 1..(Len(n.p) - 1) |-> ToX(n.p[i + 1], w)])
         ELSE XFn(n.n, [i \in 1..Len(n.p) |-> ToX(n.p[i], w)])
    [] n.t = "cmp" /\ n.o \in {"in", "not in"} ->
         LET x == XIn(ToX(n.l, w), IF n.r.a = <<>> THEN w.empty ELSE lst(n.r.a)) IN
         IF n.o = "in" THEN x ELSE XNot(x)
    [] n.t = "cmp" -> XCompare(n.o, ToX(n.l, w), ToX(n.r, w))
    [] n.t = "log" -> XTwo(n.o, ToX(n.l, w), ToX(n.r, w))
    [] n.t = "prd" -> XMatch(n.o, ToX(n.l, w))
    [] n.t = "btw" ->
         LET l == ToX(n.l, w)  lo == ToX(n.lo, w)  hi == ToX(n.hi, w) IN
         IF n.o = "between" THEN XBetween(l, lo, hi)
         ELSE IF w.outside = "or" \/ (w.outside = "some" /\ n.l.t \in {"fn", "cmp", "log", "prd", "btw", "par", "not"}) THEN XNot(XBetween(l, lo, hi))
         ELSE XTwo("and", XCompare("lt", l, lo), XCompare("gt", l, hi))
    [] n.t = "par" -> ToX(n.e, w)
    [] n.t = "not" -> XNot(ToX(n.e, w))

(* Does a tree hold a node for which the readings above differ? *)
RECURSIVE HasNode(_,_,_)
HasNode(n, t, o) ==
  \/ n.t = t /\ (o = "" \/ n.o = o)
  \/ LET c == Children(n) IN \E i \in 1..Len(c) : HasNode(c[i], t, o)
HasNotBetween(n) == HasNode(n, "btw", "not between")

(* A list somewhere else than in a membership test. *)
RECURSIVE OddList(_)
OddList(n) ==
  CASE n.t = "arr" -> TRUE
    [] n.t = "cmp" /\ n.o \in {"in", "not in"} -> OddList(n.l)
    [] OTHER -> LET c == Children(n) IN \E i \in 1..Len(c) : OddList(c[i])

(* -------------------------------- values ------------------------------- *)
(* What a database holds: null, int d, str s.  Truth values are 0 and 1.   *)
VInt(d) == MkInt(d)
VBool(b) == MkInt(IF b THEN <<49>> ELSE <<48>>)
SqlV(v) == IF v.t = "bool" THEN VBool(v.b) ELSE v
V3(x) == CASE x = "T" -> VBool(TRUE) [] x = "F" -> VBool(FALSE) [] x = "N" -> MkNull

Is3(b) == IF b THEN "T" ELSE "F"
Not3(x) == CASE x = "T" -> "F" [] x = "F" -> "T" [] x = "N" -> "N"
And3(S) == IF "F" \in S THEN "F" ELSE IF "N" \in S THEN "N" ELSE "T"
Or3(S) == IF "T" \in S THEN "T" ELSE IF "N" \in S THEN "N" ELSE "F"

(* Numbers come before texts; texts are ordered by code points. *)
VEq(a, b) == IF a.t # b.t THEN FALSE ELSE IF a.t = "int" THEN a.d = b.d ELSE a.s = b.s
VLess(a, b) ==
  IF a.t # b.t THEN a.t = "int"
  ELSE IF a.t = "int" THEN DigitsLess(a.d, b.d) ELSE SeqLess(a.s, b.s)

(* % stands for any text, _ for any character, letters match either case.  *)
RECURSIVE LikeFrom(_,_,_,_)
LikeFrom(p, i, s, j) ==
  IF i > Len(p) THEN j > Len(s)
  ELSE IF p[i] = 37 THEN \E k \in j..(Len(s) + 1) : LikeFrom(p, i + 1, s, k)
  ELSE j <= Len(s) /\ (p[i] = 95 \/ Lower(p[i]) = Lower(s[j])) /\ LikeFrom(p, i + 1, s, j + 1)
Like(s, p) == LikeFrom(p, 1, s, 1)

(* The date of a text that starts with one, e.g. 2021-05-12T10:00:00. *)
IsDate(s) ==
  /\ Len(s) >= 10
  /\ \A i \in {1, 2, 3, 4, 6, 7, 9, 10} : IsDigit(s[i])
  /\ s[5] = 45 /\ s[8] = 45
  /\ Len(s) > 10 => s[11] \in {32, 84}
DateOf(v) == IF v.t = "str" /\ IsDate(v.s) THEN MkStr(SubSeq(v.s, 1, 10)) ELSE MkNull

Truth3(v) == CASE v.t = "null" -> "N" [] v.t = "int" -> Is3(v.d # <<48>>) [] v.t = "str" -> "F"

(* ------------------------------ evaluation ----------------------------- *)
(* env: path -> value.  An edge test looks at env.edges, see MQEdges.      *)
RECURSIVE Eval(_,_), Eval3(_,_)
Op3(o, a, b) ==
  IF a.t = "null" \/ b.t = "null" THEN "N"
  ELSE CASE o = "eq" -> Is3(VEq(a, b))
         [] o = "lt" -> Is3(VLess(a, b))
         [] o = "like" -> Is3(Like(IF a.t = "int" THEN a.d ELSE a.s, IF b.t = "int" THEN b.d ELSE b.s))
Eval(x, env) ==
  CASE x.t = "col" -> SqlV(env[x.p])
    [] x.t = "val" -> SqlV(x.v)
    [] x.t = "list" -> Assert(FALSE, "a list has no value")
    [] x.t = "fn" -> DateOf(Eval(x.p[1], env))
    [] OTHER -> V3(Eval3(x, env))
Eval3(x, env) ==
  CASE x.t = "and" -> And3({ Eval3(x.a[i], env) : i \in 1..Len(x.a) })
    [] x.t = "or" -> Or3({ Eval3(x.a[i], env) : i \in 1..Len(x.a) })
    [] x.t = "not" -> Not3(Eval3(x.e, env))
    [] x.t = "op" -> Op3(x.o, Eval(x.l, env), Eval(x.r, env))
    [] x.t = "is" -> LET a == Eval(x.l, env) IN
                     Is3(CASE x.o = "null" -> a.t = "null"
                           [] x.o = "true" -> Truth3(a) = "T"
                           [] x.o = "false" -> Truth3(a) = "F")
    [] OTHER -> Truth3(Eval(x, env))

Holds(x, env) == Eval3(x, env) = "T"

(* ----------------------------- equivalence ----------------------------- *)
Logical(x) == x.t \in {"and", "or", "not", "op", "is"}

(* The atoms of an expression: what its truth depends on. *)
RECURSIVE AtomsOf(_)
AtomsOf(x) ==
  CASE x.t \in {"and", "or"} -> UNION { AtomsOf(x.a[i]) : i \in 1..Len(x.a) }
    [] x.t = "not" -> AtomsOf(x.e)
    [] x.t = "is" -> IF x.o = "null" /\ ~Logical(x.l) THEN {x} ELSE AtomsOf(x.l)
    [] OTHER -> {x}

RECURSIVE Value3(_,_)
Value3(x, m) ==
  CASE x.t = "and" -> And3({ Value3(x.a[i], m) : i \in 1..Len(x.a) })
    [] x.t = "or" -> Or3({ Value3(x.a[i], m) : i \in 1..Len(x.a) })
    [] x.t = "not" -> Not3(Value3(x.e, m))
    [] x.t = "is" -> IF x.o = "null" /\ ~Logical(x.l) THEN (IF m[x] = "T" THEN "T" ELSE "F")
                     ELSE LET a == Value3(x.l, m) IN
                          Is3(CASE x.o = "null" -> a = "N" [] x.o = "true" -> a = "T" [] x.o = "false" -> a = "F")
    [] OTHER -> m[x]

(* All assignments for up to 6 atoms.  For more, those that give all atoms *)
(* but two, or but one, the same value.                                    *)
Three == {"T", "F", "N"}
Assignments(A) ==
  IF Cardinality(A) <= 6 THEN [A -> Three]
  ELSE IF Cardinality(A) <= 16
  THEN { [x \in A |-> IF x = a THEN u ELSE IF x = b THEN w ELSE d] : a \in A, b \in A, u \in Three, w \in Three, d \in Three }
  ELSE { [x \in A |-> IF x = a THEN u ELSE d] : a \in A, u \in Three, d \in Three }

SameMeaning(x, y) ==
  \/ x = y
  \/ LET A == AtomsOf(x) \cup AtomsOf(y) IN \A m \in Assignments(A) : Value3(x, m) = Value3(y, m)
=============================================================================
