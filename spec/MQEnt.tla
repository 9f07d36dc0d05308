------------------------------- MODULE MQEnt -------------------------------
(***************************************************************************)
(* The ent SQL builder: which queries it supports, how it names columns,   *)
(* what its text may contain, and what a statement around it means.        *)
(***************************************************************************)
EXTENDS MQSql, MQEdges

(* -------------------------------- names -------------------------------- *)
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122

(* A new word starts at a capital after a small letter, and at the last of *)
(* several capitals if a small letter follows.                             *)
WordStart(n, i) ==
  i > 1 /\ IsUpper(n[i]) /\ (IsLower(n[i - 1]) \/ (IsUpper(n[i - 1]) /\ i < Len(n) /\ IsLower(n[i + 1])))
RECURSIVE SnakeFrom(_,_)
SnakeFrom(n, i) ==
  IF i > Len(n) THEN <<>>
  ELSE (IF WordStart(n, i) THEN <<95>> ELSE <<>>) \o <<Lower(n[i])>> \o SnakeFrom(n, i + 1)
Snake(n) == IF LowerSeq(n) = n THEN n ELSE SnakeFrom(n, 1)

(* Mixed names with digits or irregular underscores have no agreed words.  *)
OddName(n) ==
  /\ LowerSeq(n) # n
  /\ \/ \E i \in 1..Len(n) : IsDigit(n[i])
     \/ n[Len(n)] = 95
     \/ \E i \in 1..(Len(n) - 1) : n[i] = 95 /\ n[i + 1] = 95

RECURSIVE Columned(_)
Columned(n) ==
  CASE n.t = "id" -> MkId(Snake(n.n))
    [] n.t = "fn" -> MkFn(n.n, [i \in 1..Len(n.p) |-> IF i = 1 /\ n.n = W_hasedge THEN n.p[i] ELSE Columned(n.p[i])])
    [] n.t \in {"cmp", "log"} -> [n EXCEPT !.l = Columned(@), !.r = Columned(@)]
    [] n.t \in {"prd", "btw"} -> [n EXCEPT !.l = Columned(@)]
    [] n.t \in {"par", "not"} -> [n EXCEPT !.e = Columned(@)]
    [] OTHER -> n

RECURSIVE HasOddName(_)
HasOddName(n) ==
  \/ n.t = "id" /\ OddName(n.n)
  \/ LET c == Children(n) IN \E i \in 1..Len(c) : HasOddName(c[i])

(* ------------------------------ supported ------------------------------ *)
Plainly(n) == n.t \in {"id", "ref", "int", "str", "bool", "null", "arr"}
RECURSIVE EntSupported(_,_)
EntSupported(n, m) ==
  CASE n.t = "ref" -> FALSE
    [] n.t = "fn" ->
         IF n.n = W_date THEN Len(n.p) = 1 /\ EntSupported(n.p[1], m)
         ELSE /\ n.n = W_hasedge
              /\ Len(n.p) \in 1..2
              /\ n.p[1].t = "id"
              /\ EdgesNamed(m, n.p[1].n) # {}
              /\ Len(n.p) = 2 => ~Plainly(n.p[2]) /\ EntSupported(n.p[2], EdgeOf(m, n.p[1].n).to)
    [] n.t = "prd" -> n.o \in {"is null", "is not null"} /\ EntSupported(n.l, m)
    [] n.t \in {"cmp", "log"} -> EntSupported(n.l, m) /\ EntSupported(n.r, m)
    [] n.t = "btw" -> EntSupported(n.l, m)
    [] n.t \in {"par", "not"} -> EntSupported(n.e, m)
    [] OTHER -> TRUE

HasEdgeTest(n) == n.t = "fn" /\ n.n = W_hasedge
RECURSIVE UsesEdge(_)
UsesEdge(n) == HasEdgeTest(n) \/ LET c == Children(n) IN \E i \in 1..Len(c) : UsesEdge(c[i])

RECURSIVE EmptyIn(_)
EmptyIn(n) ==
  \/ n.t = "cmp" /\ n.o \in {"in", "not in"} /\ n.r.a = <<>>
  \/ LET c == Children(n) IN \E i \in 1..Len(c) : EmptyIn(c[i])

(* --------------------------------- text -------------------------------- *)
QuoteOf(d) == IF d = "postgres" THEN 34 ELSE 96
SqlWords == TLCEval({ T(w) : w \in {"and", "or", "not", "in", "like", "is", "null", "true", "false", "between", "isnull", "notnull",
  "date", "exists", "select", "from", "where", "join", "on", "as", "cast", "escape", "distinct"} })
MaxInt16 == T("32767")
MaxInt32 == T("2147483647")
(* The types that can hold a value. *)
TypeWords(v) ==
  CASE v.t = "int" -> { T(w) : w \in {"bigint", "int8", "numeric", "decimal"}
                                     \cup (IF DigitsLess(MaxInt32, v.d) THEN {} ELSE {"int", "integer", "int4"})
                                     \cup (IF DigitsLess(MaxInt16, v.d) THEN {} ELSE {"smallint", "int2"}) }
    [] v.t = "bool" -> { T(w) : w \in {"bool", "boolean"} }
    [] OTHER -> {}

(* Indexes of the types of casts: $1::int, CAST($1 AS int). *)
Casts(ts) ==
  { i \in 1..Len(ts) :
      \/ IsS(TokAt(ts, i - 1), "::")
      \/ IsW(TokAt(ts, i - 1), S_as) /\ IsW(TokAt(ts, i - 4), S_cast) }
(* vs: value of a placeholder number *)
WrongCast(ts, vs) ==
  \E i \in Casts(ts) :
    LET v == TokAt(ts, i - 2)  t == ts[i] IN
    v.k = "ph" /\ v.i \in DOMAIN vs /\ ~(t.k = "word" /\ t.w \in TypeWords(vs[v.i]))
Unquoted(ts, d) ==
  \E i \in 1..Len(ts) :
    \/ ts[i].k = "word" /\ ts[i].w \notin SqlWords /\ i \notin Casts(ts)
    \/ ts[i].k = "name" /\ ts[i].q # QuoteOf(d)
(* Nothing of the query is in the text. *)
Foreign(ts, empty) ==
  \E i \in 1..Len(ts) : \/ ts[i].k \in {"lit", "odd"}
                        \/ (IsW(ts[i], S_true) \/ IsW(ts[i], S_false)) /\ ~AfterIs(ts, i) /\ ~empty

(* Names of the columns of a query: all of them, or without those of the   *)
(* tested operand of an empty list, which need not be written.             *)
RECURSIVE ColumnNames(_,_)
ColumnNames(n, all) ==
  CASE n.t = "id" -> {n.n}
    [] n.t = "cmp" /\ n.o \in {"in", "not in"} /\ n.r.a = <<>> /\ ~all -> {}
    [] OTHER -> LET c == Children(n) IN
                UNION { ColumnNames(c[i], all) : i \in (IF HasEdgeTest(n) THEN 2 ELSE 1)..Len(c) }
NamesIn(ts) == { ts[i].n : i \in { k \in 1..Len(ts) : ts[k].k = "name" } }
WrongNames(n, ts, around) ==
  \/ ~(ColumnNames(n, FALSE) \subseteq NamesIn(ts))
  \/ ~UsesEdge(n) /\ ~(NamesIn(ts) \subseteq ColumnNames(n, TRUE) \union around)

(* Arguments in the order of the text: the tested operand of a range may   *)
(* be written for each bound, and that of an empty list not at all.        *)
RECURSIVE Written(_), WrittenAll(_,_)
WrittenAll(xs, i) == IF i > Len(xs) THEN <<>> ELSE Written(xs[i]) \o WrittenAll(xs, i + 1)
Written(n) ==
  CASE n.t \in {"int", "str", "bool", "null"} -> <<n>>
    [] n.t = "btw" -> Written(n.l) \o Written(n.lo) \o Written(n.l) \o Written(n.hi)
    [] n.t = "cmp" /\ n.o \in {"in", "not in"} /\ n.r.a = <<>> -> <<>>
    [] OTHER -> WrittenAll(Children(n), 1)
(* Written once when it is composed, so that ranges in ranges do not grow  *)
(* with every level.                                                       *)
RECURSIVE WrittenOnce(_), WrittenOnceAll(_,_)
WrittenOnceAll(xs, i) == IF i > Len(xs) THEN <<>> ELSE WrittenOnce(xs[i]) \o WrittenOnceAll(xs, i + 1)
WrittenOnce(n) ==
  CASE n.t \in {"int", "str", "bool", "null"} -> <<n>>
    [] n.t = "btw" /\ n.l.t \in {"int", "str", "bool", "null", "arr", "id", "ref"} -> Written(n)
    [] n.t = "cmp" /\ n.o \in {"in", "not in"} /\ n.r.a = <<>> -> <<>>
    [] OTHER -> WrittenOnceAll(Children(n), 1)
NotNull(vs) == SelectSeq(vs, LAMBDA v : v.t # "null")

(* ------------------------------ statements ----------------------------- *)
Equals(c, d) == XOp("eq", XCol(<<T(c)>>), XVal(MkInt(T(d))))
RECURSIVE Copies(_,_)
Copies(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Copies(x, n - 1)
AndAll(a) == IF Len(a) = 1 THEN a[1] ELSE XMany("and", a)
(* A condition x next to others, see around in harness/cmd/mqent. *)
Around(how, pre, one, two, x) ==
  LET o1 == Equals(one, "1")  o2 == Equals(two, "2") IN
  CASE how = "and" -> XTwo("and", x, o1)
    [] how = "andfirst" -> XTwo("and", o1, x)
    [] how = "or" -> XTwo("or", x, o1)
    [] how = "orfirst" -> XTwo("or", o1, x)
    [] how = "not" -> XNot(x)
    [] how = "notor" -> XNot(XTwo("or", o1, x))
    [] how = "notand" -> XNot(XTwo("and", x, o1))
    [] how = "mixed" -> XTwo("or", XTwo("and", o1, x), o2)
    [] how = "pair" -> XTwo("and", x, XNot(x))
    [] how \in {"join", "builder"} -> AndAll(Copies(Equals(one, "7"), pre) \o <<x>>)
    [] OTHER -> x
Mistaken == { Reading(<<>>, "and"), Reading(<<>>, "some") }
=============================================================================
