------------------------------ MODULE MQGrammar ------------------------------
(***************************************************************************)
(* The query language: a reference reader from text to tree.               *)
(*                                                                         *)
(* The rules follow the documented grammar one to one (ordered choice, no  *)
(* word boundaries, which constructs need separators), but the reader      *)
(* builds trees from the structure of the rules, not with a stack: the     *)
(* operands of AND and OR are collected in a list and grouped by rank.     *)
(*                                                                         *)
(* A result is [p |-> position after the match, v |-> what was read], and  *)
(* [p |-> 0] when the rule does not match.                                 *)
(*                                                                         *)
(* Trees are records with a tag t:                                         *)
(*   int d | str s | bool b | null | arr a                                 *)
(*   id n | ref ns | fn n p                                                *)
(*   cmp o l r | log o l r | prd o l | btw o l lo hi | par e | not e       *)
(* Names and strings are code point sequences, d is a digit sequence.      *)
(***************************************************************************)
EXTENDS MQText

NoMatch == [p |-> 0]

MkInt(d)          == [t |-> "int", d |-> d]
MkStr(s)          == [t |-> "str", s |-> s]
MkBool(b)         == [t |-> "bool", b |-> b]
MkNull            == [t |-> "null"]
MkArr(a)          == [t |-> "arr", a |-> a]
MkId(n)           == [t |-> "id", n |-> n]
MkRef(ns)         == [t |-> "ref", ns |-> ns]
MkFn(n, p)        == [t |-> "fn", n |-> n, p |-> p]
MkCmp(o, l, r)    == [t |-> "cmp", o |-> o, l |-> l, r |-> r]
MkLog(o, l, r)    == [t |-> "log", o |-> o, l |-> l, r |-> r]
MkPrd(o, l)       == [t |-> "prd", o |-> o, l |-> l]
MkBtw(o, l, x, y) == [t |-> "btw", o |-> o, l |-> l, lo |-> x, hi |-> y]
MkPar(e)          == [t |-> "par", e |-> e]
MkNot(e)          == [t |-> "not", e |-> e]
MkJson            == [t |-> "json"]       \* recognised, never part of a result

(* --------------------------- literals and lists ------------------------ *)
Literal(s, i) ==
  LET c == At(s, i) IN
  IF c = 39 \/ c = 34 THEN
    LET e == FindFrom(s, i + 1, c) IN
    IF e = 0 THEN NoMatch ELSE [p |-> e + 1, v |-> MkStr(SubSeq(s, i + 1, e - 1))]
  ELSE IF c = 48 THEN [p |-> i + 1, v |-> MkInt(<<48>>)]
  ELSE IF IsDigit(c) THEN
    LET e == DigitEnd(s, i) IN [p |-> e, v |-> MkInt(SubSeq(s, i, e - 1))]
  ELSE IF Lit(s, i, W_true)  # 0 \/ Lit(s, i, W_TRUE)  # 0 THEN [p |-> i + 4, v |-> MkBool(TRUE)]
  ELSE IF Lit(s, i, W_false) # 0 \/ Lit(s, i, W_FALSE) # 0 THEN [p |-> i + 5, v |-> MkBool(FALSE)]
  ELSE IF Lit(s, i, W_null)  # 0 \/ Lit(s, i, W_NULL)  # 0 THEN [p |-> i + 4, v |-> MkNull]
  ELSE NoMatch

(* More literals of a list, each after a comma; i is after an element. *)
RECURSIVE LiteralsMore(_,_,_)
LiteralsMore(s, i, acc) ==
  LET k == Skip(s, i) IN
  IF At(s, k) # 44 THEN [p |-> i, v |-> acc]
  ELSE LET r == Literal(s, Skip(s, k + 1)) IN
       IF r.p = 0 THEN [p |-> i, v |-> acc]
       ELSE LiteralsMore(s, r.p, Append(acc, r.v))

ListOf(s, i, close) ==
  LET j == Skip(s, i + 1)
      f == Literal(s, j)
      m == IF f.p = 0 THEN [p |-> j, v |-> <<>>] ELSE LiteralsMore(s, f.p, <<f.v>>)
      k == Skip(s, m.p)
      e == IF f.p # 0 /\ At(s, k) = 44 THEN Skip(s, k + 1) ELSE k
  IN IF At(s, e) = close THEN [p |-> e + 1, v |-> MkArr(m.v)] ELSE NoMatch

List(s, i) ==
  IF At(s, i) = 91 THEN ListOf(s, i, 93)
  ELSE IF At(s, i) = 40 THEN ListOf(s, i, 41)
  ELSE NoMatch

ValueAt(s, i) == LET r == Literal(s, i) IN IF r.p # 0 THEN r ELSE List(s, i)

(* -------------------------------- names -------------------------------- *)
Name(s, i) ==
  IF IsAlpha(At(s, i)) /\ LitI(s, i, W_not) = 0
  THEN LET e == WordEnd(s, i) IN [p |-> e, v |-> SubSeq(s, i, e - 1)]
  ELSE NoMatch

RECURSIVE NamesMore(_,_,_)
NamesMore(s, i, acc) ==
  IF At(s, i) # 46 THEN [p |-> i, v |-> acc]
  ELSE LET r == Name(s, i + 1) IN
       IF r.p = 0 THEN [p |-> i, v |-> acc] ELSE NamesMore(s, r.p, Append(acc, r.v))

Arrow(s, i) == At(s, i) = 45 /\ At(s, i + 1) = 62

(* Position after the longest a->b->c from i on, 0 if there is no arrow. *)
RECURSIVE JsonEnd(_,_)
JsonEnd(s, i) ==
  LET n == Name(s, i) IN
  IF n.p = 0 \/ ~Arrow(s, n.p) THEN 0
  ELSE LET r == JsonEnd(s, n.p + 2) IN
       IF r # 0 THEN r ELSE LET m == Name(s, n.p + 2) IN m.p

ReferenceAt(s, i) ==
  LET n == Name(s, i) IN
  IF n.p = 0 THEN NoMatch
  ELSE LET m == NamesMore(s, n.p, <<n.v>>) IN
       IF Len(m.v) > 1 THEN [p |-> m.p, v |-> MkRef(m.v)]
       ELSE LET j == JsonEnd(s, i) IN
            IF j # 0 THEN [p |-> j, v |-> MkJson] ELSE [p |-> n.p, v |-> MkId(n.v)]

(* ------------------------------ operators ------------------------------ *)
(* Operators are [p, o]: position after the operator itself, its canonical *)
(* name.                                                                   *)
NoOp == [p |-> 0]

NotThen(s, i, w) ==   \* "not", a separator, w
  LET a == LitI(s, i, W_not) IN
  IF a = 0 THEN 0 ELSE LET b == Skip1(s, a) IN IF b = 0 THEN 0 ELSE LitI(s, b, w)

CompareOp(s, k) ==
  LET c == At(s, k)  d == At(s, k + 1) IN
  IF c = 62 THEN IF d = 61 THEN [p |-> k + 2, o |-> "gte"] ELSE [p |-> k + 1, o |-> "gt"]
  ELSE IF c = 60 THEN IF d = 61 THEN [p |-> k + 2, o |-> "lte"]
                      ELSE IF d = 62 THEN [p |-> k + 2, o |-> "neq"]
                      ELSE [p |-> k + 1, o |-> "lt"]
  ELSE IF c = 61 THEN IF d = 61 THEN [p |-> k + 2, o |-> "eq"] ELSE [p |-> k + 1, o |-> "eq"]
  ELSE IF c = 33 THEN IF d = 61 THEN [p |-> k + 2, o |-> "neq"] ELSE NoOp
  ELSE IF LitI(s, k, W_gte) # 0 THEN [p |-> k + 3, o |-> "gte"]
  ELSE IF LitI(s, k, W_lte) # 0 THEN [p |-> k + 3, o |-> "lte"]
  ELSE IF LitI(s, k, W_gt)  # 0 THEN [p |-> k + 2, o |-> "gt"]
  ELSE IF LitI(s, k, W_lt)  # 0 THEN [p |-> k + 2, o |-> "lt"]
  ELSE IF LitI(s, k, W_eq)  # 0 THEN [p |-> k + 2, o |-> "eq"]
  ELSE IF LitI(s, k, W_neq) # 0 THEN [p |-> k + 3, o |-> "neq"]
  ELSE IF LitI(s, k, W_like) # 0 THEN [p |-> k + 4, o |-> "like"]
  ELSE LET e == NotThen(s, k, W_like) IN
       IF e # 0 THEN [p |-> e, o |-> "not like"] ELSE NoOp

InOp(s, k) ==
  IF LitI(s, k, W_in) # 0 THEN [p |-> k + 2, o |-> "in"]
  ELSE LET e == NotThen(s, k, W_in) IN
       IF e # 0 THEN [p |-> e, o |-> "not in"] ELSE NoOp

LogicOp(s, k) ==
  IF LitI(s, k, W_and) # 0 THEN [p |-> k + 3, o |-> "and"]
  ELSE IF LitI(s, k, W_or) # 0 THEN [p |-> k + 2, o |-> "or"]
  ELSE IF At(s, k) = 38 /\ At(s, k + 1) = 38 THEN [p |-> k + 2, o |-> "and"]
  ELSE IF At(s, k) = 124 /\ At(s, k + 1) = 124 THEN [p |-> k + 2, o |-> "or"]
  ELSE NoOp

BetweenOp(s, k) ==
  LET n == LitI(s, k, W_not)
      b == IF n = 0 THEN 0 ELSE Skip1(s, n)
      e == IF b = 0 THEN 0 ELSE Lit(s, b, W_between)
      d == Lit(s, k, W_between)
  IN IF e # 0 THEN [p |-> e, o |-> "not between"]
     ELSE IF d # 0 THEN [p |-> d, o |-> "between"] ELSE NoOp

Truth(s, i) ==
  IF Lit(s, i, W_true) # 0 THEN [p |-> i + 4, o |-> "true"]
  ELSE IF Lit(s, i, W_false) # 0 THEN [p |-> i + 5, o |-> "false"]
  ELSE IF Lit(s, i, W_null) # 0 THEN [p |-> i + 4, o |-> "null"]
  ELSE NoOp

MatchName == [positive |-> [true |-> "is true", false |-> "is false", null |-> "is null"],
              negative |-> [true |-> "is not true", false |-> "is not false", null |-> "is not null"]]

(* The postfix tests; the separator before them is mandatory. *)
MatchOp(s, i) ==
  LET k == Skip1(s, i) IN
  IF k = 0 THEN NoOp
  ELSE IF Lit(s, k, W_isnull) # 0 THEN [p |-> k + 6, o |-> "is null"]
  ELSE IF Lit(s, k, W_notnull) # 0 THEN [p |-> k + 7, o |-> "is not null"]
  ELSE IF Lit(s, k, W_is) = 0 THEN NoOp
  ELSE LET a == Skip1(s, k + 2) IN
       IF a = 0 THEN NoOp
       ELSE LET t == Truth(s, a) IN
            IF t.p # 0 THEN [p |-> t.p, o |-> MatchName.positive[t.o]]
            ELSE LET n == Lit(s, a, W_not)
                     b == IF n = 0 THEN 0 ELSE Skip1(s, n) IN
                 IF b = 0 THEN NoOp
                 ELSE LET u == Truth(s, b) IN
                      IF u.p = 0 THEN NoOp ELSE [p |-> u.p, o |-> MatchName.negative[u.o]]

(* ----------------------------- expressions ----------------------------- *)
(* Group a list of operands by rank: AND before OR, left to right.         *)
RECURSIVE GroupFrom(_,_,_,_,_)
GroupFrom(xs, ops, i, or, and) ==
  (* or: the finished OR operands to the left (<<>> or one tree), and: the *)
  (* conjunction being read, i: next operator.                             *)
  LET close == IF or = <<>> THEN and ELSE MkLog("or", or[1], and) IN
  IF i > Len(ops) THEN close
  ELSE IF ops[i] = "and"
       THEN GroupFrom(xs, ops, i + 1, or, MkLog("and", and, xs[i + 1]))
       ELSE GroupFrom(xs, ops, i + 1, <<close>>, xs[i + 1])
Group(xs, ops) == GroupFrom(xs, ops, 1, <<>>, xs[1])

RECURSIVE ExprAt(_,_), LogicMore(_,_,_,_), NotAt(_,_), CompareAt(_,_), CompareMore(_,_,_),
          InAt(_,_), PredicateAt(_,_), RangeAt(_,_), PrimaryAt(_,_), ArgsAt(_,_), ArgsMore(_,_,_)

ExprAt(s, i) ==
  LET f == NotAt(s, i) IN
  IF f.p = 0 THEN NoMatch ELSE LogicMore(s, f.p, <<f.v>>, <<>>)

LogicMore(s, i, xs, ops) ==
  LET o == LogicOp(s, Skip(s, i))
      r == IF o.p = 0 THEN NoMatch ELSE NotAt(s, Skip(s, o.p))
  IN IF r.p = 0 THEN [p |-> i, v |-> Group(xs, ops)]
     ELSE LogicMore(s, r.p, Append(xs, r.v), Append(ops, o.o))

NotAt(s, i) ==
  LET c == CompareAt(s, i) IN
  IF c.p # 0 THEN c
  ELSE LET k == LitI(s, Skip(s, i), W_not)
           b == IF k = 0 THEN 0 ELSE Skip1(s, k)
           r == IF b = 0 THEN NoMatch ELSE CompareAt(s, b)
       IN IF r.p = 0 THEN NoMatch ELSE [p |-> r.p, v |-> MkNot(r.v)]

CompareAt(s, i) ==
  LET f == InAt(s, i) IN IF f.p = 0 THEN NoMatch ELSE CompareMore(s, f.p, f.v)

CompareMore(s, i, l) ==
  LET o == CompareOp(s, Skip(s, i))
      r == IF o.p = 0 THEN NoMatch ELSE InAt(s, Skip(s, o.p))
  IN IF r.p = 0 THEN [p |-> i, v |-> l]
     ELSE CompareMore(s, r.p, MkCmp(o.o, l, r.v))

InAt(s, i) ==
  LET f == PredicateAt(s, i) IN
  IF f.p = 0 THEN NoMatch
  ELSE LET o == InOp(s, Skip(s, f.p))
           r == IF o.p = 0 THEN NoMatch ELSE List(s, Skip(s, o.p))
       IN IF r.p = 0 THEN f ELSE [p |-> r.p, v |-> MkCmp(o.o, f.v, r.v)]

PredicateAt(s, i) ==
  LET f == RangeAt(s, i) IN
  IF f.p = 0 THEN NoMatch
  ELSE LET o == MatchOp(s, f.p) IN
       IF o.p = 0 THEN f ELSE [p |-> Skip(s, o.p), v |-> MkPrd(o.o, f.v)]

(* The bounds of a range: X and Y, or [X, Y]. *)
Bounds(s, k) ==
  LET x == ValueAt(s, k)
      a == IF x.p = 0 THEN 0 ELSE LitI(s, Skip(s, x.p), W_and)
      y == IF a = 0 THEN NoMatch ELSE ValueAt(s, Skip(s, a))
  IN IF y.p # 0 THEN [p |-> y.p, x |-> x.v, y |-> y.v]
     ELSE IF At(s, k) # 91 THEN NoMatch
     ELSE LET u == ValueAt(s, Skip(s, k + 1))
              c == IF u.p = 0 THEN 0 ELSE Skip(s, u.p)
              w == IF c = 0 \/ At(s, c) # 44 THEN NoMatch ELSE ValueAt(s, Skip(s, c + 1))
              e == IF w.p = 0 THEN 0 ELSE Skip(s, w.p)
          IN IF e = 0 \/ At(s, e) # 93 THEN NoMatch ELSE [p |-> e + 1, x |-> u.v, y |-> w.v]

RangeAt(s, i) ==
  LET f == PrimaryAt(s, i) IN
  IF f.p = 0 THEN NoMatch
  ELSE LET o == BetweenOp(s, Skip(s, f.p))
           b == IF o.p = 0 THEN NoMatch ELSE Bounds(s, Skip(s, o.p))
       IN IF b.p = 0 THEN f ELSE [p |-> b.p, v |-> MkBtw(o.o, f.v, b.x, b.y)]

PrimaryAt(s, i) ==
  LET g == IF At(s, i) = 40 THEN ExprAt(s, Skip(s, i + 1)) ELSE NoMatch
      ge == IF g.p = 0 THEN 0 ELSE Skip(s, g.p)
  IN IF ge # 0 /\ At(s, ge) = 41 THEN [p |-> ge + 1, v |-> MkPar(g.v)]
     ELSE LET u == ValueAt(s, i) IN
          IF u.p # 0 THEN u
          ELSE LET n == Name(s, i)
                   a == IF n.p = 0 THEN NoMatch ELSE ArgsAt(s, n.p)
               IN IF a.p # 0 THEN [p |-> a.p, v |-> MkFn(n.v, a.v)]
                  ELSE ReferenceAt(s, i)

ArgsAt(s, i) ==
  IF At(s, i) # 40 THEN NoMatch
  ELSE LET j == Skip(s, i + 1)
           f == ExprAt(s, j)
           m == IF f.p = 0 THEN [p |-> j, v |-> <<>>] ELSE ArgsMore(s, f.p, <<f.v>>)
           k == Skip(s, m.p)
           e == IF f.p # 0 /\ At(s, k) = 44 THEN Skip(s, k + 1) ELSE k
       IN IF At(s, e) = 41 THEN [p |-> e + 1, v |-> m.v] ELSE NoMatch

ArgsMore(s, i, acc) ==
  LET k == Skip(s, i)
      r == IF At(s, k) # 44 THEN NoMatch ELSE ExprAt(s, Skip(s, k + 1))
  IN IF r.p = 0 THEN [p |-> i, v |-> acc] ELSE ArgsMore(s, r.p, Append(acc, r.v))

(* Is a tree free of what the language recognises but does not support:    *)
(* arrows into JSON and integers beyond 64 bits?                           *)
RECURSIVE Supported(_)
Supported(n) ==
  CASE n.t = "json" -> FALSE
    [] n.t = "int" -> ~DigitsLess(MaxInt, n.d)
    [] n.t = "arr" -> \A i \in 1..Len(n.a) : Supported(n.a[i])
    [] n.t = "fn" -> \A i \in 1..Len(n.p) : Supported(n.p[i])
    [] n.t \in {"cmp", "log"} -> Supported(n.l) /\ Supported(n.r)
    [] n.t = "prd" -> Supported(n.l)
    [] n.t = "btw" -> Supported(n.l) /\ Supported(n.lo) /\ Supported(n.hi)
    [] n.t \in {"par", "not"} -> Supported(n.e)
    [] OTHER -> TRUE

(* The language: Read(s).ok, and then the tree Read(s).v. *)
Read(s) ==
  LET r == ExprAt(s, Skip(s, 1)) IN
  IF r.p # 0 /\ Skip(s, r.p) = Len(s) + 1 /\ Supported(r.v)
  THEN [ok |-> TRUE, v |-> r.v] ELSE [ok |-> FALSE]
=============================================================================
