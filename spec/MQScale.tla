------------------------------ MODULE MQScale ------------------------------
(***************************************************************************)
(* Queries of any size.  A family has members for all n: a text before, a  *)
(* part n times, a text in the middle, another part n times and a text at  *)
(* the end.  Members too large to be read here have measures that follow   *)
(* from those of the small ones: from some member on, every measure grows  *)
(* by the same amount (MQScaleGen checks that).                            *)
(***************************************************************************)
EXTENDS MQEnt, MQSchema, MQQl

Fam(pre, a, mid, b, post) == [pre |-> T(pre), a |-> T(a), mid |-> T(mid), b |-> T(b), post |-> T(post)]
Families == [
  ands     |-> Fam("", "i=1 and ", "i=2", "", ""),
  ors      |-> Fam("", "i=1 or ", "i=2", "", ""),
  mixed    |-> Fam("", "i=1 and i=2 or ", "i=3", "", ""),
  commas   |-> Fam("", "not i=1, ", "i=2", "", ""),
  compares |-> Fam("i", "=j", "", "", ""),
  numbers  |-> Fam("i", "=1", "", "", ""),
  parens   |-> Fam("", "(", "i=1", ")", ""),
  nots     |-> Fam("", "not (", "i=1", ")", ""),
  sides    |-> Fam("", "(i=1 or ", "i=2", ")", ""),
  ranges   |-> Fam("", "i between 1 and 2 or ", "i is null", "", ""),
  tested   |-> Fam("", "(", "i", " between 1 and 2)", ""),
  within   |-> Fam("", "date(", "d", " not between 'x' and 'y')", " = 'z'"),
  tests    |-> Fam("", "i is null and ", "i is not null", "", ""),
  list     |-> Fam("i in [", "1,", "2", "", "]"),
  words    |-> Fam("s in [", "'a',", "'b'", "", "]"),
  lists    |-> Fam("", "i in [1,2] or ", "i not in [3]", "", ""),
  dates    |-> Fam("", "date(", "d", ")", " = 'x'"),
  calls    |-> Fam("", "f(", "i", ")", " = 1"),
  args     |-> Fam("f(", "i,", "1", "", ")"),
  string   |-> Fam("s='", "x", "", "", "'"),
  like     |-> Fam("s like '", "%", "", "", "'"),
  paths    |-> Fam("i.i", ".i", "", "", "=1"),
  name     |-> Fam("x", "y", "", "", "=1"),
  comments |-> [Fam("i=1 ", "", "", "", "and i=2") EXCEPT !.a = T("--'(") \o <<10>>],
  blanks   |-> Fam("i=", " ", "1", "", ""),
  open     |-> Fam("", "(", "i=1", "", ""),
  close    |-> Fam("i=1", ")", "", "", ""),
  edges    |-> Fam("", "has_edge(boss, ", "age=1", ")", ""),
  friends  |-> Fam("", "has_edge(friends, age=1 and ", "has_edge(dept)", ")", ""),
  many     |-> Fam("", "has_edge(dept, size=1) and ", "age=1", "", "") ]

RECURSIVE Times(_,_)
Times(s, n) == IF n = 0 THEN <<>> ELSE s \o Times(s, n - 1)
Member(f, n) == LET x == Families[f] IN x.pre \o Times(x.a, n) \o x.mid \o Times(x.b, n) \o x.post

(* ------------------------------- measures ------------------------------ *)
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE MaxOf(_,_,_)
MaxOf(op(_), xs, i) == IF i > Len(xs) THEN 0 ELSE Max2(op(xs[i]), MaxOf(op, xs, i + 1))
RECURSIVE HeightOf(_), LongestOf(_)
HeightOf(n) == IF n.t = "op" THEN 0 ELSE 1 + MaxOf(HeightOf, Children(n), 1)
LongestOf(n) ==
  Max2(CASE n.t = "str" -> Max2(1, Len(n.s)) [] n.t \in {"id", "fn"} -> Len(n.n) [] n.t = "ref" -> Len(n.ns) [] OTHER -> 1,
       MaxOf(LongestOf, Children(n), 1))
RECURSIVE SumOf(_,_,_)
SumOf(op(_), xs, i) == IF i > Len(xs) THEN 0 ELSE op(xs[i]) + SumOf(op, xs, i + 1)
RECURSIVE LeavesOf(_)     \* values, names and operators, a list as one value
LeavesOf(n) ==
  IF n.t \in {"int", "str", "bool", "null", "arr", "id", "ref", "op"} THEN 1
  ELSE SumOf(LeavesOf, Children(n), 1)
Strings(vs) == MaxOf(LAMBDA v : IF v.t = "str" THEN Len(v.s) ELSE 0, vs, 1)

(* Everything that is measured.  ok tells who accepts the member.          *)
None == [ok |-> [parse |-> FALSE, gorm |-> FALSE, sql |-> FALSE, ql |-> FALSE],
         size |-> 0, height |-> 0, longest |-> 0, leaves |-> 0, lits |-> 0, written |-> 0, text |-> 0]
MeasureOf(s) ==
  LET d == Read(s)  n == d.v IN
  IF ~d.ok THEN None
  ELSE LET ls == NotNull(Literals(n)) IN
       [ok |-> [parse |-> TRUE, gorm |-> Known("items", n), sql |-> EntSupported(n, "users"), ql |-> QlCondition(n)],
        size |-> Size(n), height |-> HeightOf(n), longest |-> LongestOf(n), leaves |-> LeavesOf(n),
        lits |-> Len(ls), written |-> Len(NotNull(WrittenOnce(n))), text |-> Strings(ls)]

(* From member From on measures are linear. *)
From == 3
Small == TLCEval([f \in DOMAIN Families |-> [n \in 1..(From + 1) |-> MeasureOf(Member(f, n))]])
Numbers == {"size", "height", "longest", "leaves", "lits", "written", "text"}
Measure(f, n) ==
  IF n <= From THEN Small[f][n]
  ELSE [k \in DOMAIN None |->
         IF k \in Numbers THEN Small[f][From][k] + (n - From) * (Small[f][From + 1][k] - Small[f][From][k])
         ELSE Small[f][From][k]]
=============================================================================
