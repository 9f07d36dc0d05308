-------------------------------- MODULE MQQl --------------------------------
(***************************************************************************)
(* The entql builder: predicates as the harness projects them              *)
(*   two o l r | many o a | one o e | field n | value v | call | edge      *)
(* what they mean, and which queries have such a form.                     *)
(***************************************************************************)
EXTENDS MQSem

QlOps == [o \in {"==", "!=", ">", ">=", "<", "<="} |->
           CASE o = "==" -> "eq" [] o = "!=" -> "neq" [] o = ">" -> "gt" [] o = ">=" -> "gte" [] o = "<" -> "lt" [] o = "<=" -> "lte"]
QlLogic == [o \in {"&&", "||"} |-> IF o = "&&" THEN "and" ELSE "or"]

(* Made of known parts only? *)
RECURSIVE Readable(_)
Readable(p) ==
  CASE p.t = "two" -> /\ Readable(p.l)
                      /\ Readable(p.r)
                      /\ p.o \in DOMAIN QlOps \cup DOMAIN QlLogic \cup {"in", "not in"}
                      /\ p.o \in {"in", "not in"} => p.r.t = "value" /\ p.r.v.t = "arr"
    [] p.t = "many" -> p.o \in DOMAIN QlLogic /\ \A i \in 1..Len(p.a) : Readable(p.a[i])
    [] p.t = "one" -> p.o = "!" /\ Readable(p.e)
    [] p.t = "field" -> TRUE
    [] p.t = "value" -> p.v.t \in {"int", "str", "bool", "null", "arr", "nil"}
    [] OTHER -> FALSE

RECURSIVE QlX(_), QlFold(_,_,_,_)
QlFold(o, a, i, x) == IF i > Len(a) THEN x ELSE QlFold(o, a, i + 1, XTwo(o, x, QlX(a[i])))
QlX(p) ==
  LET lst(a) == [i \in 1..Len(a) |-> XVal(a[i])] IN
  CASE p.t = "field" -> XCol(<<p.n>>)
    [] p.t = "value" -> IF p.v.t # "arr" THEN XVal(p.v) ELSE IF Len(p.v.a) = 1 THEN XVal(p.v.a[1]) ELSE XList(lst(p.v.a))
    [] p.t = "one" -> XNot(QlX(p.e))
    [] p.t = "many" -> IF p.a = <<>> THEN XMany(QlLogic[p.o], <<>>) ELSE QlFold(QlLogic[p.o], p.a, 2, QlX(p.a[1]))
    [] p.o \in DOMAIN QlLogic -> XTwo(QlLogic[p.o], QlX(p.l), QlX(p.r))
    \* a comparison with no value at all is the null test of entql
    [] p.o \in {"==", "!="} /\ p.r = [t |-> "value", v |-> [t |-> "nil"]] -> XMatch(IF p.o = "==" THEN "is null" ELSE "is not null", QlX(p.l))
    [] p.o \in {"in", "not in"} -> LET x == XIn(QlX(p.l), lst(p.r.v.a)) IN IF p.o = "in" THEN x ELSE XNot(x)
    [] OTHER -> XCompare(QlOps[p.o], QlX(p.l), QlX(p.r))

(* ------------------------------ supported ------------------------------ *)
RECURSIVE Inner(_)
Inner(n) == IF n.t = "par" THEN Inner(n.e) ELSE n
RECURSIVE QlOperand(_), QlCondition(_)
QlOperand(n) ==
  LET i == Inner(n) IN
  IF i.t \in {"id", "int", "str", "bool", "null", "arr"} THEN TRUE ELSE QlCondition(i)
(* true and false stand for conditions next to and, or *)
QlPart(n) == Inner(n).t = "bool" \/ QlCondition(n)
QlCondition(n) ==
  LET i == Inner(n) IN
  CASE i.t = "cmp" -> i.o \notin {"like", "not like"} /\ QlOperand(i.l) /\ QlOperand(i.r)
    [] i.t = "log" -> QlPart(i.l) /\ QlPart(i.r)
    [] i.t = "btw" -> QlOperand(i.l)
    [] i.t = "not" -> QlCondition(i.e)
    [] OTHER -> FALSE

(* What ent itself can evaluate: fields compared with fields or values.    *)
RECURSIVE Evaluable(_)
Evaluable(n) ==
  LET i == Inner(n) IN
  CASE i.t = "cmp" -> Inner(i.l).t = "id" /\ Inner(i.r).t \in {"id", "int", "str", "bool", "null", "arr"}
    [] i.t = "log" -> Evaluable(i.l) /\ Evaluable(i.r)
    [] i.t = "btw" -> Inner(i.l).t = "id"
    [] i.t = "not" -> Evaluable(i.e)
    [] OTHER -> FALSE
=============================================================================
