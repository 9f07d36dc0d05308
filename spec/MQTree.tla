------------------------------- MODULE MQTree -------------------------------
(***************************************************************************)
(* What can be done with trees without looking at data: printing, joining, *)
(* comparing up to redundant parentheses, listing literals and nodes.      *)
(***************************************************************************)
EXTENDS MQGrammar

(* ------------------------------- printing ------------------------------ *)
(* One way to print a tree so that reading it gives the tree back.  The    *)
(* implementation may print differently, what counts is Read(print) = tree.*)
OpText == [ eq  |-> <<61,61>>, neq |-> <<33,61>>, gt |-> <<62>>, gte |-> <<62,61>>,
            lt  |-> <<60>>, lte |-> <<60,61>>, and |-> <<38,38>>, or |-> <<124,124>>,
            like |-> W_like, in |-> W_in, between |-> W_between ]

NotText(w) == W_not \o <<32>> \o w
IsText(w) == W_is \o <<32>> \o w

OpPrint(o) ==
  CASE o = "not like" -> NotText(W_like)
    [] o = "not in" -> NotText(W_in)
    [] o = "not between" -> NotText(W_between)
    [] o = "is null" -> IsText(W_null)
    [] o = "is true" -> IsText(W_true)
    [] o = "is false" -> IsText(W_false)
    [] o = "is not null" -> IsText(NotText(W_null))
    [] o = "is not true" -> IsText(NotText(W_true))
    [] o = "is not false" -> IsText(NotText(W_false))
    [] OTHER -> OpText[o]

Contains(s, c) == \E i \in 1..Len(s) : s[i] = c

RECURSIVE PrintTree(_), PrintList(_,_,_)
PrintList(xs, i, sep) ==
  IF i > Len(xs) THEN <<>>
  ELSE (IF i > 1 THEN sep ELSE <<>>) \o PrintTree(xs[i]) \o PrintList(xs, i + 1, sep)

RECURSIVE NamesText(_,_)
NamesText(ns, i) ==
  IF i > Len(ns) THEN <<>> ELSE (IF i > 1 THEN <<46>> ELSE <<>>) \o ns[i] \o NamesText(ns, i + 1)

PrintTree(n) ==
  CASE n.t = "int" -> n.d
    [] n.t = "str" -> LET q == IF Contains(n.s, 34) THEN 39 ELSE 34 IN <<q>> \o n.s \o <<q>>
    [] n.t = "bool" -> IF n.b THEN W_true ELSE W_false
    [] n.t = "null" -> W_null
    [] n.t = "arr" -> <<91>> \o PrintList(n.a, 1, <<44>>) \o <<93>>
    [] n.t = "id" -> n.n
    [] n.t = "ref" -> NamesText(n.ns, 1)
    [] n.t = "fn" -> n.n \o <<40>> \o PrintList(n.p, 1, <<44>>) \o <<41>>
    [] n.t \in {"cmp", "log"} -> PrintTree(n.l) \o <<32>> \o OpPrint(n.o) \o <<32>> \o PrintTree(n.r)
    [] n.t = "prd" -> PrintTree(n.l) \o <<32>> \o OpPrint(n.o)
    [] n.t = "btw" -> PrintTree(n.l) \o <<32>> \o OpPrint(n.o) \o <<32>> \o PrintTree(n.lo)
                      \o <<32>> \o W_and \o <<32>> \o PrintTree(n.hi)
    [] n.t = "par" -> <<40>> \o PrintTree(n.e) \o <<41>>
    [] n.t = "not" -> W_not \o <<32>> \o PrintTree(n.e)

(* ------------------------------- joining ------------------------------- *)
RECURSIVE Conj(_,_,_)
Conj(xs, i, acc) == IF i > Len(xs) THEN acc ELSE Conj(xs, i + 1, MkLog("and", acc, MkPar(xs[i])))

(* Trees up to redundant parentheses and the associativity of AND and OR:  *)
(* chains become lists.                                                    *)
RECURSIVE Canon(_), ChainOf(_,_)
ChainOf(n, o) ==
  CASE n.t = "par" -> ChainOf(n.e, o)
    [] n.t = "log" /\ n.o = o -> ChainOf(n.l, o) \o ChainOf(n.r, o)
    [] OTHER -> <<Canon(n)>>
Canon(n) ==
  CASE n.t = "par" -> Canon(n.e)
    [] n.t = "log" -> [t |-> "chain", o |-> n.o, xs |-> ChainOf(n, n.o)]
    [] n.t = "cmp" -> MkCmp(n.o, Canon(n.l), Canon(n.r))
    [] n.t = "prd" -> MkPrd(n.o, Canon(n.l))
    [] n.t = "btw" -> MkBtw(n.o, Canon(n.l), Canon(n.lo), Canon(n.hi))
    [] n.t = "not" -> MkNot(Canon(n.e))
    [] n.t = "fn" -> MkFn(n.n, [i \in 1..Len(n.p) |-> Canon(n.p[i])])
    [] OTHER -> n

RECURSIVE SelectNonBlank(_,_)
SelectNonBlank(ts, i) ==
  IF i > Len(ts) THEN <<>>
  ELSE (IF IsBlankText(ts[i]) THEN <<>> ELSE <<ts[i]>>) \o SelectNonBlank(ts, i + 1)

(* The meaning of a joined list of valid or blank texts: its conjunction,  *)
(* as a canonical tree; <<>> if everything is blank.                       *)
RECURSIVE ConjCanon(_,_)
ConjCanon(ts, i) ==
  IF i > Len(ts) THEN <<>> ELSE ChainOf(Read(ts[i]).v, "and") \o ConjCanon(ts, i + 1)
JoinMeaning(ts) ==
  LET q == SelectNonBlank(ts, 1) IN
  IF q = <<>> THEN <<>>
  ELSE IF Len(q) = 1 THEN <<Canon(Read(q[1]).v)>>
  ELSE <<[t |-> "chain", o |-> "and", xs |-> ConjCanon(q, 1)]>>

(* A join as the design does it. *)
RECURSIVE JoinFrom(_,_)
JoinFrom(q, i) ==
  IF i > Len(q) THEN <<>>
  ELSE (IF i > 1 THEN <<32>> \o W_and \o <<32>> ELSE <<>>) \o <<40>> \o q[i] \o <<41>> \o JoinFrom(q, i + 1)
JoinText(ts) ==
  LET q == SelectNonBlank(ts, 1) IN
  IF Len(ts) = 1 THEN (IF q = <<>> THEN <<>> ELSE q[1]) ELSE JoinFrom(q, 1)

(* ------------------------------- contents ------------------------------ *)
RECURSIVE Literals(_), LiteralsIn(_,_)
LiteralsIn(xs, i) == IF i > Len(xs) THEN <<>> ELSE Literals(xs[i]) \o LiteralsIn(xs, i + 1)
(* All scalar literals of a tree, in the order written. *)
Literals(n) ==
  CASE n.t \in {"int", "str", "bool", "null"} -> <<n>>
    [] n.t = "arr" -> LiteralsIn(n.a, 1)
    [] n.t = "fn" -> LiteralsIn(n.p, 1)
    [] n.t \in {"cmp", "log"} -> Literals(n.l) \o Literals(n.r)
    [] n.t = "prd" -> Literals(n.l)
    [] n.t = "btw" -> Literals(n.l) \o Literals(n.lo) \o Literals(n.hi)
    [] n.t \in {"par", "not"} -> Literals(n.e)
    [] OTHER -> <<>>

(* Children in visiting order; operators are nodes of their own. *)
OpNode(o) == [t |-> "op", o |-> o]
Children(n) ==
  CASE n.t = "arr" -> n.a
    [] n.t = "fn" -> n.p
    [] n.t \in {"cmp", "log"} -> <<n.l, OpNode(n.o), n.r>>
    [] n.t = "prd" -> <<n.l, OpNode(n.o)>>
    [] n.t = "btw" -> <<n.l, OpNode(n.o), n.lo, n.hi>>
    [] n.t \in {"par", "not"} -> <<n.e>>
    [] OTHER -> <<>>

RECURSIVE Size(_), SizeOf(_,_)
SizeOf(xs, i) == IF i > Len(xs) THEN 0 ELSE Size(xs[i]) + SizeOf(xs, i + 1)
Size(n) == 1 + SizeOf(Children(n), 1)
=============================================================================
