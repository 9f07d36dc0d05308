------------------------------- MODULE MQSql -------------------------------
(***************************************************************************)
(* SQL conditions: text with placeholders, and the arguments bound to them.*)
(* The reader knows the operator ranks of the three dialects, so a missing *)
(* pair of parentheses shows as a different expression or as an error.     *)
(***************************************************************************)
EXTENDS MQSem

Dialects == {"sqlite", "mysql", "postgres"}

(* -------------------------------- tokens ------------------------------- *)
(* k: "word" w (lower case) raw | "name" n (quoted) | "ph" i | "sym" s |   *)
(*    "lit" (a number or text in the SQL itself) | "odd"                   *)
Word(raw) == [k |-> "word", w |-> LowerSeq(raw), raw |-> raw]
Quoted(n, q) == [k |-> "name", n |-> n, q |-> q]
Ph(i) == [k |-> "ph", i |-> i]
Sym(s) == [k |-> "sym", s |-> s]
LitTok == [k |-> "lit"]
Odd == [k |-> "odd"]
End == [k |-> "end"]

(* Position of the closing quote, a doubled quote is a character. *)
RECURSIVE QuoteEnd(_,_,_)
QuoteEnd(s, i, q) ==
  LET e == FindFrom(s, i, q) IN
  IF e = 0 THEN 0 ELSE IF At(s, e + 1) = q THEN QuoteEnd(s, e + 2, q) ELSE e

RECURSIVE Undouble(_,_,_)
Undouble(s, i, q) ==
  IF i > Len(s) THEN <<>>
  ELSE <<s[i]>> \o Undouble(s, IF s[i] = q /\ At(s, i + 1) = q THEN i + 2 ELSE i + 1, q)

RECURSIVE Number(_,_,_)
Number(s, i, acc) == IF i > Len(s) THEN acc ELSE Number(s, i + 1, acc * 10 + (s[i] - 48))

TwoSym == [c \in {<<60,61>>, <<62,61>>, <<60,62>>, <<33,61>>, <<61,61>>, <<58,58>>} |->
            CASE c = <<60,61>> -> "<=" [] c = <<62,61>> -> ">=" [] c = <<60,62>> -> "<>"
              [] c = <<33,61>> -> "<>" [] c = <<61,61>> -> "=" [] c = <<58,58>> -> "::"]
OneSym == [c \in {40, 41, 44, 46, 60, 62, 61} |->
            CASE c = 40 -> "(" [] c = 41 -> ")" [] c = 44 -> "," [] c = 46 -> "."
              [] c = 60 -> "<" [] c = 62 -> ">" [] c = 61 -> "="]

(* One token at i: <<position after it, token>>.  ph counts placeholders.  *)
TokenAt(s, i, d, ph) ==
  LET c == s[i]  two == <<c, At(s, i + 1)>> IN
  IF c = 63 THEN <<i + 1, IF d = "postgres" THEN Odd ELSE Ph(ph + 1)>>
  ELSE IF c = 36 THEN
    LET e == DigitEnd(s, i + 1) IN
    IF d # "postgres" \/ e = i + 1 \/ e > i + 6 THEN <<Len(s) + 1, Odd>>
    ELSE <<e, Ph(Number(SubSeq(s, i + 1, e - 1), 1, 0))>>
  ELSE IF c = 34 \/ c = 96 THEN
    LET e == QuoteEnd(s, i + 1, c) IN
    IF e = 0 THEN <<Len(s) + 1, Odd>>
    ELSE IF c = 34 /\ d = "mysql" THEN <<e + 1, LitTok>>
    ELSE IF c = 96 /\ d = "postgres" THEN <<e + 1, Odd>>
    ELSE <<e + 1, Quoted(Undouble(SubSeq(s, i + 1, e - 1), 1, c), c)>>
  ELSE IF c = 39 THEN LET e == QuoteEnd(s, i + 1, c) IN <<IF e = 0 THEN Len(s) + 1 ELSE e + 1, LitTok>>
  ELSE IF IsDigit(c) THEN <<WordEnd(s, i), LitTok>>
  ELSE IF IsAlpha(c) \/ c = 95 THEN LET e == WordEnd(s, i) IN <<e, Word(SubSeq(s, i, e - 1))>>
  ELSE IF two \in DOMAIN TwoSym THEN <<i + 2, Sym(TwoSym[two])>>
  ELSE IF c \in DOMAIN OneSym THEN <<i + 1, Sym(OneSym[c])>>
  ELSE <<Len(s) + 1, Odd>>

RECURSIVE TokensFrom(_,_,_,_,_)
TokensFrom(s, i, d, ph, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF IsBlank(s[i]) THEN TokensFrom(s, i + 1, d, ph, acc)
  ELSE LET r == TLCEval(TokenAt(s, i, d, ph)) IN
       TokensFrom(s, r[1], d, IF r[2].k = "ph" THEN ph + 1 ELSE ph, TLCEval(Append(acc, r[2])))
Tokens(s, d) == TokensFrom(s, 1, d, 0, <<>>)

(* The placeholders in text order. *)
Placeholders(ts) == LET p == SelectSeq(ts, LAMBDA t : t.k = "ph") IN [i \in 1..Len(p) |-> p[i].i]

(* No literal in the text itself: no number or string, TRUE and FALSE only *)
(* after IS [NOT].  NULL is a keyword of the tests, and a form of the      *)
(* literal that cannot carry anything.                                     *)
S_is == T("is")  S_not == T("not")  S_true == T("true")  S_false == T("false")  S_null == T("null")
S_and == T("and")  S_or == T("or")  S_in == T("in")  S_like == T("like")  S_between == T("between")
S_exists == T("exists")  S_select == T("select")  S_cast == T("cast")  S_as == T("as")

IsW(t, w) == t.k = "word" /\ t.w = w
TokAt(ts, i) == IF i >= 1 /\ i <= Len(ts) THEN ts[i] ELSE End
AfterIs(ts, i) == IsW(TokAt(ts, i - 1), S_is) \/ (IsW(TokAt(ts, i - 1), S_not) /\ IsW(TokAt(ts, i - 2), S_is))
InlineLiteral(ts) ==
  \E i \in 1..Len(ts) : \/ ts[i].k \in {"lit", "odd"}
                        \/ (IsW(ts[i], S_true) \/ IsW(ts[i], S_false)) /\ ~AfterIs(ts, i)

(* -------------------------------- reader ------------------------------- *)
(* Results: [p |-> index after, x |-> expression]; p = 0 if unreadable.    *)
(* Ranks between NOT and the operands, weakest first; each is a set of     *)
(* operator kinds, and whether operators of the rank can be chained.       *)
Ranks == [
  sqlite   |-> << [s |-> {"eq", "isnull", "istruth", "in", "like", "between"}, chain |-> TRUE], [s |-> {"rel"}, chain |-> TRUE] >>,
  mysql    |-> << [s |-> {"istruth"}, chain |-> FALSE], [s |-> {"eq", "rel", "isnull"}, chain |-> TRUE],
                  [s |-> {"in", "like", "between"}, chain |-> FALSE] >>,
  postgres |-> << [s |-> {"isnull", "istruth"}, chain |-> FALSE], [s |-> {"eq", "rel"}, chain |-> FALSE],
                  [s |-> {"in", "like", "between"}, chain |-> FALSE] >> ]

Fail == [p |-> 0]
IsS(t, s) == t.k = "sym" /\ t.s = s

(* The operator at i: kind, canonical name, negated, index after; kind ""  *)
OpAt(ts, i) ==
  LET t == TokAt(ts, i)  neg == IsW(t, S_not)  u == TokAt(ts, IF neg THEN i + 1 ELSE i)
      after == IF neg THEN i + 2 ELSE i + 1
      op(k, o) == [k |-> k, o |-> o, neg |-> neg, p |-> after]
      none == [k |-> "", o |-> "", neg |-> FALSE, p |-> i] IN
  IF t.k = "sym" THEN
    CASE t.s = "=" -> op("eq", "eq") [] t.s = "<>" -> op("eq", "neq")
      [] t.s = "<" -> op("rel", "lt") [] t.s = "<=" -> op("rel", "lte")
      [] t.s = ">" -> op("rel", "gt") [] t.s = ">=" -> op("rel", "gte")
      [] OTHER -> none
  ELSE IF t.k # "word" THEN none
  ELSE IF IsW(t, S_is) THEN
    LET n == IsW(TokAt(ts, i + 1), S_not)  v == TokAt(ts, IF n THEN i + 2 ELSE i + 1)
        a == IF n THEN i + 3 ELSE i + 2
        is(k, o) == [k |-> k, o |-> o, neg |-> n, p |-> a] IN
    IF IsW(v, S_null) THEN is("isnull", "null")
    ELSE IF IsW(v, S_true) THEN is("istruth", "true")
    ELSE IF IsW(v, S_false) THEN is("istruth", "false")
    ELSE none
  ELSE IF IsW(t, T("isnull")) THEN op("isnull", "null")
  ELSE IF IsW(t, T("notnull")) THEN [op("isnull", "null") EXCEPT !.neg = TRUE]
  ELSE IF IsW(u, S_in) THEN op("in", "in")
  ELSE IF IsW(u, S_like) THEN op("like", "like")
  ELSE IF IsW(u, S_between) THEN op("between", "between")
  ELSE none

Neg(n, x) == IF n THEN XNot(x) ELSE x

RECURSIVE SOr(_,_,_,_), SOrMore(_,_,_,_,_), SAnd(_,_,_,_), SAndMore(_,_,_,_,_), SNot(_,_,_,_), SRank(_,_,_,_,_), SRankMore(_,_,_,_,_,_),
          SPrimary(_,_,_,_), SList(_,_,_,_,_), SPath(_,_,_), SCasts(_,_)

(* d: dialect, vs: the value of every placeholder number *)
SOr(ts, i, d, vs) == LET l == SAnd(ts, i, d, vs) IN IF l.p = 0 THEN Fail ELSE SOrMore(ts, l.p, d, vs, l.x)
SOrMore(ts, i, d, vs, x) ==
  IF ~IsW(TokAt(ts, i), S_or) THEN [p |-> i, x |-> x]
  ELSE LET r == SAnd(ts, i + 1, d, vs) IN IF r.p = 0 THEN Fail ELSE SOrMore(ts, r.p, d, vs, TLCEval(XTwo("or", x, r.x)))
SAnd(ts, i, d, vs) == LET l == SNot(ts, i, d, vs) IN IF l.p = 0 THEN Fail ELSE SAndMore(ts, l.p, d, vs, l.x)
SAndMore(ts, i, d, vs, x) ==
  IF ~IsW(TokAt(ts, i), S_and) THEN [p |-> i, x |-> x]
  ELSE LET r == SNot(ts, i + 1, d, vs) IN IF r.p = 0 THEN Fail ELSE SAndMore(ts, r.p, d, vs, TLCEval(XTwo("and", x, r.x)))
SNot(ts, i, d, vs) ==
  IF IsW(TokAt(ts, i), S_not)
  THEN LET r == SNot(ts, i + 1, d, vs) IN IF r.p = 0 THEN Fail ELSE [p |-> r.p, x |-> XNot(r.x)]
  ELSE SRank(ts, i, d, vs, 1)

SRank(ts, i, d, vs, k) ==
  IF k > Len(Ranks[d]) THEN SPrimary(ts, i, d, vs)
  ELSE LET l == SRank(ts, i, d, vs, k + 1) IN IF l.p = 0 THEN Fail ELSE SRankMore(ts, l.p, d, vs, k, l.x)

SRankMore(ts, i, d, vs, k, x) ==
  LET o == OpAt(ts, i)  rank == Ranks[d][k]
      more(r) == IF r.p = 0 THEN Fail
                 ELSE IF rank.chain THEN SRankMore(ts, r.p, d, vs, k, TLCEval(r.x))
                 ELSE IF OpAt(ts, r.p).k \in rank.s THEN Fail ELSE r IN
  IF o.k \notin rank.s THEN [p |-> i, x |-> x]
  ELSE CASE o.k \in {"isnull", "istruth"} -> more([p |-> o.p, x |-> Neg(o.neg, XIs(o.o, x))])
         [] o.k \in {"eq", "rel", "like"} ->
              LET r == SRank(ts, o.p, d, vs, k + 1) IN
              IF r.p = 0 THEN Fail ELSE more([p |-> r.p, x |-> Neg(o.neg, XCompare(o.o, x, r.x))])
         [] o.k = "in" ->
              LET r == IF IsS(TokAt(ts, o.p), "(") THEN SList(ts, o.p + 1, d, vs, <<>>) ELSE Fail IN
              \* only SQLite accepts an empty list
              IF r.p = 0 \/ (r.a = <<>> /\ d # "sqlite") THEN Fail ELSE more([p |-> r.p, x |-> Neg(o.neg, XIn(x, r.a))])
         [] o.k = "between" ->
              LET lo == SRank(ts, o.p, d, vs, k + 1)
                  hi == IF lo.p = 0 \/ ~IsW(TokAt(ts, lo.p), S_and) THEN Fail ELSE SRank(ts, lo.p + 1, d, vs, k + 1) IN
              IF hi.p = 0 THEN Fail ELSE more([p |-> hi.p, x |-> Neg(o.neg, XBetween(x, lo.x, hi.x))])

(* The elements up to a closing parenthesis. *)
SList(ts, i, d, vs, acc) ==
  IF IsS(TokAt(ts, i), ")") THEN (IF acc = <<>> THEN [p |-> i + 1, a |-> <<>>] ELSE Fail)
  ELSE LET e == SOr(ts, i, d, vs) IN
       IF e.p = 0 THEN Fail
       ELSE IF IsS(TokAt(ts, e.p), ")") THEN [p |-> e.p + 1, a |-> Append(acc, e.x)]
       ELSE IF IsS(TokAt(ts, e.p), ",") THEN SList(ts, e.p + 1, d, vs, TLCEval(Append(acc, e.x)))
       ELSE Fail

SPath(ts, i, acc) ==
  IF IsS(TokAt(ts, i), ".") /\ TokAt(ts, i + 1).k \in {"name", "word"}
  THEN LET t == ts[i + 1] IN SPath(ts, i + 2, Append(acc, IF t.k = "name" THEN t.n ELSE t.raw))
  ELSE [p |-> i, x |-> XCol(acc)]

(* Casts after an operand do not change what it is. *)
SCasts(ts, r) ==
  IF r.p # 0 /\ IsS(TokAt(ts, r.p), "::") /\ TokAt(ts, r.p + 1).k = "word"
  THEN SCasts(ts, [p |-> IF IsW(TokAt(ts, r.p + 1), T("double")) /\ IsW(TokAt(ts, r.p + 2), T("precision")) THEN r.p + 3 ELSE r.p + 2,
                   x |-> r.x])
  ELSE r

SPrimary(ts, i, d, vs) ==
  LET t == TokAt(ts, i) IN
  SCasts(ts,
    CASE t.k = "ph" -> IF t.i \in DOMAIN vs THEN [p |-> i + 1, x |-> XVal(vs[t.i])] ELSE Fail
      [] t.k = "name" -> SPath(ts, i + 1, <<t.n>>)
      [] t.k = "sym" ->
           IF t.s # "(" THEN Fail
           ELSE LET r == SList(ts, i + 1, d, vs, <<>>) IN
                IF r.p = 0 THEN Fail ELSE [p |-> r.p, x |-> IF Len(r.a) = 1 THEN r.a[1] ELSE XList(r.a)]
      [] t.k = "word" ->
           IF IsW(t, S_null) THEN [p |-> i + 1, x |-> XVal(MkNull)]
           ELSE IF IsW(t, S_true) THEN [p |-> i + 1, x |-> XTrue]
           ELSE IF IsW(t, S_false) THEN [p |-> i + 1, x |-> XFalse]
           ELSE IF IsW(t, S_exists) \/ IsW(t, S_select) THEN Fail
           ELSE IF IsW(t, S_cast) /\ IsS(TokAt(ts, i + 1), "(") THEN
             LET e == SOr(ts, i + 2, d, vs) IN
             IF e.p # 0 /\ IsW(TokAt(ts, e.p), S_as) /\ TokAt(ts, e.p + 1).k = "word" /\ IsS(TokAt(ts, e.p + 2), ")")
             THEN [p |-> e.p + 3, x |-> e.x] ELSE Fail
           ELSE IF IsS(TokAt(ts, i + 1), "(") THEN
             LET r == SList(ts, i + 2, d, vs, <<>>) IN IF r.p = 0 THEN Fail ELSE [p |-> r.p, x |-> XFn(t.w, r.a)]
           ELSE SPath(ts, i + 1, <<t.raw>>)
      [] OTHER -> Fail)

(* A condition and its arguments: [ok |-> TRUE, x |-> expression]. *)
ReadSql(ts, d, vs) ==
  LET r == SOr(ts, 1, d, vs) IN
  IF r.p = Len(ts) + 1 THEN [ok |-> TRUE, x |-> r.x] ELSE [ok |-> FALSE]
=============================================================================
