------------------------------ MODULE MQGenRows ------------------------------
(* Derivations of queries over numeric columns, to be run on a database:    *)
(* all operators.                                                           *)
EXTENDS MQGen
cNames == { T("i"), T("b") }
cLits == { << T("1"), MkInt(<<49>>) >>, << T("null"), MkNull >>, << T("false"), MkBool(FALSE) >> }
cCompares == { << T("="), "eq" >>, << T("<"), "lt" >>, << T(">"), "gt" >>, << T("<="), "lte" >>, << T(">="), "gte" >>,
               << T("<>"), "neq" >> }
cLogics == { << W_and, "and" >>, << W_or, "or" >> }
cMatches == { << T(x), x >> : x \in {"is null", "is not null", "is true", "is not true", "is false", "is not false"} }
cRanges == { << W_between, "between" >>, << T("not between"), "not between" >> }
cIns == { << T("in"), "in" >>, << T("not in"), "not in" >> }
cNots == { W_not }
cGaps == { <<>> }
cGaps1 == { <<32>> }
cFeatures == {"logic", "not", "cmp", "in", "match", "range", "paren", "lit"}
=============================================================================
