---------------------------- MODULE MQGenRowsDeep ----------------------------
(* Deeper derivations of queries over a numeric column.                     *)
EXTENDS MQGen
cNames == { T("i") }
cLits == { << T("1"), MkInt(<<49>>) >> }
cCompares == { << T("="), "eq" >> }
cLogics == { << W_and, "and" >>, << W_or, "or" >> }
cMatches == { << T("is null"), "is null" >> }
cRanges == { << T("not between"), "not between" >> }
cIns == { << T("not in"), "not in" >> }
cNots == { W_not }
cGaps == { <<>> }
cGaps1 == { <<32>> }
cFeatures == {"logic", "not", "cmp", "in", "match", "range", "paren", "lit"}
=============================================================================
