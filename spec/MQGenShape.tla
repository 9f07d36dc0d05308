----------------------------- MODULE MQGenShape -----------------------------
(* Derivations that vary the structure: nesting, operator sequences.        *)
EXTENDS MQGen
cNames == { <<97>> }
cLits == { << <<49>>, MkInt(<<49>>) >> }
cCompares == { << <<61>>, "eq" >> }
cLogics == { << W_and, "and" >>, << W_or, "or" >> }
cMatches == { << W_is \o <<32>> \o W_null, "is null" >> }
cRanges == { << W_between, "between" >> }
cIns == { << W_in, "in" >> }
cNots == { W_not }
cGaps == { <<>> }
cGaps1 == { <<32>> }
cFeatures == {"logic", "not", "cmp", "in", "match", "range", "bracket", "paren", "fn"}
=============================================================================
