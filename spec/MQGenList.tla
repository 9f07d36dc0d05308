------------------------------ MODULE MQGenList ------------------------------
(* Derivations with lists, calls and relation paths.                         *)
EXTENDS MQGen
cNames == { <<97>>, <<98,49>> }
cLits == { << <<49>>, MkInt(<<49>>) >>, << <<34,44,34>>, MkStr(<<44>>) >> }
cCompares == { << <<61>>, "eq" >> }
cLogics == { << W_or, "or" >> }
cMatches == {}
cRanges == {}
cIns == { << W_in, "in" >> }
cNots == {}
cGaps == { <<>>, <<32>> }
cGaps1 == { <<32>> }
cFeatures == {"logic", "cmp", "in", "lit", "list", "parlist", "fn", "ref"}
=============================================================================
