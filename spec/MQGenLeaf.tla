------------------------------ MODULE MQGenLeaf ------------------------------
(* Derivations that vary the leaves: every operator in every spelling, every *)
(* kind of literal, all kinds of separators, one or two optional parts.      *)
EXTENDS MQGen
cNames == { <<97>>, <<120,95,57,89>> }                 \* a, x_9Y
cLits == { << <<48>>, MkInt(<<48>>) >>,
           << MaxInt, MkInt(MaxInt) >>,
           << <<39,39>>, MkStr(<<>>) >>,
           << <<34,39,92,34>>, MkStr(<<39,92>>) >>,      \* "'\"
           << W_TRUE, MkBool(TRUE) >>,
           << W_false, MkBool(FALSE) >>,
           << W_NULL, MkNull >> }
GTE == <<71,84,69>>
Neq == <<78,101,113>>
LIKE == <<76,73,75,69>>
NoT == <<78,111,84>>
And == <<65,110,100>>
OR == <<79,82>>
cCompares == { << <<61>>, "eq" >>, << <<61,61>>, "eq" >>, << W_eq, "eq" >>,
               << <<33,61>>, "neq" >>, << <<60,62>>, "neq" >>, << Neq, "neq" >>,
               << <<62>>, "gt" >>, << W_gt, "gt" >>, << <<62,61>>, "gte" >>, << GTE, "gte" >>,
               << <<60>>, "lt" >>, << W_lt, "lt" >>, << <<60,61>>, "lte" >>, << W_lte, "lte" >>,
               << LIKE, "like" >>, << NoT \o <<9>> \o W_like, "not like" >>,
               << W_not \o <<45,45,10>> \o LIKE, "not like" >> }
cLogics == { << W_and, "and" >>, << And, "and" >>, << <<38,38>>, "and" >>,
             << W_or, "or" >>, << OR, "or" >>, << <<124,124>>, "or" >> }
cMatches == { << W_isnull, "is null" >>, << W_notnull, "is not null" >>,
              << W_is \o <<32>> \o W_null, "is null" >>, << W_is \o <<10>> \o W_true, "is true" >>,
              << W_is \o <<32>> \o W_false, "is false" >>,
              << W_is \o <<32>> \o W_not \o <<13,10>> \o W_null, "is not null" >>,
              << W_is \o <<47,47,120,10>> \o W_not \o <<32>> \o W_true, "is not true" >>,
              << W_is \o <<32>> \o W_not \o <<32>> \o W_false, "is not false" >> }
cRanges == { << W_between, "between" >>, << W_not \o <<32>> \o W_between, "not between" >>,
             << NoT \o <<45,45,120,13>> \o W_between, "not between" >> }
cIns == { << W_in, "in" >>, << <<73,78>>, "in" >>, << W_not \o <<32>> \o W_in, "not in" >>,
          << NoT \o <<9>> \o <<105,78>>, "not in" >> }
cNots == { W_not, NoT }
cGaps == { <<>> }
cGaps1 == { <<32>>, <<45,45,39,10>> }                   \* blank, --'\n
cFeatures == {"logic", "not", "cmp", "in", "match", "range", "bracket", "lit"}
=============================================================================
