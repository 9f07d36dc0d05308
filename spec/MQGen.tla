-------------------------------- MODULE MQGen --------------------------------
(***************************************************************************)
(* The derivation machine.  It writes a query text left to right by the    *)
(* productions of the grammar and, at the same time, performs the stack    *)
(* operations the implementation attaches to them: operands are pushed,    *)
(* reductions pop their operands and push a node, marks remember where     *)
(* open lists began.  A behaviour ends with the complete text in out and   *)
(* its tree as the only element of stk.                                    *)
(*                                                                         *)
(* One step expands the leftmost nonterminal and settles everything that   *)
(* follows without a choice.  fuel bounds the optional parts.              *)
(*                                                                         *)
(* Checked on every reachable state: the stack discipline (no reduction    *)
(* without its operands, marks within the stack), and on every final one   *)
(* that the reference reader of MQGrammar, which knows no stack, reads the *)
(* text as the same tree, and that printing and reading it again keeps it. *)
(***************************************************************************)
EXTENDS MQTree, TLC, Json

CONSTANTS
  Names,       \* names to use, code point sequences
  Lits,        \* literals: set of <<text, tree>>
  Compares,    \* comparison operators: set of <<text, canonical name>>
  Logics,      \* logic operators, same form
  Matches,     \* postfix tests, same form
  Ranges,      \* range operators, same form
  Ins,         \* membership operators, same form
  Nots,        \* spellings of not
  Gaps,        \* separators where none is needed
  Gaps1,       \* separators where one is needed
  Features,    \* subset of AllFeatures
  MaxFuel,
  Emit         \* print the final states

AllFeatures == {"logic", "not", "cmp", "in", "match", "range", "paren", "lit", "list", "fn", "ref", "parlist", "bracket"}
ASSUME Features \subseteq AllFeatures

VARIABLES work, out, stk, marks, fuel, bad
vars == <<work, out, stk, marks, fuel, bad>>

(* ------------------------------- symbols ------------------------------- *)
N(n) == [y |-> "nt", n |-> n]
Tm(s) == [y |-> "tm", s |-> s]
Act(a) == [y |-> "act", a |-> a]
Push(v) == [y |-> "push", v |-> v]

(* An alternative: [c |-> cost, w |-> symbols]. *)
Alt(c, w) == [c |-> c, w |-> w]
If(f, alts) == IF f \in Features THEN alts ELSE {}

Alternatives(n) ==
  CASE n = "Gap" -> { Alt(0, <<Tm(g)>>) : g \in Gaps }
    [] n = "Gap1" -> { Alt(0, <<Tm(g)>>) : g \in Gaps1 }
    [] n = "Expr" -> { Alt(0, <<N("Not"), N("LogicMore")>>) }
    [] n = "LogicMore" -> { Alt(0, <<>>) } \cup If("logic",
         { Alt(1, <<N("Gap1"), Tm(o[1]), Push(OpNode(o[2])), N("Gap1"), N("Not"), Act("PopLogic"), N("LogicMore")>>) : o \in Logics })
    [] n = "Not" -> { Alt(0, <<N("Cmp")>>) } \cup If("not",
         { Alt(1, <<Tm(w), N("Gap1"), N("Cmp"), Act("PopNot")>>) : w \in Nots })
    [] n = "Cmp" -> { Alt(0, <<N("In"), N("CmpMore")>>) }
    [] n = "CmpMore" -> { Alt(0, <<>>) } \cup If("cmp",
         { Alt(1, <<N("Gap1"), Tm(o[1]), Push(OpNode(o[2])), N("Gap1"), N("In"), Act("PopCompare"), N("CmpMore")>>) : o \in Compares })
    [] n = "In" -> { Alt(0, <<N("Pred")>>) } \cup If("in",
         { Alt(1, <<N("Pred"), N("Gap1"), Tm(o[1]), Push(OpNode(o[2])), N("Gap"), N("List"), Act("PopCompare")>>) : o \in Ins })
    [] n = "Pred" -> { Alt(0, <<N("Range")>>) } \cup If("match",
         { Alt(1, <<N("Range"), N("Gap1"), Tm(o[1]), Push(OpNode(o[2])), Act("PopPredicate"), N("Gap")>>) : o \in Matches })
    [] n = "Range" -> { Alt(0, <<N("Prim")>>) } \cup If("range",
         { Alt(1, <<N("Prim"), N("Gap1"), Tm(o[1]), Push(OpNode(o[2])), N("Gap1")>>
                  \o b \o <<Act("PopBetween")>>) : o \in Ranges, b \in
             { <<N("Lit"), N("Gap1"), Tm(W_and), N("Gap1"), N("Lit")>> } \cup If("bracket",
             { <<Tm(<<91>>), N("Gap"), N("Lit"), N("Gap"), Tm(<<44>>), N("Gap"), N("Lit"), N("Gap"), Tm(<<93>>)>> }) })
    [] n = "Prim" ->
         { Alt(0, <<N("Name")>>) }
         \cup If("lit", { Alt(0, <<N("Lit")>>) })
         \cup If("list", { Alt(1, <<N("BracketList")>>) })
         \cup If("paren", { Alt(1, <<Tm(<<40>>), N("Gap"), N("Expr"), N("Gap"), Tm(<<41>>), Act("PopParentheses")>>) })
         \cup If("fn", { Alt(1, <<N("Name"), Tm(<<40>>), N("Gap"), Act("AddMark"), N("Args"), N("Gap"), Tm(<<41>>),
                                  Act("PopArray"), Act("PopFunction")>>) })
         \cup If("ref", { Alt(1, <<Act("AddMark"), N("Name"), Tm(<<46>>), N("Name"), N("RefMore"), Act("PopReference")>>) })
    [] n = "Name" -> { Alt(0, <<Tm(x), Push(MkId(x))>>) : x \in Names }
    [] n = "RefMore" -> { Alt(0, <<>>), Alt(1, <<Tm(<<46>>), N("Name"), N("RefMore")>>) }
    [] n = "Lit" -> { Alt(0, <<Tm(x[1]), Push(x[2])>>) : x \in Lits }
    [] n = "Args" -> { Alt(0, <<>>), Alt(0, <<N("Expr"), N("ArgsMore")>>) }
    [] n = "ArgsMore" -> { Alt(0, <<>>), Alt(1, <<N("Gap"), Tm(<<44>>)>>),
                           Alt(1, <<N("Gap"), Tm(<<44>>), N("Gap"), N("Expr"), N("ArgsMore")>>) }
    [] n = "BracketList" -> { Alt(0, <<Tm(<<91>>), Act("AddMark"), N("Gap"), N("Items"), N("Gap"), Tm(<<93>>), Act("PopArray")>>) }
    [] n = "List" -> { Alt(0, <<N("BracketList")>>) } \cup If("parlist",
           { Alt(0, <<Tm(<<40>>), Act("AddMark"), N("Gap"), N("Items"), N("Gap"), Tm(<<41>>), Act("PopArray")>>) })
    [] n = "Items" -> { Alt(0, <<>>), Alt(0, <<N("Lit"), N("ItemsMore")>>) }
    [] n = "ItemsMore" -> { Alt(0, <<>>), Alt(1, <<N("Gap"), Tm(<<44>>)>>),
                            Alt(1, <<N("Gap"), Tm(<<44>>), N("Gap"), N("Lit"), N("ItemsMore")>>) }

(* --------------------------- stack operations -------------------------- *)
(* [stk, marks, bad]: bad is set when an operation lacks its operands.     *)
Needs(a) == CASE a \in {"PopLogic", "PopCompare"} -> 3
              [] a = "PopBetween" -> 4
              [] a \in {"PopPredicate", "PopFunction"} -> 2
              [] a \in {"PopNot", "PopParentheses"} -> 1
              [] OTHER -> 0

Cut(s, k) == SubSeq(s, 1, Len(s) - k)
Top(s, k) == s[Len(s) - k]          \* k = 0 is the top

(* The operands of AND and OR are reduced left to right; AND takes over    *)
(* the right operand of an unparenthesised OR below it.                    *)
ReduceLogic(l, o, r) ==
  IF o = "and" /\ l.t = "log" /\ l.o = "or"
  THEN MkLog("or", l.l, MkLog("and", l.r, r))
  ELSE MkLog(o, l, r)

Do(a, s, m) ==
  LET base == IF m = <<>> THEN 0 ELSE m[Len(m)] IN
  CASE a = "AddMark" -> [stk |-> s, marks |-> Append(m, Len(s)), bad |-> FALSE]
    [] a = "PopArray" -> [stk |-> Append(SubSeq(s, 1, base), MkArr(SubSeq(s, base + 1, Len(s)))),
                          marks |-> Cut(m, 1), bad |-> m = <<>> \/ base > Len(s)]
    [] a = "PopReference" ->
         LET xs == SubSeq(s, base + 1, Len(s)) IN
         [stk |-> Append(SubSeq(s, 1, base), MkRef([i \in 1..Len(xs) |-> xs[i].n])),
          marks |-> Cut(m, 1), bad |-> m = <<>> \/ Len(xs) < 2]
    [] Len(s) - base < Needs(a) -> [stk |-> s, marks |-> m, bad |-> TRUE]
    [] a = "PopLogic" -> [stk |-> Append(Cut(s, 3), ReduceLogic(Top(s, 2), Top(s, 1).o, Top(s, 0))),
                          marks |-> m, bad |-> Top(s, 1).t # "op"]
    [] a = "PopCompare" -> [stk |-> Append(Cut(s, 3), MkCmp(Top(s, 1).o, Top(s, 2), Top(s, 0))),
                            marks |-> m, bad |-> Top(s, 1).t # "op"]
    [] a = "PopBetween" -> [stk |-> Append(Cut(s, 4), MkBtw(Top(s, 2).o, Top(s, 3), Top(s, 1), Top(s, 0))),
                            marks |-> m, bad |-> Top(s, 2).t # "op"]
    [] a = "PopPredicate" -> [stk |-> Append(Cut(s, 2), MkPrd(Top(s, 0).o, Top(s, 1))),
                              marks |-> m, bad |-> Top(s, 0).t # "op"]
    [] a = "PopNot" -> [stk |-> Append(Cut(s, 1), MkNot(Top(s, 0))), marks |-> m, bad |-> FALSE]
    [] a = "PopParentheses" -> [stk |-> Append(Cut(s, 1), MkPar(Top(s, 0))), marks |-> m, bad |-> FALSE]
    [] a = "PopFunction" -> [stk |-> Append(Cut(s, 2), MkFn(Top(s, 1).n, Top(s, 0).a)), marks |-> m,
                             bad |-> Top(s, 0).t # "arr" \/ Top(s, 1).t # "id"]

NonTerminals == {"Gap", "Gap1", "Expr", "LogicMore", "Not", "Cmp", "CmpMore", "In", "Pred", "Range", "Prim", "Name",
                 "RefMore", "Lit", "Args", "ArgsMore", "BracketList", "List", "Items", "ItemsMore"}
(* What is affordable with f fuel left, as a table. *)
Table == TLCEval([n \in NonTerminals |-> [f \in 0..MaxFuel |-> { a \in Alternatives(n) : a.c <= f }]])
Choices(n, f) == Table[n][f]

(* Perform everything at the head of w that involves no choice. *)
RECURSIVE Settle(_,_,_,_,_,_)
Settle(w, o, s, m, b, f) ==
  IF w = <<>> THEN [work |-> w, out |-> o, stk |-> s, marks |-> m, bad |-> b, fuel |-> f]
  ELSE CASE w[1].y = "tm" -> Settle(Tail(w), TLCEval(o \o w[1].s), s, m, b, f)
         [] w[1].y = "push" -> Settle(Tail(w), o, TLCEval(Append(s, w[1].v)), m, b, f)
         [] w[1].y = "act" -> LET r == TLCEval(Do(w[1].a, s, m)) IN Settle(Tail(w), o, r.stk, r.marks, b \/ r.bad, f)
         [] w[1].y = "nt" ->
              LET cs == Choices(w[1].n, f) IN
              IF Cardinality(cs) # 1 THEN [work |-> w, out |-> o, stk |-> s, marks |-> m, bad |-> b, fuel |-> f]
              ELSE LET a == CHOOSE x \in cs : TRUE IN Settle(TLCEval(a.w \o Tail(w)), o, s, m, b, f - a.c)

Init == /\ work = <<N("Gap"), N("Expr"), N("Gap")>>
        /\ out = <<>> /\ stk = <<>> /\ marks = <<>>
        /\ fuel = MaxFuel /\ bad = FALSE

Expand ==
  /\ work # <<>>
  /\ \E a \in Choices(work[1].n, fuel) :
       LET r == Settle(a.w \o Tail(work), out, stk, marks, bad, fuel - a.c) IN
       /\ work' = r.work /\ out' = r.out /\ stk' = r.stk
       /\ marks' = r.marks /\ bad' = r.bad /\ fuel' = r.fuel

Next == Expand
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
Done == work = <<>>
StackDiscipline ==
  /\ ~bad
  /\ \A i \in 1..Len(marks) : marks[i] <= Len(stk)
  /\ \A i \in 1..(Len(marks) - 1) : marks[i] <= marks[i + 1]
OneTree == Done => Len(stk) = 1 /\ marks = <<>>
Agreement == Done => LET r == Read(out) IN r.ok /\ r.v = stk[1]
RoundTrip == Done => LET r == Read(PrintTree(stk[1])) IN r.ok /\ r.v = stk[1]
JoinLaw ==
  Done => LET ts == <<out, <<32>>, out>>
              r == Read(JoinText(ts)) IN r.ok /\ <<Canon(r.v)>> = JoinMeaning(ts)
Emitted == (Done /\ Emit) => PrintT(ToJson([s |-> out, ast |-> stk[1]]))
=============================================================================
