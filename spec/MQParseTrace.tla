---------------------------- MODULE MQParseTrace ----------------------------
(***************************************************************************)
(* Recorded calls of the parser, the printer and the joiner.               *)
(* A parse result is [r |-> "ok", ast] or [r |-> "err"], or one of the     *)
(* outcomes that never are allowed: "both" a tree and an error, "neither", *)
(* "panic", "crash" (the process died) and "hang".                         *)
(***************************************************************************)
EXTENDS MQTree, MQTraceBase

Strange(r) == r \notin {"ok", "err"}

(* C01: a text of the language gives the tree it denotes. *)
JudgeTree(e) ==
  LET d == Read(e.s) IN
  IF ~d.ok THEN "skip: not in the language"
  ELSE IF e.r # "ok" THEN "not accepted: " \o e.r
  ELSE IF e.ast = d.v THEN "ok" ELSE "different tree"
OnParse == IsEvent("parse") /\ Report(JudgeTree(Event))

(* C02: accepted exactly if in the language, error xor tree. *)
JudgeAccept(e) ==
  IF Strange(e.r) THEN e.r
  ELSE LET d == Read(e.s) IN
       IF d.ok /\ e.r = "err" THEN "rejected"
       ELSE IF ~d.ok /\ e.r = "ok" THEN "accepted"
       ELSE "ok"
OnAccept == IsEvent("accept") /\ Report(JudgeAccept(Event))

(* C02 for bytes that are no text: s has U+FFFD for them.  They may be     *)
(* rejected anywhere, and are accepted in strings and comments at most.    *)
JudgeBytes(e) ==
  IF Strange(e.r) THEN e.r
  ELSE IF e.r = "ok" /\ ~Read(e.s).ok THEN "accepted" ELSE "ok"
OnBytes == IsEvent("bytes") /\ Report(JudgeBytes(Event))

(* C02 for texts too large to read here: a family of texts with parameter  *)
(* n, whose tree is known by construction.  The event carries measures of  *)
(* the tree: nodes, height, and length of the longest string, name or path.*)
(* A member may be rejected only if it is larger than anyone would write.  *)
AlwaysAccepted == 1000
ScaleMeasure(f, n) ==       \* <<in the language, nodes, height, longest>>
  CASE f = "parens"   -> <<TRUE,  n + 4, n + 2, 1>>       \* (((a=1)))
    [] f = "openonly" -> <<FALSE, 0, 0, 0>>               \* (((a=1
    [] f = "closeonly"-> <<FALSE, 0, 0, 0>>               \* a=1)))
    [] f = "brackets" -> <<n = 1, 2, 2, 1>>               \* [[[1]]]
    [] f = "calls"    -> <<TRUE,  n + 1, n + 1, 1>>       \* f(f(f(a)))
    [] f = "callsopen"-> <<FALSE, 0, 0, 0>>               \* f(f(f(a
    [] f = "ands"     -> <<TRUE,  6 * n + 4, n + 2, 1>>   \* a=1 and a=1 and a=1
    [] f = "ors"      -> <<TRUE,  6 * n + 4, n + 2, 1>>
    [] f = "mixed"    -> <<TRUE,  12 * n + 4, n + 3, 1>>  \* a=1 or a=1 and a=1 or a=1 and a=1
    [] f = "list"     -> <<TRUE,  n + 4, 3, 1>>           \* a in [1,1,1]
    [] f = "args"     -> <<TRUE,  n + 1, 2, 1>>           \* f(a,a,a)
    [] f = "string"   -> <<TRUE,  4, 2, n>>               \* a='xxx'
    [] f = "stropen"  -> <<FALSE, 0, 0, 0>>               \* a='xxx
    [] f = "name"     -> <<TRUE,  4, 2, n>>               \* xxx=1
    [] f = "path"     -> <<TRUE,  4, 2, n>>               \* a.a.a=1
    [] f = "blanks"   -> <<TRUE,  4, 2, 1>>               \* a=   1
    [] f = "comment"  -> <<TRUE,  4, 2, 1>>               \* a= --xxx\n 1
    [] f = "comments" -> <<TRUE,  4, 2, 1>>               \* a= --\n--\n 1
    [] f = "cmtopen"  -> <<FALSE, 0, 0, 0>>               \* a=1 --xxx
    [] f = "digits"   -> <<n <= 19, 4, 2, 1>>             \* a=1111
    [] f = "compares" -> <<TRUE,  3 * n + 1, n + 1, 1>>   \* a=a=a
    [] f = "nots"     -> <<n <= 1, 2, 2, 1>>              \* not not a
    [] f = "garbage"  -> <<FALSE, 0, 0, 0>>               \* a=1 ;;;
    [] f = "quotedparens" -> <<TRUE, 4, 2, n>>            \* a='((('
    [] f = "cmtparens"    -> <<TRUE, 4, 2, 1>>            \* a= --(((\n 1
JudgeScale(e) ==
  LET m == ScaleMeasure(e.f, e.n) IN
  IF Strange(e.r) THEN e.r
  ELSE IF e.r = "ok" THEN
       IF ~m[1] THEN "accepted"
       ELSE IF m[2] # e.nodes \/ m[3] # e.height \/ m[4] # e.longest THEN "incomplete tree"
       ELSE "ok"
  ELSE IF m[1] /\ e.n <= AlwaysAccepted THEN "rejected" ELSE "ok"
OnScale == IsEvent("scale") /\ Report(JudgeScale(Event))

(* C03: several spellings of one query.  The reader itself says whether    *)
(* the generator kept its promise that they are the same query.            *)
JudgeVariants(e) ==
  LET d == Read(e.ss[1]) IN
  IF ~d.ok \/ \E i \in 2..Len(e.ss) : LET x == Read(e.ss[i]) IN ~x.ok \/ x.v # d.v THEN "gen: not variants"
  ELSE IF \E i \in 1..Len(e.rs) : e.rs[i].r # "ok" THEN "spelling not accepted"
  ELSE IF \E i \in 1..Len(e.rs) : e.rs[i].ast # d.v THEN "spelling changes the tree"
  ELSE "ok"
OnVariants == IsEvent("variants") /\ Report(JudgeVariants(Event))

(* C03: the name NormalizeOperation gives to spelling ss[1] of an operator *)
(* that is followed by ss[2] in a query, and to that name again.           *)
JudgeNorm(e) ==
  LET d == Read(T("a ") \o e.ss[1] \o T(" ") \o e.ss[2]) IN
  IF ~d.ok \/ d.v.t \notin {"cmp", "log", "prd", "btw"} THEN "gen: no operator"
  ELSE IF e.r # "ok" THEN e.r
  ELSE IF e.o # d.v.o THEN "other name for an operator"
  ELSE IF e.again # e.o THEN "the name has another name" ELSE "ok"
OnNorm == IsEvent("norm") /\ Report(JudgeNorm(Event))

(* C04: text s parsed to ast, printed as b, which parsed to ast2 and was   *)
(* printed as b2.                                                          *)
JudgeBuild(e) ==
  IF e.r # "ok" THEN "ok"
  ELSE IF e.br # "ok" THEN "printing: " \o e.br
  ELSE IF e.r2 # "ok" THEN "printed text not accepted: " \o e.r2
  ELSE IF e.ast2 # e.ast THEN "printed text gives a different tree"
  ELSE IF e.b2 # e.b THEN "printing is not stable"
  ELSE LET d == Read(e.b) IN
       IF ~d.ok THEN "printed text is not in the language"
       ELSE IF d.v # e.ast THEN "printed text denotes a different tree" ELSE "ok"
OnBuild == IsEvent("build") /\ Report(JudgeBuild(Event))

(* C05: list ss joined to text j, which parsed to ast. *)
JudgeJoin(e) ==
  LET q == SelectNonBlank(e.ss, 1)
      m == JoinMeaning(e.ss) IN
  IF \E i \in 1..Len(q) : ~Read(q[i]).ok THEN "skip: entry not in the language"
  ELSE IF e.jr # "ok" THEN "joining: " \o e.jr
  ELSE IF m = <<>> THEN IF e.j = <<>> THEN "ok" ELSE "blanks give text"
  ELSE LET d == Read(e.j) IN
       IF ~d.ok THEN "joined text is not in the language"
       ELSE IF Canon(d.v) # m[1] THEN "joined text means something else"
       ELSE IF e.r # "ok" THEN "joined text not accepted: " \o e.r
       ELSE IF Canon(e.ast) # m[1] THEN "joined text parses to something else"
       ELSE "ok"
OnJoin == IsEvent("join") /\ Report(JudgeJoin(Event))

TraceNext == OnParse \/ OnAccept \/ OnBytes \/ OnScale \/ OnVariants \/ OnNorm \/ OnBuild \/ OnJoin
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
