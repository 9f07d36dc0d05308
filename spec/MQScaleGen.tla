----------------------------- MODULE MQScaleGen -----------------------------
(***************************************************************************)
(* All small members of the families; their measures are those Measure     *)
(* extrapolates.  Prints the families for the harness.                     *)
(***************************************************************************)
EXTENDS MQScale, Json

CONSTANTS Last, Emit
VARIABLES f, n
vars == <<f, n>>

Init == f \in DOMAIN Families /\ n = 1
Next == n < Last /\ n' = n + 1 /\ f' = f
Spec == Init /\ [][Next]_vars

Linear == MeasureOf(Member(f, n)) = Measure(f, n)
(* The printed member has the measures of the member. *)
Printed == LET d == Read(Member(f, n)) IN d.ok => MeasureOf(PrintTree(d.v)) = MeasureOf(Member(f, n))
Emitted == Emit /\ n = 1 => PrintT(ToJson([f |-> f, pre |-> Families[f].pre, a |-> Families[f].a, mid |-> Families[f].mid,
                                           b |-> Families[f].b, post |-> Families[f].post]))
=============================================================================
