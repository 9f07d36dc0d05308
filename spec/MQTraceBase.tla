---------------------------- MODULE MQTraceBase ----------------------------
(***************************************************************************)
(* Recorded events of the real code.  The event file is read from the      *)
(* environment variable EVENTS, one JSON record per line, each with its    *)
(* kind k.  Events of stateless calls are independent, so they are         *)
(* consumed in Lanes parallel lanes: lane j takes events j, j+Lanes, ...   *)
(* A run is complete when every event was consumed: TLC then finds exactly *)
(* Len(Events) + Lanes distinct states.                                    *)
(*                                                                         *)
(* An event the specification does not explain is reported with the reason *)
(* and consumed, so that the rest of the file is examined too.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.EVENTS)
Lanes == 64

VARIABLE l     \* next event of a lane

TraceInit == l \in 1..Lanes

Report(v) == v = "ok" \/ PrintT(<<"VERDICT", l, v>>)

(* Consume the next event if it is of kind k and judge it. *)
IsEvent(k) == l <= Len(Events) /\ Events[l].k = k /\ l' = l + Lanes
Event == Events[l]
=============================================================================
