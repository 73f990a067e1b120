----------------------------- MODULE TraceLib -----------------------------
(* Walking a recorded trace with a total verdict: every line is consumed,   *)
(* the clauses a line breaks are collected, and the collection is written   *)
(* out when the last line has been judged.                                  *)
EXTENDS VLib, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES l, bad

TraceVarsInit == l = 1 /\ bad = <<>>
Flag(clauses) == bad' = bad \o [i \in 1..Len(clauses) |-> [l |-> l, c |-> clauses[i]]]
Line == Trace[l]
ExcClauses(e) == <<"unexpected-" \o e.type>>
Consume == l <= Len(Trace) /\ l' = l + 1

TraceReport == (l <= Len(Trace)) \/ JsonSerialize(IOEnv.VERDICT_FILE, bad)
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
