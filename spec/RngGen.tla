------------------------------- MODULE RngGen -------------------------------
(* Sessions of randomised computations: seeds given in every way, generators  *)
(* shared between calls, the global stream used by the caller in between.     *)
EXTENDS VLib, Json
CONSTANTS MaxOps, Fns
VARIABLES hist, done
R(S) == RandomElement(S)
Seeds == {1, 2, 5, 5, 42, 2019}
Call(z) == TLCEval([op |-> "call", fn |-> R(Fns), arg |-> R(1..2), how |-> R({"int", "int", "npint", "list", "seq", "gen", "gen", "bits", "none"}), seed |-> R(Seeds), g |-> R(1..2)])
Op(z) == LET c == R(1..10) IN
  CASE c <= 7 -> Call(z)
    [] c = 8 -> TLCEval([op |-> "global", seed |-> R(Seeds)])
    [] c = 9 -> TLCEval([op |-> "draw", n |-> R(1..5)])
    [] OTHER -> TLCEval([op |-> "remake", g |-> R(1..2), seed |-> R(Seeds)])
Start(z) == TLCEval([op |-> "start", seeds |-> [g \in 1..2 |-> R(Seeds)]])
GInit == hist = <<>> /\ done = FALSE
GNext == \/ hist = <<>> /\ hist' = <<Start(hist)>> /\ UNCHANGED done
         \/ Len(hist) > 0 /\ Len(hist) <= MaxOps /\ \E o \in {Op(hist)} : hist' = Append(hist, o) /\ UNCHANGED done
         \/ Len(hist) > MaxOps /\ ~done /\ done' = TRUE /\ PrintT(<<"BEH", ToJson(hist)>>) /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_<<hist, done>>
=============================================================================
