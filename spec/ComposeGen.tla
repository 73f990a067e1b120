----------------------------- MODULE ComposeGen -----------------------------
(* Survey selections for replay: a random choice and order of sources and of *)
(* receivers, and for every receiver a part of its locations, times and      *)
(* components.  Numbers are taken modulo what the real survey offers.        *)
EXTENDS VLib, Json
CONSTANTS MaxSrc, MaxRx
VARIABLES hist, done
gvars == <<hist, done>>
P == {"all", "rev", "first", "last", "tail"}
RxRec(z) == [r |-> RandomElement(1..MaxRx), pl |-> RandomElement(P), pt |-> RandomElement({"all", "all", "rev", "first", "tail"}), pc |-> RandomElement({"all", "rev", "last"})]
GInit == hist = <<>> /\ done = FALSE
NewSrc == Len(hist) < MaxSrc /\ \E s \in {RandomElement(1..MaxSrc)} : hist' = Append(hist, [s |-> s, rx |-> <<>>]) /\ done' = FALSE
NewRx == Len(hist) > 0 /\ Len(hist[Len(hist)].rx) < MaxRx /\ \E x \in {RxRec(hist)} : hist' = [hist EXCEPT ![Len(hist)].rx = Append(@, x)] /\ done' = FALSE
Emit == Len(hist) > 0 /\ (\A i \in 1..Len(hist) : Len(hist[i].rx) > 0) /\ ~done /\ done' = TRUE /\ PrintT(<<"BEH", ToJson(hist)>>) /\ UNCHANGED hist
GNext == NewSrc \/ NewRx \/ Emit
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
