----------------------------- MODULE HistoryGen -----------------------------
(* Histories for replay: rounds of questions in random order, each round     *)
(* after one change of the model or of the configuration.                    *)
EXTENDS VLib, Json
CONSTANTS Rounds
VARIABLES c, k, todo, r, hist, done
gvars == <<c, k, todo, r, hist, done>>
H == INSTANCE History WITH Cfgs <- {0}, Models <- {0}, Bound <- 0, cfg <- 0, mod <- 0, fac <- 0, jst <- 0, dia <- 0, pool <- 0, ans <- 0, n <- 0
GInit == c = 0 /\ k = 0 /\ todo = H!Kinds /\ r = 0 /\ hist = <<[op |-> "model", k |-> 0]>> /\ done = FALSE
Ask == /\ todo # {} /\ \E q \in {RandomElement(todo)} :
         /\ todo' = todo \ {q} /\ hist' = Append(hist, [op |-> "query", kind |-> q, k |-> k])
       /\ UNCHANGED <<c, k, r, done>>
Change == /\ r < Rounds /\ Cardinality(todo) <= 3 /\ r' = r + 1 /\ todo' = H!Kinds
          /\ \/ \E kk \in {RandomElement((0..2) \ {k})} : \E how \in {"set", "implicit"} :
                  /\ k' = kk /\ c' = c
                  /\ hist' = IF how = "set" THEN Append(hist, [op |-> "model", k |-> kk]) ELSE hist
             \/ \E cc \in {RandomElement((0..2) \ {c})} :
                  k' = k /\ c' = cc /\ hist' = Append(hist, [op |-> "cfg", c |-> cc])
             \/ \E cc \in {RandomElement((0..2) \ {c})} : \E kk \in {RandomElement((0..2) \ {k})} :
                  k' = kk /\ c' = cc /\ hist' = hist \o <<[op |-> "model", k |-> kk], [op |-> "cfg", c |-> cc]>>
          /\ done' = FALSE
GNext == \/ Ask \/ Change
         \/ /\ r = Rounds /\ todo = {} /\ ~done /\ done' = TRUE /\ PrintT(<<"BEH", ToJson(hist)>>)
            /\ UNCHANGED <<c, k, todo, r, hist>>
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
