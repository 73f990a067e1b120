------------------------------ MODULE PropsGen ------------------------------
EXTENDS VLib, Json
CONSTANTS Depth
VARIABLES hist, done
R(S) == RandomElement(S)
GInit == hist = <<>> /\ done = FALSE
Step(x) == hist' = Append(hist, x) /\ done' = FALSE
GOps == \/ \E p \in {R(1..3)}, side \in {R(1..2)}, e1 \in {R(0..6)}, e2 \in {R(0..6)}, u \in {R({TRUE, FALSE})}, sc \in {R(1..4)} :
             Step([op |-> "setv", p |-> p, side |-> side, e |-> IF sc = 1 THEN <<e1 - 3>> ELSE IF u THEN <<e1 - 3, e1 - 3>> ELSE <<e1 - 3, e2 - 3>>])
        \/ \E p \in {R(1..3)}, side \in {R(1..2)}, a \in {R(0..4)}, inv \in {R({TRUE, FALSE})} :
             Step([op |-> "setm", p |-> p, side |-> side, a |-> a - 2, inv |-> inv])
        \/ \E p \in {R(1..3)}, side \in {R(1..2)}, a \in {R(0..4)} :
             Step([op |-> "setm", p |-> p, side |-> side, a |-> a - 2, inv |-> FALSE])
        \/ \E p \in {R(1..3)}, side \in {R(1..2)} : Step([op |-> "nonev", p |-> p, side |-> side])
        \/ \E p \in {R(1..3)}, side \in {R(1..2)} : Step([op |-> "nonem", p |-> p, side |-> side])
        \/ \E p \in {R(1..3)}, side \in {R(1..2)} : Step([op |-> "badv", p |-> p, side |-> side])
        \/ \E p \in {R(1..3)}, side \in {R(1..2)} : Step([op |-> "badm", p |-> p, side |-> side])
        \/ \E m1 \in {R(0..6)}, m2 \in {R(0..6)}, u \in {R({TRUE, FALSE})} : Step([op |-> "model", m |-> IF u THEN <<m1 - 3, m1 - 3>> ELSE <<m1 - 3, m2 - 3>>])
        \/ \E m1 \in {R(0..6)} : Step([op |-> "model", m |-> <<m1 - 3, m1 - 3>>])
        \/ Step([op |-> "modelnone"])
        \/ Step([op |-> "badmodel"])
GNext == \/ Len(hist) < Depth /\ GOps
         \/ Len(hist) = Depth /\ ~done /\ done' = TRUE /\ PrintT(<<"BEH", ToJson(hist)>>) /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_<<hist, done>>
=============================================================================
