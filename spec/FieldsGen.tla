------------------------------ MODULE FieldsGen ------------------------------
EXTENDS VLib, Json
CONSTANTS Depth, Timed
VARIABLES hist, done
R(S) == RandomElement(S)
Names == {"a", "b"}
Step(x) == hist' = Append(hist, x) /\ done' = FALSE
\* how the sources are named, and which; times likewise (1-based)
SrcSel(z) == LET q == R(1..6) IN CASE q = 1 -> [k |-> "one", s |-> <<R(1..3)>>]
              [] q = 2 -> [k |-> "list", s |-> R({<<1, 2>>, <<2, 1>>, <<3, 1>>, <<2, 3>>, <<3, 2, 1>>, <<2, 1, 3>>})]
              [] q = 3 -> [k |-> "list", s |-> <<R(1..3)>>]
              [] q = 4 -> [k |-> "slice", s |-> R({<<1, 2>>, <<2, 3>>, <<2>>, <<3, 2, 1>>, <<1, 3>>})]
              [] q = 5 -> [k |-> "all", s |-> <<1, 2, 3>>]
              [] q = 6 -> [k |-> "list", s |-> R({<<1, 1>>, <<2, 1, 2>>, <<3, 1>>})]
TimeSel(z) == IF ~Timed THEN [k |-> "none", s |-> <<1>>] ELSE
           LET q == R(1..5) IN CASE q = 1 -> [k |-> "int", s |-> <<R(1..4)>>]
              [] q = 2 -> [k |-> "slice", s |-> R({<<1, 2>>, <<2, 3, 4>>, <<1, 3>>, <<4, 3, 2, 1>>})]
              [] q = 3 -> [k |-> "slice", s |-> <<R(1..4)>>]
              [] q = 4 -> [k |-> "all", s |-> <<1, 2, 3, 4>>]
              [] q = 5 -> [k |-> "neg", s |-> <<R(1..4)>>]
GOps == \/ \E nm \in {R(Names)}, ss \in {SrcSel(hist)}, ts \in {TimeSel(hist)}, h \in {R(1..6)} : Step([op |-> "set", name |-> nm, ss |-> ss, ts |-> ts, how |-> h])
        \/ \E nm \in {R({"a", "b", "d"})}, ss \in {SrcSel(hist)}, ts \in {TimeSel(hist)} : Step([op |-> "get", name |-> nm, ss |-> ss, ts |-> ts])
        \/ \E nm \in {R({"a", "b", "d"})}, ss \in {SrcSel(hist)}, ts \in {TimeSel(hist)} : Step([op |-> "get", name |-> nm, ss |-> ss, ts |-> ts])
        \/ \E ss \in {SrcSel(hist)}, ts \in {TimeSel(hist)} : Step([op |-> "getall", ss |-> ss, ts |-> ts])
        \/ \E w \in {R(1..5)} : Step([op |-> "bad", how |-> w])
GInit == hist = <<>> /\ done = FALSE
GNext == \/ Len(hist) < Depth /\ GOps
         \/ Len(hist) = Depth /\ ~done /\ done' = TRUE /\ PrintT(<<"BEH", ToJson(hist)>>) /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_<<hist, done>>
=============================================================================
