------------------------------- MODULE RegGen --------------------------------
EXTENDS VLib, Json
CONSTANTS Depth, Rough
VARIABLES hist, done
R(S) == RandomElement(S)
Vec(n, w) == [i \in 1..n |-> R(0..(2 * w)) - w]
Pos(n, w) == [i \in 1..n |-> R(1..w)]
Dims(z) == R({<<4>>, <<6>>, <<3, 2>>, <<2, 3>>, <<4, 3>>, <<2, 2, 2>>, <<3, 2, 2>>, <<1, 3>>, <<3, 1, 2>>})
Widths(n, z) == IF Rough THEN [i \in 1..n |-> R({1, 3})] ELSE LET w == R({1, 2}) IN [i \in 1..n |-> w]
Mesh(nn) == [dim |-> Len(nn), n |-> nn, h |-> [a \in 1..Len(nn) |-> Widths(nn[a], a)]]
GInit == \E c \in {"wls", "wls", "sparse", "small", "first", "second", "full"}, am \in {"none", "ctor", "late"}, ax \in 1..3 : \E nn \in {Dims(am)} :
          hist = <<[op |-> "new", cls |-> c, mesh |-> Mesh(nn), act |-> am, axis |-> ax, on |-> [i \in 1..12 |-> R(1..5) # 1], al |-> Pos(36, 2), opts |-> Pos(8, 4)]>> /\ done = FALSE
Step(x) == hist' = Append(hist, x) /\ done' = FALSE
Eval == \E i \in {R(0..8)}, m \in {Vec(12, IF Rough THEN 1 ELSE 2)}, v \in {Vec(12, 1)} : Step([op |-> "eval", i |-> i, m |-> m, v |-> v])
GOps == \/ Eval \/ Eval \/ Eval
        \/ \E i \in {R(0..8)}, a \in {R(0..2)} : Step([op |-> "alpha", i |-> i, val |-> a])
        \/ \E i \in {R(1..3)}, a \in {R(0..2)} : Step([op |-> "len", axis |-> i, val |-> a])
        \/ \E w \in {R({"none", "float", "array", "array"})}, v \in {Vec(12, 1)} : Step([op |-> "ref", how |-> w, v |-> v])
        \/ \E b \in {R(BOOLEAN)} : Step([op |-> "insm", val |-> b])
        \/ \E i \in {R(0..8)}, k \in {R({"a", "b"})}, f \in {R(1..4)}, v \in {Pos(60, IF Rough THEN 2 ELSE 3)} : Step([op |-> "setw", i |-> i, key |-> k, face |-> f = 1, v |-> v])
        \/ \E i \in {R(0..8)}, k \in {R({"a", "b"})} : Step([op |-> "remw", i |-> i, key |-> k])
        \/ \E w \in {R(1..4)}, v \in {Vec(50, 1)} : Step([op |-> "map", how |-> w, v |-> v])
        \/ \E w \in {R(1..3)} : Step([op |-> "units", rad |-> w = 1])
        \/ \E x \in {1} : Step([op |-> "active"])
        \/ \E v \in {Vec(12, 1)} : Step([op |-> "irls", m |-> v])
        \/ \E w \in {R(1..5)} : Step([op |-> "bad", how |-> w])
GNext == \/ Len(hist) < Depth /\ GOps
         \/ Len(hist) = Depth /\ ~done /\ done' = TRUE /\ PrintT(<<"BEH", ToJson(hist)>>) /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_<<hist, done>>
=============================================================================
