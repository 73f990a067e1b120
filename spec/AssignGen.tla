----------------------------- MODULE AssignGen -----------------------------
(* Histories of assignments to one object (settings and values by number,    *)
(* taken modulo what the object has), and questions to the validators.        *)
EXTENDS VLib, Json
CONSTANTS MaxOps, Objects, Probes
VARIABLES hist, done
R(S) == RandomElement(S)
Bounds == {-2000000000, -90000, -1000, 0, 500, 1000, 1500, 3000}
Tops == {0, 500, 1000, 2000, 5000, 2000000000}
ShapeSets == {<<<<-1>>>>, <<<<3>>>>, <<<<2>>, <<3>>>>, <<<<-1, 3>>>>, <<<<-1, -1>>>>, <<<<2, -1>>>>, <<<<3>>, <<-1, 3>>>>, <<<<-1, 2>>, <<-1, 3>>>>, <<<<-1, -1, -1>>>>, <<<<1, 2, -1>>>>}
WordSets == {<<<<"x">>, <<"y">>>>, <<<<"real", "re", "in-phase">>, <<"imag">>>>, <<<<"Volt">>, <<"nonsense", "x">>>>, <<<<"Z">>>>}
DtSets == {<<"float">>, <<"int">>, <<"complex">>, <<"bool">>, <<"float", "complex">>, <<"int", "float">>}
TypeSets == {<<"int">>, <<"float">>, <<"str">>, <<"list">>, <<"dict">>, <<"bool">>, <<"int", "str">>, <<"ndarray">>}
Question(z) == LET k == R(1..9) IN TLCEval(
  CASE k <= 2 -> [kind |-> "float", lo |-> R(Bounds), hi |-> R(Tops), loin |-> R(BOOLEAN), hiin |-> R(BOOLEAN), nonzero |-> FALSE]
    [] k = 3 -> [kind |-> "integer", lo |-> R(Bounds), hi |-> R(Tops)]
    [] k = 4 -> [kind |-> "string", words |-> R(WordSets), free |-> R({TRUE, FALSE, FALSE, FALSE}), cased |-> R(BOOLEAN)]
    [] k = 5 -> [kind |-> "type", types |-> R(TypeSets)]
    [] k = 6 -> [kind |-> "direction", dim |-> R(2..3)]
    [] k = 7 -> [kind |-> "cells", n |-> R({2, 3, 6})]
    [] k = 8 -> [kind |-> "array", shapes |-> R(ShapeSets), free |-> R({TRUE, FALSE, FALSE, FALSE, FALSE}), dtypes |-> R(DtSets)]
    [] OTHER -> IF R(BOOLEAN) THEN [kind |-> "list", types |-> R(TypeSets), unique |-> R(BOOLEAN), lo |-> R(0..2), hi |-> R({-1, 1, 2, 3})]
                ELSE IF R(BOOLEAN) THEN [kind |-> "location", dim |-> R({0, 2, 3})] ELSE [kind |-> "callable"])
Op(z) == TLCEval([op |-> R({"set", "set", "set", "again"}), a |-> R(0..999), p |-> R(Probes)])
Start(z) == TLCEval([op |-> "start", object |-> R(0..Objects - 1), asks |-> [i \in 1..12 |-> [d |-> Question(i), p |-> R(Probes)]]])
GInit == hist = <<>> /\ done = FALSE
GNext == \/ hist = <<>> /\ hist' = <<Start(hist)>> /\ UNCHANGED done
         \/ Len(hist) > 0 /\ Len(hist) <= MaxOps /\ \E o \in {Op(hist)} : hist' = Append(hist, o) /\ UNCHANGED done
         \/ Len(hist) > MaxOps /\ ~done /\ done' = TRUE /\ PrintT(<<"BEH", ToJson(hist)>>) /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_<<hist, done>>
=============================================================================
