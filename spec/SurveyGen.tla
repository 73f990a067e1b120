----------------------------- MODULE SurveyGen -----------------------------
(* Behaviours of Survey.tla, printed for replay into the real classes.      *)
EXTENDS Survey, Json, Randomization
CONSTANTS Depth
VARIABLES hist, done
gvars == <<shape, fps, vec, rel4, nf, hist, done>>
Rec(r) == hist' = Append(hist, r) /\ done' = FALSE
GInit == /\ shape = <<>> /\ fps = <<>> /\ vec = <<>> /\ rel4 = <<>> /\ nf = <<>>
         /\ hist = <<>> /\ done = FALSE
ErrVals == {<<>>, <<1>>, <<-1>>, Consts(ND, 2), [k \in 1..ND |-> k], [k \in 1..(ND + 2) |-> 1], [k \in 1..ND |-> IF k = ND THEN -1 ELSE 1]}
GNew == \E re \in BOOLEAN : \E sh \in RandomSubset(2, BShapes) : \E f \in RandomSubset(1, [1..Len(sh) -> 1..2]) :
          NewShape(sh, f) /\ Rec([op |-> "new", shape |-> sh, fps |-> f, reuse |-> re])
GOps ==
     \/ \E k \in {RandomElement(1..Len(Pairs))} : \E c \in 1..3 :
          LET s == Pairs[k][1] r == Pairs[k][2] v == [i \in 1..shape[s][r] |-> c * i - 4] IN
          SetItem(s, r, v) /\ Rec([op |-> "setitem", s |-> s, r |-> r, v |-> v])
     \/ \E c \in 1..2 : LET v == [k \in 1..ND |-> k * c - 3] IN SetVec(v) /\ Rec([op |-> "setvec", v |-> v])
     \/ LET v == [k \in 1..(ND + 1) |-> k] IN SetVec(v) /\ Rec([op |-> "setvec", v |-> v])
     \/ \E v \in {RandomElement(ErrVals)} : SetRel(v) /\ Rec([op |-> "setrel", v |-> v])
     \/ \E v \in {RandomElement(ErrVals)} : SetNoise(v) /\ Rec([op |-> "setnoise", v |-> v])
     \/ \E v \in {<<3>>, [k \in 1..ND |-> k]} : SetStd(v) /\ Rec([op |-> "setstd", v |-> v])
GNext == \/ /\ Len(hist) < Depth
            /\ \/ GNew
               \/ Len(hist) > 0 /\ ND > 0 /\ GOps
         \/ /\ Len(hist) = Depth /\ ~done /\ done' = TRUE
            /\ PrintT(<<"BEH", ToJson(hist)>>)
            /\ UNCHANGED <<shape, fps, vec, rel4, nf, hist>>
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
