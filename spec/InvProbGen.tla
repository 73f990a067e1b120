------------------------------ MODULE InvProbGen ------------------------------
EXTENDS VLib, Json
CONSTANTS MaxOps
VARIABLES hist, done
R(S) == RandomElement(S)
RV(n, S, z) == TLCEval([i \in 1..n |-> R(S)])
Sim(n, z) == LET k == R(1..4) IN TLCEval([kind |-> "sim", mult |-> R({0, 1, 1, 1, 2, 3}), map |-> R({"id", "sq"}), G |-> [i \in 1..k |-> RV(n, -2..2, i)], dobs |-> RV(k, -9..9, z), w |-> RV(k, {1, 1, 2, 4}, z),
                                          direct |-> R(BOOLEAN), sub |-> <<>>])
L2(n, z) == LET k == R(1..3) IN TLCEval([kind |-> "l2", mult |-> R({0, 1, 1, 2}), map |-> "id", G |-> [i \in 1..k |-> RV(n, -2..2, i)], dobs |-> <<>>, w |-> <<>>, direct |-> FALSE, sub |-> <<>>])
Leaf(n, z) == IF R(1..4) = 1 THEN L2(n, z) ELSE Sim(n, z)
Nest(n, z) == LET k == R(1..2) IN TLCEval([kind |-> "nest", mult |-> R({0, 1, 2}), map |-> "id", G |-> <<>>, dobs |-> <<>>, w |-> <<>>, direct |-> FALSE, sub |-> [i \in 1..k |-> Leaf(n, i)]])
Term(n, z) == IF R(1..5) = 1 THEN Nest(n, z) ELSE Leaf(n, z)
Combo(n, z) == LET k == R({1, 1, 2, 3, 4}) IN TLCEval([kind |-> "nest", mult |-> 1, map |-> "id", G |-> <<>>, dobs |-> <<>>, w |-> <<>>, direct |-> FALSE, sub |-> [i \in 1..k |-> Term(n, i)]])
Reg(n, z) == LET k == R(1..3) IN TLCEval([kind |-> "nest", mult |-> 1, map |-> "id", G |-> <<>>, dobs |-> <<>>, w |-> <<>>, direct |-> FALSE, sub |-> [i \in 1..k |-> L2(n, i)]])
Setup(z) == LET n == R(1..3) IN TLCEval([op |-> "setup", n |-> n, d |-> Combo(n, z), r |-> Reg(n, z), beta |-> R(0..4), single |-> R(BOOLEAN)])
N(z) == hist[1].n
EvalOp(z) == TLCEval([op |-> "eval", obj |-> R({0, 0} \cup 0..3), m |-> RV(N(z), -3..3, z), g |-> R(BOOLEAN), h |-> R(BOOLEAN), v |-> RV(N(z), -2..2, z)])
Line(z) == [EvalOp(z) EXCEPT !.g = FALSE, !.h = FALSE]
Op(z) == LET c == R(1..14) IN
  CASE c <= 5 -> EvalOp(z) [] c <= 8 -> Line(z)
    [] c = 9 -> TLCEval([op |-> "beta", beta |-> R(0..4)])
    [] c = 10 -> TLCEval([op |-> "mult", i |-> R(1..4), c |-> R(0..3)])
    [] c = 11 -> TLCEval([op |-> "dobs", i |-> R(1..4), v |-> RV(4, -9..9, z)])
    [] c = 12 -> TLCEval([op |-> "unc", i |-> R(1..4), v |-> RV(4, {1, 2, 4}, z)])
    [] c = 13 -> TLCEval([op |-> "hess", k |-> R(1..4), v |-> RV(N(z), -2..2, z)])
    [] OTHER -> TLCEval([op |-> "fields", m |-> RV(N(z), -3..3, z), store |-> R(BOOLEAN), del |-> R(BOOLEAN), obj |-> R(0..3)])
GInit == hist = <<>> /\ done = FALSE
GNext == \/ hist = <<>> /\ hist' = <<Setup(hist)>> /\ UNCHANGED done
         \/ Len(hist) > 0 /\ Len(hist) <= MaxOps /\ \E o \in {Op(hist)} : hist' = Append(hist, o) /\ UNCHANGED done
         \/ Len(hist) > MaxOps /\ ~done /\ done' = TRUE /\ PrintT(<<"BEH", ToJson(hist)>>) /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_<<hist, done>>
=============================================================================
