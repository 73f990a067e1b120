------------------------------- MODULE MetaGen -------------------------------
EXTENDS VLib, Json
CONSTANTS MaxOps
VARIABLES hist, done
R(S) == RandomElement(S)
RV(n, S, z) == TLCEval([i \in 1..n |-> R(S)])
RM(r, c, S, z) == TLCEval([i \in 1..r |-> RV(c, S, i)])
Poly(nd, ni, z) == TLCEval([kind |-> "poly", nin |-> ni, G |-> RM(nd, ni, -2..2, z), H |-> RM(nd, ni, {-1, 0, 0, 1}, z), sq |-> R(BOOLEAN), sub |-> <<>>, maps |-> <<>>])
Map(no, ni, depth, z) == LET sq == depth > 0 /\ R(1..3) = 1 IN TLCEval([M |-> RM(no, ni, IF sq \/ depth = 0 THEN {-1, 0, 1} ELSE -1..2, z), sq |-> sq, b |-> IF R(1..3) = 1 THEN RV(no, -1..1, z) ELSE Zeros(no), how |-> R({"dense", "sparse", "sparse"})])
\* the members' data sizes follow the kind; 0 lets the member choose
RECURSIVE Comp(_, _, _, _)
Member(nd, ni, depth, z) == IF depth > 0 /\ R(1..5) = 1 THEN Comp(R({"stitch", "sum", "repeat"}), ni, depth - 1, nd) ELSE Poly(IF nd = 0 THEN R(1..3) ELSE nd, ni, z)
Comp(kind, ni, depth, nd0) ==
  LET k == R({1, 2, 2, 3, 4})
      kk == IF nd0 = 0 THEN kind ELSE "sum"                 \* a nested composite of prescribed size must be a sum
      nd == IF kk = "sum" THEN (IF nd0 = 0 THEN R(1..3) ELSE nd0) ELSE 0
      no0 == R(1..3)
      nos == TLCEval([i \in 1..k |-> IF kk = "repeat" THEN no0 ELSE R(1..3)])
  IN TLCEval([kind |-> kk, nin |-> ni, G |-> <<>>, H |-> <<>>, sq |-> FALSE,
              sub |-> IF kk = "repeat" THEN <<Member(0, no0, depth, k)>> ELSE [i \in 1..k |-> Member(nd, nos[i], depth, i)],
              maps |-> [i \in 1..k |-> Map(nos[i], ni, depth, i)]])
Full(z) == LET n == R(1..3) IN TLCEval([op |-> "setup", n |-> n, s |-> Comp(R({"stitch", "sum", "repeat"}), n, 1, 0)])
N(z) == hist[1].n
Mdl(z) == RV(N(z), -2..2, z)
Ask(z) == TLCEval([op |-> R({"dpred", "jvec", "jtvec", "diag"}), m |-> Mdl(z), again |-> R({TRUE, FALSE, FALSE}), f |-> LET c == R(1..7) IN IF c <= 2 THEN "none" ELSE IF c <= 4 THEN "fresh" ELSE "kept", keep |-> R(BOOLEAN),
                  v |-> RV(3, -2..2, z), w |-> RV(40, -2..2, z), wkind |-> R({"none", "matrix", "matrix"})])
Op(z) == LET c == R(1..16) IN
  CASE c <= 10 -> Ask(z)
    [] c = 11 -> TLCEval([op |-> "setmodel", m |-> Mdl(z)])
    [] c = 12 -> TLCEval([op |-> "dpred0"])
    [] c = 13 -> TLCEval([op |-> "maps", i |-> R(1..4), M |-> RM(3, 3, -1..1, z), sq |-> R(BOOLEAN), grow |-> R(BOOLEAN)])
    [] c = 14 -> TLCEval([op |-> "member", i |-> R(1..4), nd |-> R(1..3), G |-> RM(3, 3, -2..2, z), H |-> RM(3, 3, {-1, 0, 1}, z), sq |-> R(BOOLEAN)])
    [] c = 15 -> TLCEval([op |-> "swap", i |-> R(1..4), j |-> R(1..4)])
    [] OTHER -> TLCEval([op |-> "poke", i |-> R(1..4), m |-> RV(3, -2..2, z), use |-> R(BOOLEAN)])
GInit == hist = <<>> /\ done = FALSE
GNext == \/ hist = <<>> /\ hist' = <<Full(hist)>> /\ UNCHANGED done
         \/ Len(hist) > 0 /\ Len(hist) <= MaxOps /\ \E o \in {Op(hist)} : hist' = Append(hist, o) /\ UNCHANGED done
         \/ Len(hist) > MaxOps /\ ~done /\ done' = TRUE /\ PrintT(<<"BEH", ToJson(hist)>>) /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_<<hist, done>>
=============================================================================
