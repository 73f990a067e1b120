----------------------------- MODULE ParallelGen -----------------------------
(* Histories of requests to a composite spread over processes: members that   *)
(* take their time, and at most one that fails at a certain model and task.   *)
EXTENDS VLib, Json
CONSTANTS MaxOps
VARIABLES hist, done
R(S) == RandomElement(S)
RV(n, S, z) == TLCEval([i \in 1..n |-> R(S)])
RM(r, c, S, z) == TLCEval([i \in 1..r |-> RV(c, S, i)])
NoFail == [on |-> "none", at |-> 0, how |-> "raise"]
SomeFail(z) == TLCEval([on |-> R({"model", "fields", "dpred", "jvec", "jtvec", "diag"}), at |-> R(-2..2), how |-> R({"raise", "raise", "raise", "odd", "custom", "exit"})])
Poly(nd, ni, z) == TLCEval([kind |-> "poly", G |-> RM(nd, ni, -2..2, z), H |-> RM(nd, ni, {-1, 0, 0, 1}, z), sq |-> R(BOOLEAN), sub |-> <<>>, maps |-> <<>>, fail |-> NoFail, slow |-> R({0, 0, 0, 5, 30})])
Map(no, ni, z) == LET sq == R(1..3) = 1 IN TLCEval([M |-> RM(no, ni, -1..1, z), sq |-> sq, b |-> Zeros(no), how |-> R({"dense", "sparse"})])
Comp(kind, ni, z) ==
  LET k == R(1..5) nd0 == R(1..3) no0 == R(1..3)
      nos == TLCEval([i \in 1..k |-> IF kind = "repeat" THEN no0 ELSE R(1..3)])
      who == IF R(1..3) = 1 THEN 0 ELSE IF kind = "repeat" THEN 1 ELSE R(1..k)
      subs == TLCEval(IF kind = "repeat" THEN <<Poly(nd0, no0, z)>> ELSE [i \in 1..k |-> Poly(IF kind = "sum" THEN nd0 ELSE R(1..3), nos[i], i)])
  IN TLCEval([kind |-> kind, G |-> <<>>, H |-> <<>>, sq |-> FALSE, fail |-> NoFail, slow |-> 0,
              sub |-> [i \in DOMAIN subs |-> IF i = who THEN [subs[i] EXCEPT !.fail = SomeFail(i)] ELSE subs[i]],
              maps |-> [i \in 1..k |-> Map(nos[i], ni, i)]])
Setup(z) == LET n == R(1..3) IN TLCEval([op |-> "setup", n |-> n, nproc |-> R(1..6), s |-> Comp(R({"stitch", "sum", "repeat"}), n, z)])
N(z) == hist[1].n
Ask(z) == TLCEval([op |-> R({"dpred", "jvec", "jtvec", "diag"}), m |-> RV(N(z), -2..2, z), again |-> R({TRUE, FALSE, FALSE}), f |-> R({"none", "none", "fresh", "kept"}), keep |-> R(BOOLEAN),
                  v |-> RV(3, -2..2, z), w |-> RV(40, -2..2, z), wkind |-> R({"none", "matrix", "matrix", "vector"})])
Op(z) == LET c == R(1..14) IN
  CASE c <= 10 -> Ask(z)
    [] c = 11 -> TLCEval([op |-> "setmodel", m |-> RV(N(z), -2..2, z)])
    [] c = 12 -> TLCEval([op |-> "dpred0"])
    [] c = 13 -> TLCEval([op |-> "maps", i |-> R(1..5), M |-> RM(3, 3, -1..1, z), sq |-> R(BOOLEAN), n |-> R({-1, 0, 1})])
    [] OTHER -> TLCEval([op |-> "fields", m |-> RV(N(z), -2..2, z)])
GInit == hist = <<>> /\ done = FALSE
GNext == \/ hist = <<>> /\ hist' = <<Setup(hist)>> /\ UNCHANGED done
         \/ Len(hist) > 0 /\ Len(hist) <= MaxOps /\ \E o \in {Op(hist)} : hist' = Append(hist, o) /\ UNCHANGED done
         \/ Len(hist) > MaxOps /\ ~done /\ done' = TRUE /\ PrintT(<<"BEH", ToJson(hist)>>) /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_<<hist, done>>
=============================================================================
