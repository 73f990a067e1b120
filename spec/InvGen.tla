------------------------------- MODULE InvGen -------------------------------
EXTENDS VLib, Json
CONSTANTS MaxLen, Arrange   \* Arrange: lists are put in an order that is accepted
VARIABLES hist, done
R(S) == RandomElement(S)
I == INSTANCE Inv WITH Lists <- {}, MaxIters <- {}, Phis <- {}, dl <- 0, lim <- 0, phase <- 0, pos <- 0, iter <- 0, phi <- 0, beta <- 0, stop <- 0, irls <- 0, log <- 0
Kinds == {"schedule", "target", "multi", "byeig", "maxderiv", "alphas", "scaling", "joint", "precond", "sens", "irls", "savemodel", "saveout", "savedict", "probe"} \cup (IF Arrange THEN {} ELSE {"similar", "spherical", "precond", "sens", "irls"})
Opts(z) == [fact |-> R({2, 3, 4, 8}), rate |-> R({1, 1, 2, 3}), chi |-> R(1..6), every |-> R(BOOLEAN), disk |-> R(BOOLEAN), seed |-> R(0..999), npw |-> R({1, 4, 9}),
            thr |-> R(1..3), norm |-> R(1..3), maxirls |-> R({0, 1, 2, 5, 9, 20}), ratio |-> R({1, 2, 10}), pct |-> R({50, 100, 100})]
Setup(z) == [dim |-> R({1, 1, 2, 3}), reg |-> R({"wls", "wls", "sparse", "sparse", "two", "small"}), sims |-> R({1, 1, 2}), map |-> R({"id", "exp"}), opt |-> R({"ProjectedGNCG", "InexactGaussNewton", "ProjectedGNCG"}),
             maxIter |-> R({1, 2, 3, 5, 8, 14, 14}), ls |-> R({1, 6, 10}), noise |-> R(1..3), seed |-> R(0..9999), again |-> R({0, 0, 1}), tight |-> R(BOOLEAN), beta |-> R(0..4), wrong |-> R({0, 0, 0, 0, 1}) = 1]
GInit == hist = <<>> /\ done = FALSE
Names(h) == [i \in 1..(Len(h) - 1) |-> h[i + 1].kind]
GNext == \/ hist = <<>> /\ hist' = <<Setup(hist)>> /\ UNCHANGED done
         \/ Len(hist) > 0 /\ Len(hist) <= MaxLen /\ ~done /\ \E k \in {IF Arrange /\ hist[1].reg \in {"sparse", "two"} /\ R(1..3) = 1 THEN "irls" ELSE R(Kinds)} : \E h2 \in {Append(hist, [kind |-> k, o |-> Opts(hist)])} :
              hist' = (IF Arrange /\ ~I!ValidList(Names(h2)) THEN hist ELSE h2) /\ UNCHANGED done
         \/ Len(hist) > 2 /\ ~done /\ R(1..4) = 1 /\ done' = TRUE /\ PrintT(<<"BEH", ToJson(hist)>>) /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_<<hist, done>>
=============================================================================
