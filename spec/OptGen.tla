------------------------------- MODULE OptGen -------------------------------
(* Histories of runs of one optimizer object: settings chosen anew before   *)
(* each run, different functions, bounds, starting points and interruptions. *)
EXTENDS VLib, Json
CONSTANTS Runs
VARIABLES hist, done
R(S) == RandomElement(S)
Kinds == <<"SteepestDescent", "BFGS", "GaussNewton", "InexactGaussNewton", "ProjectedGradient", "ProjectedGNCG">>
Funs == <<"quad", "quad", "rosen", "cos", "exp", "wrong", "flat", "abs", "deep">>
RunOf(z) == [fun |-> Funs[R(1..Len(Funs))], n |-> R(1..5), fseed |-> R(0..9999),
             lower |-> R({"none", "scalar", "vector", "tight", "inf"}), upper |-> R({"none", "scalar", "vector", "tight", "inf"}),
             maxIter |-> R({0, 1, 2, 3, 5, 9, 20}), maxIterLS |-> R({1, 2, 3, 6, 10, 10}),
             tolF |-> R({1, 1, 4, 8}), tolX |-> R({1, 1, 4, 8}), tolG |-> R({0, 1, 3, 7}),
             maxStep |-> R({0, 0, 1, 2}), shorten |-> R({1, 1, 2, 3}), reduction |-> R({4, 4, 1, 8}),
             decrease |-> R({1, 1, 1, 0}) = 1, x0 |-> R({0, 1, 2, 2, 3}), stopAt |-> R({0, 0, 0, 1, 2, 4}),
             remember |-> R(0..2), cg |-> R({1, 2, 5, 50, 50}), rtol |-> R({1, 3, 8}), stepAct |-> R(BOOLEAN), scale |-> R({0, 1, 2}), prec |-> R({0, 0, 1})]
GInit == \E k \in 1..Len(Kinds) : hist = <<[kind |-> Kinds[k], wolfe |-> R({0, 0, 0, 1}) = 1]>> /\ done = FALSE
GNext == \/ Len(hist) <= Runs /\ hist' = Append(hist, RunOf(hist)) /\ UNCHANGED done
         \/ Len(hist) = Runs + 1 /\ ~done /\ done' = TRUE /\ PrintT(<<"BEH", ToJson(hist)>>) /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_<<hist, done>>
=============================================================================
