--------------------------------- MODULE Inv ---------------------------------
(* The life of an inversion: directives are initialised once in list order, *)
(* run after every accepted iteration in list order, and finished once;     *)
(* each directive has its documented effect on the shared state.            *)
EXTENDS VLib
CONSTANTS Lists, MaxIters, Phis
VARIABLES dl, lim, phase, pos, iter, phi, beta, stop, irls, log
vars == <<dl, lim, phase, pos, iter, phi, beta, stop, irls, log>>

(* ----- which lists of directives are accepted *)
Has(l, K) == \E i \in DOMAIN l : l[i] \in K
First(l, K) == CHOOSE i \in DOMAIN l : l[i] \in K /\ \A j \in 1..(i - 1) : l[j] \notin K
Beta0 == {"byeig", "maxderiv"}
Count(l, K) == Cardinality({i \in DOMAIN l : l[i] \in K})
ValidList(l) ==
  /\ Count(l, Beta0) <= 1
  /\ \A i \in DOMAIN l : l[i] = "sens" => (Has(l, Beta0) => First(l, Beta0) > i) /\ (Has(l, {"precond"}) => First(l, {"precond"}) > i)
  /\ \A i \in DOMAIN l : l[i] = "irls" => (Has(l, {"precond"}) => First(l, {"precond"}) > i) /\ ~Has(l, {"schedule"})
                                          /\ (Has(l, {"spherical"}) => First(l, {"spherical"}) < i)
  /\ \A i \in DOMAIN l : l[i] = "similar" => i = 1

(* ----- what each directive may change, at which hook *)
Touches(kind, hook, every) ==
  CASE kind = "schedule" -> IF hook = "endIter" THEN {"beta"} ELSE {}
    [] kind \in {"target", "multi"} -> IF hook = "endIter" THEN {"stop"} ELSE {}
    [] kind \in Beta0 -> IF hook = "initialize" THEN {"beta"} ELSE {}
    [] kind = "alphas" -> IF hook = "initialize" THEN {"alphas"} ELSE {}
    [] kind = "scaling" -> IF hook = "initialize" THEN {"mults"} ELSE {}
    [] kind = "joint" -> IF hook = "endIter" THEN {"mults"} ELSE {}
    [] kind = "precond" -> IF hook = "initialize" \/ (hook = "endIter" /\ every) THEN {"prec"} ELSE {}
    [] kind = "sens" -> IF hook = "initialize" \/ (hook = "endIter" /\ every) THEN {"weights"} ELSE {}
    [] kind = "irls" -> IF hook = "initialize" THEN {"norms"} ELSE IF hook = "endIter" THEN {"norms", "thr", "weights", "beta", "stop"} ELSE {}
    [] OTHER -> {}

(* ----- trade-off schedule *)
Cools(it, limit, rate) == 0 < it /\ it < limit /\ it % rate = 0

(* ----- sparse norms: state [start, n, cool], facts of the iteration *)
IrlsInit(c0) == [start |-> 0, n |-> 0, cool |-> c0]
\* e: it, rate, below (misfit under the starting target), adj (cooling factor for the current misfit), settled (stops by small change), max
IrlsBegins(s, e) == s.start = 0 /\ e.below
IrlsStart(s, e) == IF IrlsBegins(s, e) THEN e.it ELSE s.start
IrlsDue(s, e) == IrlsStart(s, e) # 0 /\ (e.it - IrlsStart(s, e)) % e.rate = 0
IrlsStops(s, e) == IrlsDue(s, e) /\ (s.n = e.max \/ (e.settled /\ s.n > 1))
IrlsCool(s, e) == IF IrlsBegins(s, e) THEN 65536 ELSE IF s.start # 0 THEN e.adj ELSE s.cool
IrlsNext(s, e) == [start |-> IrlsStart(s, e), n |-> s.n + (IF IrlsDue(s, e) /\ ~IrlsStops(s, e) THEN 1 ELSE 0), cool |-> IrlsCool(s, e)]
IrlsBeta(s, e) == IF IrlsStops(s, e) \/ e.it % e.rate # 0 THEN 65536 ELSE IrlsCool(s, e)

(* ----- the design model: a run with an arbitrary misfit at each iteration *)
DLists == {<<>>, <<"schedule">>, <<"schedule", "target">>, <<"target", "probe">>, <<"irls">>, <<"target", "irls", "precond">>, <<"irls", "schedule">>, <<"sens", "byeig", "schedule">>}
TargetPhi == 2
StartPhi == 3
Init == /\ dl \in {d \in Lists : ValidList(d)} /\ lim \in MaxIters /\ phase = "initialize" /\ pos = 1 /\ iter = 0
        /\ phi = 9 /\ beta = 0 /\ stop = FALSE /\ irls = IrlsInit(131072) /\ log = <<>>
Facts == [it |-> iter, rate |-> 1, below |-> phi < StartPhi, adj |-> IF phi > StartPhi THEN 131072 ELSE 65536, settled |-> phi = TargetPhi, max |-> 2]
Effect(k) ==
  /\ beta' = CASE phase # "endIter" -> beta
               [] k = "schedule" /\ Cools(iter, lim, 2) -> beta + 1
               [] k = "irls" /\ IrlsBeta(irls, Facts) = 131072 -> beta + 1
               [] OTHER -> beta
  /\ stop' = CASE phase # "endIter" -> stop
               [] k = "target" -> stop \/ phi < TargetPhi
               [] k = "irls" /\ IrlsDue(irls, Facts) -> IrlsStops(irls, Facts)
               [] OTHER -> stop
  /\ irls' = IF phase = "endIter" /\ k = "irls" THEN IrlsNext(irls, Facts) ELSE irls
Hook == pos <= Len(dl) /\ phase \in {"initialize", "endIter", "finish"}
        /\ log' = Append(log, <<phase, pos, iter>>) /\ Effect(dl[pos]) /\ pos' = pos + 1 /\ UNCHANGED <<dl, lim, phase, iter, phi>>
Initialised == phase = "initialize" /\ pos > Len(dl) /\ phase' = "search" /\ UNCHANGED <<dl, lim, pos, iter, phi, beta, stop, irls, log>>
Step == phase = "search" /\ iter < lim /\ \E p \in Phis : phi' = p /\ iter' = iter + 1 /\ pos' = 1 /\ phase' = "endIter" /\ stop' = FALSE
        /\ UNCHANGED <<dl, lim, beta, irls, log>>
Ended == phase = "endIter" /\ pos > Len(dl) /\ phase' = (IF stop THEN "closing" ELSE "search") /\ UNCHANGED <<dl, lim, pos, iter, phi, beta, stop, irls, log>>
Give == phase = "search" /\ phase' = "closing" /\ UNCHANGED <<dl, lim, pos, iter, phi, beta, stop, irls, log>>   \* limit, tolerance or failed line search
Close == phase = "closing" /\ phase' = "finish" /\ pos' = 1 /\ UNCHANGED <<dl, lim, iter, phi, beta, stop, irls, log>>
Next == Hook \/ Initialised \/ Step \/ Ended \/ Give \/ Close
Spec == Init /\ [][Next]_vars

InOrder == \A i \in 1..(Len(log) - 1) : log[i + 1][2] = (IF log[i][2] = Len(dl) THEN 1 ELSE log[i][2] + 1)
OncePerIteration == \A i, j \in DOMAIN log : log[i] = log[j] => i = j
EveryIterationSeen == phase = "search" => \A k \in 1..iter, d \in DOMAIN dl : \E i \in DOMAIN log : log[i] = <<"endIter", d, k>>
BetaSchedule == (dl # <<>> /\ ~Has(dl, {"irls"}) /\ phase = "search") => beta = Count(dl, {"schedule"}) * Cardinality({k \in 1..iter : Cools(k, lim, 2)})
TargetStops == (phase = "search" /\ Has(dl, {"target"}) /\ ~Has(dl, {"irls"}) /\ iter > 0) => phi >= TargetPhi
IrlsBounded == irls.n <= 2 /\ (irls.start # 0 => irls.start <= iter)
=============================================================================
