--------------------------------- MODULE Opt ---------------------------------
(* The iteration loop shared by the optimizers: evaluate, stop or search,   *)
(* line search by shortening, accept, count.  The design model runs it on   *)
(* all small functions of one integer variable with bounds; the decision    *)
(* operators (MayStop, MayGo, Accepts) judge the runs of the real code.     *)
EXTENDS VLib
CONSTANTS Lo, Hi, FVals, GVals, Steps, Limits, LSLimits
VARIABLES fv, gv, set, phase, x, iter, ls, p, path, reason
vars == <<fv, gv, set, phase, x, iter, ls, p, path, reason>>

(* ----- decisions on compared quantities; a comparison  left <= right  is   *)
(* -1 (clearly true), 0 (too close to tell) or 1 (clearly false)             *)
MayLe(o) == o <= 0
MayGt(o) == o >= 0
\* optimal rules must all hold, one critical rule is enough
MayStop(opt, crit) == (opt # <<>> /\ \A i \in DOMAIN opt : MayLe(opt[i])) \/ \E i \in DOMAIN crit : MayLe(crit[i])
MayGo(opt, crit) == (opt = <<>> \/ \E i \in DOMAIN opt : MayGt(opt[i])) /\ \A i \in DOMAIN crit : MayGt(crit[i])
\* the outcome of a line search: trials[j+1] = [opt |-> .., crit |-> ..] for the step shortened j times
Accepts(trials, n, lim) == n < lim /\ Len(trials) = n + 1 /\ MayStop(trials[n + 1].opt, trials[n + 1].crit)
                           /\ \A j \in 1..n : MayGo(trials[j].opt, trials[j].crit)
Breaks(trials, lim) == Len(trials) = lim /\ \A j \in 1..lim : MayGo(trials[j].opt, trials[j].crit)

(* ----- the design model *)
Proj(z) == IF z < Lo THEN Lo ELSE IF z > Hi THEN Hi ELSE z
Shr(q, j) == IF q >= 0 THEN q \div (2 ^ j) ELSE -((-q) \div (2 ^ j))
Trial(j) == Proj(x + Shr(p, j))
Arm(a, b) == 4 * fv[b] <= 4 * fv[a] + gv[a] * (b - a)
Cmp(b) == IF b THEN -1 ELSE 1
LS(j) == [opt |-> <<Cmp(Arm(x, Trial(j)))>>, crit |-> <<>>]
PGrad(a) == Proj(a - gv[a]) - a
StopF == [opt |-> <<Cmp(iter > 0 /\ fv[x] = fv[path[Len(path) - (IF iter > 0 THEN 1 ELSE 0)]]),
                    Cmp(PGrad(x) = 0)>>,
          crit |-> <<Cmp(set.lim <= iter), Cmp(gv[x] = 0)>>]
Init == /\ fv \in [Lo..Hi -> FVals] /\ gv \in [Lo..Hi -> GVals]
        /\ set \in [lim : Limits, lsl : LSLimits, dec : BOOLEAN]
        /\ x \in Lo..Hi /\ iter = 0 /\ ls = 0 /\ p = 0 /\ path = <<x>> /\ phase = "start" /\ reason = "none"
Stop == phase = "start" /\ MayStop(StopF.opt, StopF.crit) /\ phase' = "done" /\ reason' = "rule"
        /\ UNCHANGED <<fv, gv, set, x, iter, ls, p, path>>
Search == /\ phase = "start" /\ MayGo(StopF.opt, StopF.crit) /\ \E s \in Steps : p' = -s * gv[x]
          /\ ls' = 0 /\ phase' = "ls" /\ UNCHANGED <<fv, gv, set, x, iter, path, reason>>
Move(b) == x' = b /\ path' = Append(path, b) /\ iter' = iter + 1 /\ phase' = "start" /\ UNCHANGED <<fv, gv, set, ls, p, reason>>
Accept == phase = "ls" /\ ls < set.lsl /\ MayStop(LS(ls).opt, LS(ls).crit) /\ Move(Trial(ls))
Shorten == phase = "ls" /\ ls < set.lsl /\ MayGo(LS(ls).opt, LS(ls).crit) /\ ls' = ls + 1
           /\ UNCHANGED <<fv, gv, set, phase, x, iter, p, path, reason>>
Anyway == phase = "ls" /\ ls = set.lsl /\ ~set.dec /\ Move(Trial(ls - 1))
Break == phase = "ls" /\ ls = set.lsl /\ set.dec /\ phase' = "done" /\ reason' = "linesearch"
         /\ UNCHANGED <<fv, gv, set, x, iter, ls, p, path>>
Next == Stop \/ Search \/ Accept \/ Shorten \/ Anyway \/ Break
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Feasible == \A i \in DOMAIN path : path[i] \in Lo..Hi
Descends == set.dec => \A i \in 1..(Len(path) - 1) : Arm(path[i], path[i + 1]) /\ fv[path[i + 1]] <= fv[path[i]]
Counts == iter = Len(path) - 1 /\ iter <= set.lim /\ ls <= set.lsl /\ x = path[Len(path)]
StatedReason == phase = "done" =>
   \/ reason = "rule" /\ MayStop(StopF.opt, StopF.crit)
   \/ reason = "linesearch" /\ set.dec /\ Breaks([j \in 1..set.lsl |-> LS(j - 1)], set.lsl)
DG == {-1, 0, 2}
Terminates == <>(phase = "done")
=============================================================================
