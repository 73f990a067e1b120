------------------------------ MODULE TraceInv ------------------------------
EXTENDS TraceLib
VARIABLES st
I == INSTANCE Inv WITH Lists <- {}, MaxIters <- {}, Phis <- {}, dl <- 0, lim <- 0, phase <- 0, pos <- 0, iter <- 0, phi <- 0, beta <- 0, stop <- 0, irls <- 0, log <- 0
tv == <<l, bad, st>>
None == [n |-> 0, lim |-> 0, hook |-> "initialize", pos |-> 1, it |-> 0, stop |-> FALSE, irls |-> I!IrlsInit(0), done |-> FALSE]
TInit == TraceVarsInit /\ st = None
\* hooks arrive in the order of the specification
Expected(e) == IF e.hook = "initialize" THEN st.hook = "initialize" /\ e.pos = st.pos
               ELSE IF e.hook = "endIter" THEN IF e.pos = 1 THEN (st.hook \in {"initialize", "endIter"} /\ st.pos = st.n + 1 /\ e.it = st.it + 1 /\ ~st.stop /\ e.it <= st.lim)
                                               ELSE st.hook = "endIter" /\ e.pos = st.pos /\ e.it = st.it
               ELSE IF e.pos = 1 THEN (st.hook \in {"initialize", "endIter"} /\ st.pos = st.n + 1 /\ e.it = st.it) ELSE st.hook = "finish" /\ e.pos = st.pos
Changed(e) == {k \in DOMAIN e.before : e.before[k] # e.after[k]}
Ratio(e, want) == Near(e.ratio, want, 2 + want \div 16384)
KindOK(e) ==
  CASE e.kind = "schedule" /\ e.hook = "endIter" -> Clause(Ratio(e, IF I!Cools(e.it, st.lim, e.o.rate) THEN 65536 * e.o.fact ELSE 65536), "trade-off-cooled-by-factor-and-rate")
    [] e.kind \in {"target", "multi"} /\ e.hook = "endIter" ->
            Clause((e.below = -1 => e.after.stop) /\ (e.below = 1 => e.after.stop = e.before.stop), "stops-below-target-misfit")
    [] e.kind = "irls" /\ e.hook = "initialize" -> Clause(e.l2, "starts-with-l2-norms")
    [] e.kind = "irls" /\ e.hook = "endIter" -> LET f == e.facts s == st.irls IN
            Clause(f.sure => Ratio(e, I!IrlsBeta(s, f)), "irls:trade-off-cooled")
         \o Clause(f.sure => (I!IrlsDue(s, f) => e.after.stop = I!IrlsStops(s, f)) /\ (~I!IrlsDue(s, f) => e.after.stop = e.before.stop), "irls:stops-as-documented")
         \o Clause(f.sure => (IF I!IrlsStart(s, f) # 0 THEN e.isnorm ELSE e.l2), "irls:norms-in-force")
         \o Clause(f.sure => (I!IrlsBegins(s, f) => SeqNear(e.startthr, e.wantthr, 64)), "irls:starting-thresholds")
         \o Clause((f.sure /\ s.start # 0) => \A i \in DOMAIN e.thrratio : Near(e.thrratio[i], IF I!IrlsDue(s, f) /\ ~I!IrlsStops(s, f) THEN f.thrfact ELSE 65536, 4), "irls:thresholds-cooled")
         \o Clause((f.sure /\ I!IrlsDue(s, f) /\ ~I!IrlsStops(s, f)) => SeqNear(e.gotw, e.wantw, 64), "irls:weights-of-the-current-model")
         \o Clause((f.sure /\ (~I!IrlsDue(s, f) \/ I!IrlsStops(s, f))) => e.before.weights = e.after.weights, "irls:weights-kept")
    [] OTHER -> <<>>
HookOK(e) ==
     Clause(Expected(e), "hook-order:" \o e.hook)
  \o Clause(e.fresh, "directive-sees-the-iteration-that-ended")
  \o Clause(Changed(e) \subseteq I!Touches(e.kind, e.hook, e.every), "directive-touches-only-its-setting:" \o e.kind)
  \o Clause(SeqNear(e.got, e.want, e.tol), "directive-effect:" \o e.kind)
  \o Clause(e.ok, "directive-effect:" \o e.kind)
  \o KindOK(e)
Next1(e) == [st EXCEPT !.hook = e.hook, !.pos = e.pos + 1, !.it = IF e.hook = "endIter" THEN e.it ELSE @, !.stop = IF e.hook = "initialize" THEN FALSE ELSE e.after.stop,
                       !.irls = IF e.kind = "irls" /\ e.hook = "endIter" THEN I!IrlsNext(@, e.facts) ELSE IF e.kind = "irls" /\ e.hook = "initialize" THEN I!IrlsInit(e.cool) ELSE @]
TStep == Consume /\ LET e == Line IN
  \/ e.op = "new" /\ st' = None /\ Flag(<<>>)
  \/ e.op = "list" /\ UNCHANGED st /\ Flag(Clause(e.accepted = I!ValidList(e.kinds), "directive-list-accepted-iff-valid"))
  \/ e.op = "run" /\ st' = [None EXCEPT !.n = e.n, !.lim = e.lim] /\ Flag(<<>>)
  \/ e.op = "hook" /\ st' = Next1(e) /\ Flag(HookOK(e))
  \/ e.op = "end" /\ UNCHANGED st /\ Flag(Clause(st.hook = "finish" /\ st.pos = st.n + 1 /\ e.it = st.it, "finished-once") \o Clause(e.last, "returns-the-last-model")
         \o Clause(e.why = "other" \/ (e.why = "stop") = st.stop, "stopped-as-directed"))
  \/ e.op = "true" /\ UNCHANGED st /\ Flag(Clause(e.ok, e.what))
  \/ e.op = "same" /\ UNCHANGED st /\ Flag(Clause(SeqNear(e.got, e.want, e.tol), e.what))
  \/ e.op = "exception" /\ UNCHANGED st /\ Flag(ExcClauses(e))
TraceSpec == TInit /\ [][TStep]_tv
=============================================================================
