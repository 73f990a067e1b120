------------------------------ MODULE TraceOpt ------------------------------
EXTENDS TraceLib
VARIABLES st          \* the run so far: settings, iterations accepted, whether a stop was asked for
O == INSTANCE Opt WITH Lo <- 0, Hi <- 0, FVals <- {}, GVals <- {}, Steps <- {}, Limits <- {}, LSLimits <- {},
       fv <- 0, gv <- 0, set <- 0, phase <- 0, x <- 0, iter <- 0, ls <- 0, p <- 0, path <- 0, reason <- 0
tv == <<l, bad, st>>
None == [lim |-> 0, lsl |-> 0, dec |-> TRUE, k |-> 0, asked |-> FALSE]
TInit == TraceVarsInit /\ st = None
Common(e) == Clause(e.feasible, "iterate-within-bounds") \o Clause(e.fok, "reported-objective-belongs-to-iterate")
     \o Clause(e.descent, "search-direction-descends")
     \o Clause(SeqNear(e.dir[1], e.dir[2], e.dirtol), "search-direction:" \o e.kind)
IterOK(e) == Common(e)
  \o Clause(e.k = st.k + 1, "iterations-counted")
  \o Clause(st.k < st.lim, "iteration-limit-kept")
  \o Clause(~st.asked, "stopped-when-asked")
  \o Clause(O!MayGo(e.stop.opt, e.stop.crit), "went-on-although-a-stopping-rule-held")
  \o Clause(O!Accepts(e.trials, e.ls, st.lsl) \/ (~st.dec /\ e.ls = st.lsl /\ O!Breaks(e.trials, st.lsl)), "accepted-step-satisfies-the-rule")
  \o Clause(SeqNear(e.step[1], e.step[2], 64), "accepted-step-is-the-shortened-direction")
EndOK(e) ==
     Clause(e.k = st.k, "iterations-counted")
  \o Clause(e.feasible, "result-within-bounds") \o Clause(e.last, "result-is-the-last-iterate")
  \o Clause(e.finished = 1 /\ e.started = 1, "startup-and-finish-once")
  \o Clause(e.fresh, "run-does-not-depend-on-earlier-runs")
  \o Clause(e.remembered, "remembered-values-are-those-of-the-iterations")
  \o Clause(e.clean, "start-model-untouched")
  \o Clause(CASE e.why = "asked" -> st.asked
              [] e.why = "linesearch" -> st.dec /\ O!MayGo(e.stop.opt, e.stop.crit) /\ O!Breaks(e.trials, st.lsl)
              [] OTHER -> O!MayStop(e.stop.opt, e.stop.crit), "stopped-without-a-reason")
TStep == Consume /\ LET e == Line IN
  \/ e.op = "new" /\ st' = None /\ Flag(<<>>)
  \/ e.op = "run" /\ st' = [lim |-> e.lim, lsl |-> e.lsl, dec |-> e.dec, k |-> 0, asked |-> FALSE] /\ Flag(Clause(e.feasible, "start-projected"))
  \/ e.op = "iter" /\ st' = [st EXCEPT !.k = @ + 1, !.asked = e.asked] /\ Flag(IterOK(e))
  \/ e.op = "end" /\ UNCHANGED st /\ Flag(EndOK(e))
  \/ e.op = "true" /\ UNCHANGED st /\ Flag(Clause(e.ok, e.what))
  \/ e.op = "same" /\ UNCHANGED st /\ Flag(Clause(SeqNear(e.got, e.want, e.tol), e.what))
  \/ e.op = "exception" /\ UNCHANGED st /\ Flag(ExcClauses(e))
TraceSpec == TInit /\ [][TStep]_tv
=============================================================================
