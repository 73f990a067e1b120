------------------------------- MODULE TracePf -------------------------------
(* Judging potential-field answers: data in the order of Pf!Layout with the    *)
(* reference value of every receiver, location and component; other answers    *)
(* equal to the reference; refusals only where the engine may refuse.          *)
EXTENDS TraceLib
VARIABLES x
P == INSTANCE Pf WITH Probs <- {}, Precs <- {}, Paths <- {}, MaxSims <- 0, MaxIno <- 0, MaxCrash <- 0,
        sims <- 0, dir <- 0, cont <- 0, tag <- 0, busy <- 0, step <- 0, crashes <- 0, asked <- 0
tv == <<l, bad, x>>
TInit == TraceVarsInit /\ x = 0
DataOK(e) == LET want == P!Layout(e.groups, e.table) IN
   Clause(Len(e.got) = Len(want), "number-of-data") \o Clause(Len(e.got) # Len(want) \/ SeqNear(e.got, want, e.tol), e.what)
TStep == Consume /\ UNCHANGED x /\ LET e == Line IN
  \/ e.op = "new" /\ Flag(<<>>)
  \/ e.op = "data" /\ Flag(DataOK(e))
  \/ e.op = "nd" /\ Flag(Clause(e.nd = P!ND(e.groups), "number-of-data"))
  \/ e.op = "same" /\ Flag(Clause(SeqNear(e.got, e.want, e.tol), e.what))
  \/ e.op = "true" /\ Flag(Clause(e.ok, e.what))
  \/ e.op = "refused" /\ Flag(Clause(P!MayRefuse(e.engine, e.store, e.amp, e.ask), "request-refused"))
  \/ e.op = "exception" /\ Flag(ExcClauses(e))
TraceSpec == TInit /\ [][TStep]_tv
=============================================================================
