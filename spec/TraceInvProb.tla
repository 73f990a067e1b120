----------------------------- MODULE TraceInvProb -----------------------------
EXTENDS TraceLib
VARIABLES d, r, b, held
I == INSTANCE InvProb WITH Objects <- {}, Values <- {}, MaxVisits <- 0, content <- 0, kept <- 0, used <- 0, asked <- 0, beta <- 0, visits <- 0
tv == <<l, bad, d, r, b, held>>
TInit == TraceVarsInit /\ d = 0 /\ r = 0 /\ b = 0 /\ held = <<>>
EvalOK(e) ==
     Clause(e.phi = <<I!Phi(d, r, b, e.m)>>, "value-of-the-objective")
  \o Clause(e.phid = <<I!Val(d, e.m)>>, "misfit-is-the-weighted-squared-residual")
  \o Clause(e.phim = <<I!Val(r, e.m)>>, "regularization-value")
  \o Clause(~e.g \/ e.grad = I!GradPhi(d, r, b, e.m), "gradient-at-the-model")
  \o Clause(~e.h \/ e.hess = I!HessPhi(d, r, b, e.m, e.v), "hessian-action-at-the-model")
  \o Clause(e.dpred = I!AllData(d, e.m), "predicted-data-of-each-term")
  \o Clause(e.last = I!TermVals(d, e.m), "value-of-each-term")
  \o Clause(e.lastm = I!TermVals(r, e.m), "value-of-each-regularization-term")
  \o Clause(e.model = e.m, "model-is-the-one-asked")
  \o Clause(e.untouched, "arguments-untouched")
TStep == Consume /\ LET e == Line IN
  \/ e.op = "new" /\ UNCHANGED <<d, r, b, held>> /\ Flag(<<>>)
  \/ e.op = "setup" /\ d' = e.d /\ r' = e.r /\ b' = e.beta /\ held' = <<>> /\ Flag(<<>>)
  \/ e.op = "eval" /\ held' = (IF e.h THEN Append(held, [m |-> e.m, d |-> d]) ELSE held) /\ UNCHANGED <<d, r, b>> /\ Flag(EvalOK(e))
  \/ e.op = "beta" /\ b' = e.beta /\ UNCHANGED <<d, r>> /\ held' = <<>> /\ Flag(<<>>)
  \/ e.op = "mult" /\ d' = [d EXCEPT !.sub[e.i].mult = e.c] /\ UNCHANGED <<r, b>> /\ held' = <<>> /\ Flag(<<>>)
  \/ e.op = "dobs" /\ d' = [d EXCEPT !.sub[e.i].dobs = e.v] /\ UNCHANGED <<r, b>> /\ held' = <<>> /\ Flag(<<>>)
  \/ e.op = "unc" /\ d' = [d EXCEPT !.sub[e.i].w = e.v] /\ UNCHANGED <<r, b>> /\ held' = <<>> /\ Flag(<<>>)
  \/ e.op = "hess" /\ UNCHANGED <<d, r, b, held>> /\ Flag(Clause(e.hess = I!HessPhi(d, r, b, held[e.k].m, e.v), "hessian-kept-for-its-own-model"))
  \/ e.op = "fields" /\ UNCHANGED <<d, r, b, held>> /\ Flag(Clause(e.of = e.m, "fields-of-the-model-asked"))
  \/ e.op = "same" /\ UNCHANGED <<d, r, b, held>> /\ Flag(Clause(SeqNear(e.got, e.want, e.tol), e.what))
  \/ e.op = "true" /\ UNCHANGED <<d, r, b, held>> /\ Flag(Clause(e.ok, e.what))
  \/ e.op = "exception" /\ UNCHANGED <<d, r, b, held>> /\ Flag(ExcClauses(e))
TraceSpec == TInit /\ [][TStep]_tv
=============================================================================
