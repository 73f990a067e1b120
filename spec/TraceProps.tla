----------------------------- MODULE TraceProps -----------------------------
EXTENDS TraceLib
VARIABLES src, m, cfg
P == INSTANCE Props WITH Exps <- {0}, Bound <- 0, slotv <- 0, slotm <- 0, model <- 0, s <- 0, n <- 0
tv == <<l, bad, src, m, cfg>>
TInit == TraceVarsInit /\ src = <<>> /\ m = <<>> /\ cfg = <<>>
Set(p, x) == src' = [src EXCEPT ![p] = x] /\ UNCHANGED <<m, cfg>>
Keep == UNCHANGED <<src, m, cfg>>
\* mass matrices for a property constant in space: exponent relative to the matrix of the unit property
Uniform(e) == \A i \in 1..Len(e) : e[i] = e[1]
MassOK(x) == LET s == src[x.p] IN
    IF ~P!Defined(s, m) THEN ~x.ok
    ELSE LET e == P!Read(s, x.side, m) IN
         ~Uniform(e) \/ (x.ok /\ Near(x.e, IF x.inverse THEN -e[1] ELSE e[1], 0))
\* derivative of (mass matrix * 1) in the direction of ones
MassDerivOK(x) == LET s == src[x.p] IN
    IF s.kind # "map" THEN x.zero
    ELSE m = <<>> \/ ~Uniform(m) \/
         LET e == P!Read(s, x.side, m)[1]
             de == P!DerivExp(s, x.side, m)[1]
             sg == P!DerivSign(s, x.side) IN
         x.ok /\ ~x.zero /\ x.sign = (IF x.inverse THEN -sg ELSE sg) /\ x.e = (IF x.inverse THEN de - 2 * e ELSE de)
TStep == Consume /\ LET e == Line IN
  \/ e.op = "new" /\ src' = [i \in 1..e.np |-> IF e.init[i] = <<>> THEN P!NoSrc ELSE P!AssignValue(P!NoSrc, 1, e.init[i])]
     /\ m' = <<>> /\ cfg' = e /\ Flag(<<>>)
  \/ e.op = "setv" /\ Set(e.p, P!AssignValue(src[e.p], e.side, e.e)) /\ Flag(Clause(e.accepted, "value-accepted"))
  \/ e.op = "setm" /\ Set(e.p, P!AssignMap(src[e.p], e.side, e.a, e.inv)) /\ Flag(Clause(e.accepted, "map-accepted"))
  \/ e.op = "nonev" /\ Set(e.p, P!DropValue(src[e.p], e.side)) /\ Flag(<<>>)
  \/ e.op = "nonem" /\ Set(e.p, P!DropMap(src[e.p], e.side)) /\ Flag(<<>>)
  \/ e.op \in {"badv", "badm"} /\ Keep /\ Flag(Clause(~e.accepted, "rejected:" \o e.op))
  \/ /\ e.op = "model" /\ UNCHANGED <<src, cfg>>
     /\ LET acc == P!AcceptModel(src, cfg.n, e.len, FALSE) IN
        /\ Flag(Clause(e.accepted = acc, "model-acceptance"))
        /\ m' = IF acc THEN e.m ELSE m
  \/ e.op = "modelnone" /\ m' = <<>> /\ UNCHANGED <<src, cfg>> /\ Flag(<<>>)
  \/ /\ e.op = "read" /\ Keep
     /\ LET s == src[e.p] IN
        Flag(Clause(e.ok = P!Defined(s, m), "defined-or-raises")
          \o Clause(~e.ok \/ ~P!Defined(s, m) \/ e.e = P!Read(s, e.side, m), "value-follows-last-assignment")
          \o Clause(e.needs = P!NeedsModel(src), "needs-model")
          \o Clause(e.hasmap = (s.kind = "map"), "map-reported"))
  \/ /\ e.op = "deriv" /\ Keep
     /\ LET s == src[e.p] IN
        Flag(IF P!HasDeriv(s, m) THEN Clause(~e.zero /\ e.diag /\ e.sign = P!DerivSign(s, e.side) /\ e.e = P!DerivExp(s, e.side, m), "derivative-follows-map")
             ELSE Clause(e.zero, "no-derivative-without-map"))
  \/ e.op = "mass" /\ Keep /\ Flag(Clause(MassOK(e), "mass-matrix-follows-property:" \o e.name))
  \/ e.op = "massderiv" /\ Keep /\ Flag(Clause(MassDerivOK(e), "mass-matrix-derivative-follows-property:" \o e.name))
  \/ e.op = "exception" /\ Keep /\ Flag(ExcClauses(e))
TraceSpec == TInit /\ [][TStep]_tv
=============================================================================
