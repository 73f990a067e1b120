---------------------------- MODULE TraceHistory ----------------------------
(* Judges recorded histories of real simulation objects: every answer has to *)
(* be the one a newly built object gives for the inputs now in force.        *)
EXTENDS TraceLib
VARIABLES cfg, mod, refs
H == INSTANCE History WITH Cfgs <- {0}, Models <- {0}, Bound <- 0, fac <- 0, jst <- 0, dia <- 0, pool <- 0, ans <- 0, n <- 0
tv == <<l, bad, cfg, mod, refs>>
TInit == TraceVarsInit /\ cfg = 0 /\ mod = 0 /\ refs = <<>>
TStep == Consume /\ LET e == Line IN
  \/ e.op = "new" /\ cfg' = 0 /\ mod' = 0 /\ refs' = <<>> /\ Flag(<<>>)
  \/ e.op = "ref" /\ refs' = (H!Key(e.kind, e.c, e.k) :> e.v) @@ refs /\ UNCHANGED <<cfg, mod>> /\ Flag(<<>>)
  \/ e.op = "model" /\ mod' = e.k /\ UNCHANGED <<cfg, refs>> /\ Flag(<<>>)
  \/ e.op = "cfg" /\ cfg' = e.c /\ UNCHANGED <<mod, refs>> /\ Flag(<<>>)
  \/ /\ e.op = "query" /\ mod' = e.k /\ UNCHANGED <<cfg, refs>>
     /\ LET key == H!Key(e.kind, cfg, e.k) IN
        Flag(Clause(key \in DOMAIN refs /\ SeqNear(e.v, refs[key], e.tol), "answer-is-the-current-one:" \o e.kind))
  \/ e.op = "exception" /\ UNCHANGED <<cfg, mod, refs>> /\ Flag(ExcClauses(e))
TraceSpec == TInit /\ [][TStep]_tv
=============================================================================
