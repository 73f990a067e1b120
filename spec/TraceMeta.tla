------------------------------ MODULE TraceMeta ------------------------------
EXTENDS TraceLib
VARIABLES s
M == INSTANCE Meta WITH NMember <- 1, Models <- {}, MapVers <- {}, Shared <- FALSE, MaxOps <- 0, SliceMax <- 0,
                        mapv <- 0, held <- 0, asked <- 0, used <- 0, pos <- 0, nops <- 0, sizes <- 0
tv == <<l, bad, s>>
TInit == TraceVarsInit /\ s = 0
W(e) == IF e.wkind = "none" THEN Consts(M!ND(s), 1) ELSE SubSeq(e.w, 1, M!ND(s))
TStep == Consume /\ LET e == Line IN
  \/ e.op = "new" /\ UNCHANGED s /\ Flag(<<>>)
  \/ e.op = "setup" /\ s' = e.s /\ Flag(<<>>)
  \/ e.op = "dpred" /\ UNCHANGED s /\ Flag(Clause(e.got = M!Dpred(s, e.m), "data-of-the-members-at-their-models") \o Clause(e.untouched, "arguments-untouched"))
  \/ e.op = "jvec" /\ UNCHANGED s /\ Flag(Clause(e.got = M!Jvec(s, e.m, SubSeq(e.v, 1, Len(e.m))), "sensitivity-times-vector") \o Clause(e.untouched, "arguments-untouched"))
  \/ e.op = "jtvec" /\ UNCHANGED s /\ Flag(Clause(e.got = M!Jtvec(s, e.m, SubSeq(e.w, 1, M!ND(s))), "adjoint-of-each-slice") \o Clause(e.untouched, "arguments-untouched"))
  \/ e.op = "diag" /\ UNCHANGED s /\ Flag(Clause(e.got = M!Diag(s, e.m, W(e)), "weighted-diagonal-of-each-slice") \o Clause(e.untouched, "arguments-untouched"))
  \/ e.op = "nd" /\ UNCHANGED s /\ Flag(Clause(e.got = M!ND(s), "number-of-data"))
  \/ e.op = "same" /\ UNCHANGED s /\ Flag(Clause(SeqNear(e.got, e.want, e.tol), e.what))
  \/ e.op = "true" /\ UNCHANGED s /\ Flag(Clause(e.ok, e.what))
  \/ e.op = "exception" /\ UNCHANGED s /\ Flag(ExcClauses(e))
TraceSpec == TInit /\ [][TStep]_tv
=============================================================================
