---------------------------- MODULE TraceParallel ----------------------------
(* Judging requests to composites spread over processes: the value of the     *)
(* serial composite (Meta) when no member fails at the model asked for, an    *)
(* error when one does or when a worker is gone; never a wait without end.    *)
EXTENDS TraceLib
VARIABLES s, dead
M == INSTANCE Meta WITH NMember <- 1, Models <- {}, MapVers <- {}, Shared <- FALSE, MaxOps <- 0, SliceMax <- 0,
                        mapv <- 0, held <- 0, asked <- 0, used <- 0, pos <- 0, nops <- 0, sizes <- 0
tv == <<l, bad, s, dead>>
TInit == TraceVarsInit /\ s = 0 /\ dead = FALSE
FailsAt(p, x, ops) == p.fail.on \in ops /\ x[1] = p.fail.at
Fails(m, ops) == \E i \in DOMAIN s.maps : FailsAt(M!Sub(s, i), M!ApplyMap(s.maps[i], m), ops)
Kills(m, ops) == \E i \in DOMAIN s.maps : FailsAt(M!Sub(s, i), M!ApplyMap(s.maps[i], m), ops) /\ M!Sub(s, i).fail.how = "exit"
Wt(e) == IF e.wkind = "none" THEN Consts(M!ND(s), 1) ELSE SubSeq(e.w, 1, M!ND(s))
Value(e) == CASE e.op = "dpred" -> M!Dpred(s, e.m)
              [] e.op = "jvec" -> M!Jvec(s, e.m, SubSeq(e.v, 1, Len(e.m)))
              [] e.op = "jtvec" -> M!Jtvec(s, e.m, SubSeq(e.w, 1, M!ND(s)))
              [] OTHER -> M!Diag(s, e.m, Wt(e))
Needs(e) == {"model", "fields", e.op}
AskOK(e) == IF e.outcome = "hang" THEN <<"request-never-answered">>
            ELSE IF dead \/ Fails(e.m, Needs(e)) THEN Clause(e.outcome = "error", "failing-member-is-an-error")
            ELSE IF e.outcome = "error" THEN <<"error-without-a-failing-member">>
            ELSE Clause(e.got = Value(e), "answer-of-the-serial-composite")
TStep == Consume /\ LET e == Line IN
  \/ e.op = "new" /\ UNCHANGED <<s, dead>> /\ Flag(<<>>)
  \/ e.op = "setup" /\ s' = e.s /\ dead' = FALSE /\ Flag(<<>>)
  \/ e.op = "procs" /\ UNCHANGED <<s, dead>> /\ Flag(Clause(e.n = Min2(e.asked, Len(s.maps)), "number-of-processes"))
  \/ e.op = "maps" /\ s' = [s EXCEPT !.maps = e.maps] /\ UNCHANGED dead /\ Flag(Clause(e.nd = M!ND(s'), "number-of-data"))
  \/ e.op \in {"dpred", "jvec", "jtvec", "diag"} /\ UNCHANGED s /\ dead' = (dead \/ Kills(e.m, Needs(e))) /\ Flag(AskOK(e))
  \/ e.op = "store" /\ UNCHANGED s /\ dead' = (dead \/ Kills(e.m, IF e.fields THEN {"model", "fields"} ELSE {"model"})) /\ Flag(Clause(e.outcome # "hang", "request-never-answered")
                                                                    \o Clause(e.outcome # "error" \/ dead \/ Fails(e.m, {"model", "fields"}), "error-without-a-failing-member"))
  \/ e.op = "joined" /\ UNCHANGED <<s, dead>> /\ Flag(Clause(e.outcome = "value" /\ e.alive = 0, "joining-ends-all-workers"))
  \/ e.op = "same" /\ UNCHANGED <<s, dead>> /\ Flag(Clause(SeqNear(e.got, e.want, e.tol), e.what))
  \/ e.op = "true" /\ UNCHANGED <<s, dead>> /\ Flag(Clause(e.ok, e.what))
  \/ e.op = "exception" /\ UNCHANGED <<s, dead>> /\ Flag(ExcClauses(e))
TraceSpec == TInit /\ [][TStep]_tv
=============================================================================
