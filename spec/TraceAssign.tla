---------------------------- MODULE TraceAssign ----------------------------
(* Assignments made to real objects, judged against the domains of their     *)
(* settings (domains.json) and the rule that a refused assignment changes     *)
(* nothing (a good value may be refused once other settings have changed:     *)
(* e.coupled); answers of the validators judged against the domain asked for.    *)
EXTENDS TraceLib
VARIABLES state
A == INSTANCE Assign WITH Values <- {}, Dom <- <<>>, NormOf <- <<>>, MaxOps <- 0, Order <- "check first", slot <- 0, derived <- 0, last <- 0, n <- 0
Domains == JsonDeserialize(IOEnv.DOMAINS_FILE)
Known(k) == k \in DOMAIN Domains
tv == <<l, bad, state>>
TInit == TraceVarsInit /\ state = ""
Why(e) == e.key \o "=" \o e.probe
TStep == Consume /\ LET e == Line IN
  \/ e.op = "new" /\ state' = e.state /\ Flag(<<>>)
  \/ /\ e.op = "set" /\ state' = e.state
     /\ Flag(Clause(e.out # "raise" \/ e.was = e.state, "refused-assignment-changes-nothing:" \o Why(e))
          \o Clause(e.kept, "value-given-untouched:" \o Why(e))
          \o (IF ~e.judge \/ ~Known(e.key) THEN <<>>
              ELSE LET d == Domains[e.key] IN
                   Clause((e.out = "accept") = A!InDomain(e.v, d) \/ (e.out = "raise" /\ e.coupled), (IF e.out = "accept" THEN "bad-value-refused:" ELSE "good-value-accepted:") \o Why(e))
                   \o (IF e.out = "accept" /\ A!InDomain(e.v, d) /\ d.read THEN Clause(A!Holds(e.v, d, e.r), "reads-back:" \o Why(e)) ELSE <<>>)))
  \/ e.op = "again" /\ state' = e.state
     /\ Flag(Clause(e.out = "accept" \/ e.coupled, "value-read-is-accepted:" \o Why(e)) \o Clause(e.out # "accept" \/ e.stays, "value-read-is-kept:" \o Why(e)))
  \/ /\ e.op = "ask" /\ UNCHANGED state
     /\ Flag(Clause((e.out = "accept") = A!InDomain(e.v, e.d), (IF e.out = "accept" THEN "validator-refuses:" ELSE "validator-accepts:") \o e.d.kind \o "=" \o e.probe)
          \o (IF e.out = "accept" /\ A!InDomain(e.v, e.d) THEN Clause(A!Holds(e.v, e.d, e.r), "validator-value:" \o e.d.kind \o "=" \o e.probe) ELSE <<>>)
          \o Clause(e.kept, "validator-leaves-value:" \o e.d.kind))
  \/ e.op = "exception" /\ UNCHANGED state /\ Flag(ExcClauses(e))
TraceSpec == TInit /\ [][TStep]_tv
=============================================================================
