----------------------------- MODULE TraceFields -----------------------------
EXTENDS TraceLib
VARIABLES st, cfg
F == INSTANCE Fields WITH Widths <- <<>>, NT <- 0, Vals <- {}, MaxOps <- 0, abs <- 0, arr <- 0, n <- 0, last <- 0
tv == <<l, bad, st, cfg>>
TInit == TraceVarsInit /\ st = [x \in {} |-> 0] /\ cfg = [w |-> <<1>>, nt |-> 1]
Keys(e) == F!KeysOf(cfg.w, e.srcs, e.times)
\* fields start out as zero when first written
Base(nm, n) == IF nm \in DOMAIN st THEN st[nm] ELSE F!Blank(cfg.w, cfg.nt, n)
GetOK(e) == IF e.name \notin DOMAIN st /\ ~(e.name = "d" /\ "a" \in DOMAIN st) THEN Clause(e.raised, "unstored-field-refused")
  ELSE LET s == IF e.name = "d" THEN st["a"] ELSE st[e.name]
           want == IF e.name = "d" THEN F!Derived(s, Keys(e)) ELSE F!Take(s, Keys(e))
           nc == Len(F!ColsOf(cfg.w, e.srcs))
           n == Len(s[<<1, 1, 1>>]) IN
       Clause(~e.raised, "stored-field-readable") \o
       (IF e.raised THEN <<>> ELSE Clause(e.got = want, "value-stored-last") \o Clause(e.shape = (IF cfg.timed THEN F!DeflShape(n, nc, Len(e.times)) ELSE <<n, nc>>), "documented-shape"))
TStep == Consume /\ LET e == Line IN
  \/ e.op = "new" /\ st' = [x \in {} |-> 0] /\ cfg' = [w |-> e.widths, nt |-> e.nt, timed |-> e.timed] /\ Flag(<<>>)
  \/ e.op = "set" /\ UNCHANGED cfg /\ st' = (e.name :> F!Put(Base(e.name, e.n), Keys(e), e.vals)) @@ st /\ Flag(<<>>)
  \/ e.op = "get" /\ UNCHANGED <<st, cfg>> /\ Flag(GetOK(e))
  \/ e.op = "names" /\ UNCHANGED <<st, cfg>> /\ Flag(Clause(ToSet(e.names) = DOMAIN st, "stored-names") \o Clause(e.has = [i \in 1..3 |-> (<<"a", "b", "a">>[i]) \in DOMAIN st], "contains"))
  \/ e.op = "bad" /\ UNCHANGED <<st, cfg>> /\ Flag(Clause(e.refused, "refused:" \o e.what))
  \* derived fields of the physics: the answer for several sources and times is put together from the single ones
  \/ e.op = "derived" /\ UNCHANGED <<st, cfg>> /\ Flag(
        LET k == F!KeysOf(e.widths, e.srcs, e.times)
            single(key) == e.single[key[3]][key[1]][key[2]] IN
        Clause(SeqNear(e.got, FlattenS([i \in 1..Len(k) |-> single(k[i])]), e.tol), "columns-in-order-asked:" \o e.name))
  \/ e.op = "same" /\ UNCHANGED <<st, cfg>> /\ Flag(Clause(SeqNear(e.got, e.want, e.tol), e.what))
  \/ e.op = "true" /\ UNCHANGED <<st, cfg>> /\ Flag(Clause(e.ok, e.what))
  \/ e.op = "exception" /\ UNCHANGED <<st, cfg>> /\ Flag(ExcClauses(e))
TraceSpec == TInit /\ [][TStep]_tv
=============================================================================
