------------------------------ MODULE TraceRng ------------------------------
(* Judging sessions of randomised computations.  The streams are followed; an *)
(* answer asked for again at the same place of the same stream, in whatever   *)
(* session, must be the same, and answers from different places differ.        *)
EXTENDS TraceLib
VARIABLES gens, memo
tv == <<l, bad, gens, memo>>
F == INSTANCE Rng WITH Fns <- {}, Seeds <- {}, Gens <- {}, Objs <- {}, MaxOps <- 0, glob <- 0, fresh <- 0, heap <- 0, log <- 0, owner <- 0
None == F!Stream(0, <<>>)
TInit == TraceVarsInit /\ gens = [g \in 1..2 |-> None] /\ memo = [x \in {} |-> <<>>]
What(e) == <<e.fn, e.arg>>
Held(e) == e.how \in {"gen", "bits"}
Place(e) == IF e.how = "none" THEN F!Stream(-l, <<>>) ELSE IF Held(e) THEN gens[e.g] ELSE F!Stream(e.seed, <<>>)
Known(w) == IF w \in DOMAIN memo THEN memo[w] ELSE <<>>
CallClauses(e, p) == LET k == Known(What(e)) IN
      Clause(\A i \in DOMAIN k : k[i].at = p => SeqNear(k[i].ans, e.got, 3), "same-seed-same-answer")
   \o Clause(~e.spread \/ \A i \in DOMAIN k : k[i].at # p => ~SeqNear(k[i].ans, e.got, 3), "different-draws-differ")
   \o Clause(e.before = e.after, "global-random-state")
Remember(e, p) == LET k == Known(What(e)) IN
      IF \E i \in DOMAIN k : k[i].at = p THEN memo ELSE (What(e) :> Append(k, [at |-> p, ans |-> e.got])) @@ memo
SumOf(s) == SumSeq(s)
NoiseClauses(e) ==
      Clause(Len(e.z) = e.n, "noise-size")
   \o Clause(Cardinality({e.z[i] : i \in DOMAIN e.z}) >= (9 * e.n) \div 10, "noise-values-differ")
   \o Clause(LET s == SumSeq([i \in DOMAIN e.z |-> (e.z[i] \div 10) * (e.z[i] \div 10)]) IN 10 * s >= 6 * 10000 * e.n /\ 10 * s <= 15 * 10000 * e.n, "noise-level")
   \o Clause(Abs(SumOf(e.z)) <= 300 * e.n, "noise-mean")
Keep == UNCHANGED <<gens, memo>>
TStep == Consume /\ LET e == Line IN
  \/ e.op = "new" /\ Flag(<<>>) /\ gens' = [g \in 1..2 |-> None] /\ UNCHANGED memo
  \/ e.op = "make" /\ Flag(<<>>) /\ gens' = [gens EXCEPT ![e.g] = F!Stream(e.seed, <<>>)] /\ UNCHANGED memo
  \/ e.op = "call" /\ LET p == Place(e) IN
       /\ Flag(CallClauses(e, p)) /\ memo' = Remember(e, p)
       /\ gens' = IF Held(e) THEN [gens EXCEPT ![e.g].past = Append(@, What(e))] ELSE gens
  \/ e.op = "noise" /\ Flag(NoiseClauses(e)) /\ Keep
  \* what the caller handed over is as it was: one token for every array and setting
  \/ e.op = "frame" /\ Flag(Clause(e.before = e.after, "input-modified")) /\ Keep
  \/ e.op = "same" /\ Flag(Clause(SeqNear(e.got, e.want, e.tol), e.what)) /\ Keep
  \/ e.op = "true" /\ Flag(Clause(e.ok, e.what)) /\ Keep
  \/ e.op = "exception" /\ Flag(ExcClauses(e)) /\ Keep
TraceSpec == TInit /\ [][TStep]_tv
=============================================================================
