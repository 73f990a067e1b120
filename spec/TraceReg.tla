------------------------------ MODULE TraceReg -------------------------------
EXTENDS TraceLib
VARIABLES ms, ac, D, tm, al
G == INSTANCE Reg WITH Kinds <- {}, Ms0 <- 0, Acts <- {}, WVals <- {}, Models <- {}, act <- 0, tm <- 0, wc <- 0, gc <- 0, asked <- 0
tv == <<l, bad, ms, ac, D, tm, al>>
TInit == TraceVarsInit /\ ms = 0 /\ ac = <<>> /\ D = 1 /\ tm = <<>> /\ al = <<>>
Upd(S, f(_)) == tm' = [i \in 1..Len(tm) |-> IF i \in S THEN f(tm[i]) ELSE tm[i]]
Same == UNCHANGED <<ms, ac, D, tm, al>>
Units(m, j) == [q \in 1..Len(m) |-> IF q = j THEN 1 ELSE 0]
EvalOK(e) == LET ts == IF e.i = 0 THEN tm ELSE <<tm[e.i]>>
                 aa == IF e.i = 0 THEN al ELSE <<1>> IN
     Clause(e.val = G!CVal(ms, ac, D, ts, aa, e.m), "value-is-documented-norm")
  \o Clause(e.grad = G!CGrad(ms, ac, D, ts, aa, e.m), "gradient-fits-value")
  \o Clause(e.hv = G!CHess(ms, ac, D, ts, aa, e.m, e.v), "hessian-product-fits-value")
  \o Clause(e.H = <<>> \/ \A j \in 1..Len(e.m) : e.H[j] = G!CHess(ms, ac, D, ts, aa, e.m, Units(e.m, j)), "hessian-matrix-fits-value")
  \o Clause(e.clean, "inputs-untouched")
NoRefs(t) == [t EXCEPT !.ref = <<>>]
TStep == Consume /\ LET e == Line IN
  \/ e.op = "new" /\ ms' = e.mesh /\ ac' = e.ac /\ D' = e.D /\ al' = e.al /\ Flag(<<>>)
       /\ tm' = [i \in 1..Len(e.terms) |-> [G!NewTerm(e.mesh, e.ac, e.terms[i].kind, e.terms[i].axis) EXCEPT !.al = e.alphas]]
  \* the active cells are set: user weights go, the volume is that of the active cells
  \/ e.op = "active" /\ ac' = e.ac /\ UNCHANGED <<ms, D, al>> /\ Flag(<<>>)
       /\ tm' = [i \in 1..Len(tm) |-> LET n == G!NewTerm(ms, e.ac, tm[i].kind, tm[i].axis) IN
                    [n EXCEPT !.insm = tm[i].insm, !.rad = tm[i].rad, !.al = e.alphas]]
  \/ e.op = "alpha" /\ al' = [al EXCEPT ![e.i] = e.val] /\ UNCHANGED <<ms, ac, D, tm>> /\ Flag(<<>>)
  \/ e.op = "len" /\ al' = [al EXCEPT ![e.i] = (e.val * G!BaseLen(ms)) * (e.val * G!BaseLen(ms))] /\ UNCHANGED <<ms, ac, D, tm>> /\ Flag(<<>>)
  \/ e.op = "ref" /\ Upd(ToSet(e.ts), LAMBDA t : [t EXCEPT !.ref = e.v]) /\ UNCHANGED <<ms, ac, D, al>> /\ Flag(<<>>)
  \/ e.op = "insm" /\ Upd(ToSet(e.ts), LAMBDA t : [t EXCEPT !.insm = e.val]) /\ UNCHANGED <<ms, ac, D, al>> /\ Flag(<<>>)
  \/ e.op = "units" /\ Upd(ToSet(e.ts), LAMBDA t : [t EXCEPT !.rad = e.rad]) /\ UNCHANGED <<ms, ac, D, al>> /\ Flag(<<>>)
  \/ e.op = "map" /\ Upd(ToSet(e.ts), LAMBDA t : [t EXCEPT !.t = e.t, !.ref = IF e.drop THEN <<>> ELSE @]) /\ UNCHANGED <<ms, ac, D, al>> /\ Flag(<<>>)
  \/ e.op = "setw" /\ UNCHANGED <<ms, ac, D, al>> /\ Flag(<<>>)
       /\ Upd(ToSet(e.ts), LAMBDA t : IF e.face THEN [t EXCEPT !.fw = G!Put(@, e.key, e.v), !.cw = G!Del(@, e.key)]
                                      ELSE [t EXCEPT !.cw = G!Put(@, e.key, e.v), !.fw = G!Del(@, e.key)])
  \/ e.op = "remw" /\ UNCHANGED <<ms, ac, D, al>> /\ Flag(<<>>)
       /\ Upd(ToSet(e.ts), LAMBDA t : [t EXCEPT !.cw = G!Del(@, e.key), !.fw = G!Del(@, e.key)])
  \/ e.op = "eval" /\ Same /\ Flag(EvalOK(e))
  \/ e.op = "mults" /\ Same /\ Flag(Clause(e.got = al, "multipliers-reported"))
  \/ e.op = "keys" /\ Same /\ Flag(Clause(ToSet(e.got) = (DOMAIN tm[e.i].cw \union DOMAIN tm[e.i].fw), "weights-reported"))
  \/ e.op = "bad" /\ Same /\ Flag(Clause(e.refused, "refused:" \o e.what))
  \/ e.op = "true" /\ Same /\ Flag(Clause(e.ok, e.what))
  \/ e.op = "same" /\ Same /\ Flag(Clause(SeqNear(e.got, e.want, e.tol), e.what))
  \/ e.op = "exception" /\ Same /\ Flag(ExcClauses(e))
TraceSpec == TInit /\ [][TStep]_tv
=============================================================================
