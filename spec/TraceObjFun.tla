----------------------------- MODULE TraceObjFun -----------------------------
EXTENDS TraceLib
VARIABLES obj
O == INSTANCE ObjFun WITH Leafs <- <<>>, Mults <- {}, MaxObj <- 0, Ms <- {}, obj <- 0, run <- 0
tv == <<l, bad, obj>>
TInit == TraceVarsInit /\ obj = <<>>
\* every evaluation reports value, gradient, Hessian products for a vector and (where offered) the unit vectors
EvalOK(e) ==
     Clause(e.val = O!Val(obj, e.i, e.m), "value-is-weighted-sum")
  \o Clause(e.grad = O!Grad(obj, e.i, e.m), "gradient-is-weighted-sum")
  \o Clause(e.hv = O!Hess(obj, e.i, e.m, e.v), "hessian-product-is-weighted-sum")
  \o Clause(e.H = <<>> \/ \A j \in 1..Len(e.m) : e.H[j] = O!Hess(obj, e.i, e.m, [q \in 1..Len(e.m) |-> IF q = j THEN 1 ELSE 0]), "hessian-matrix-is-weighted-sum")
  \o Clause(e.clean, "inputs-untouched")
\* the terms and multipliers reported by a combination
TermsOK(e) == Clause(e.len = Len(obj[e.i].terms) /\ e.refs = [j \in 1..Len(obj[e.i].terms) |-> obj[e.i].terms[j][2]], "terms-reported")
  \o Clause(e.mults = [j \in 1..Len(obj[e.i].terms) |-> O!Times(obj[e.i].terms[j][1], 64)], "multipliers-reported")
TStep == Consume /\ LET e == Line IN
  \/ e.op = "new" /\ obj' = <<>> /\ Flag(<<>>)
  \/ e.op = "leaf" /\ obj' = Append(obj, e.o) /\ Flag(<<>>)
  \/ e.op = "add" /\ obj' = O!AddObj(obj, e.i, e.j) /\ Flag(<<>>)
  \/ e.op = "scale" /\ obj' = O!ScaleObj(obj, e.i, e.c) /\ Flag(<<>>)
  \/ e.op = "combo" /\ obj' = Append(obj, [k |-> "combo", terms |-> [j \in 1..Len(e.refs) |-> <<e.mults[j], e.refs[j]>>], unpack |-> e.unpack]) /\ Flag(<<>>)
  \/ e.op = "setmult" /\ obj' = O!SetMult(obj, e.i, e.j, e.c) /\ Flag(<<>>)
  \/ e.op = "setmap" /\ obj' = [obj EXCEPT ![e.i].t = e.t, ![e.i].W = e.W] /\ Flag(<<>>)
  \/ e.op = "setw" /\ obj' = [obj EXCEPT ![e.i].W = e.W] /\ Flag(<<>>)
  \/ e.op = "setdata" /\ obj' = [obj EXCEPT ![e.i].d = e.d, ![e.i].W = e.W] /\ Flag(<<>>)
  \/ e.op = "bad" /\ UNCHANGED obj /\ Flag(Clause(e.refused, "refused:" \o e.what))
  \/ e.op = "eval" /\ UNCHANGED obj /\ Flag(EvalOK(e))
  \/ e.op = "terms" /\ UNCHANGED obj /\ Flag(TermsOK(e))
  \/ e.op = "true" /\ UNCHANGED obj /\ Flag(Clause(e.ok, e.what))
  \/ e.op = "same" /\ UNCHANGED obj /\ Flag(Clause(SeqNear(e.got, e.want, e.tol), e.what))
  \/ e.op = "exception" /\ UNCHANGED obj /\ Flag(ExcClauses(e))
TraceSpec == TInit /\ [][TStep]_tv
=============================================================================
