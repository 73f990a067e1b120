---------------------------- MODULE TraceCompose ----------------------------
(* Judges recorded data of real surveys: each is the concatenation of what   *)
(* the source-receiver pairs give alone.                                     *)
EXTENDS TraceLib
VARIABLES refs
C == INSTANCE Compose WITH NSrc <- 1, NRx <- 1, sel <- 0, grp <- 0, todo <- 0, flds <- 0, out <- 0, pos <- 0
tv == <<l, bad, refs>>
TInit == TraceVarsInit /\ refs = <<>>
PKey(s, r) == ToString(s) \o "." \o ToString(r)
Want(sel, f(_)) == FlattenS([i \in 1..Len(sel) |-> LET x == sel[i] p == refs[PKey(x.s, x.r)] IN
                     C!Pick(f(p), C!RxIdx(p.nl, p.nt, p.nc, x.pl, x.pt, x.pc))])
TStep == Consume /\ LET e == Line IN
  \/ e.op = "new" /\ refs' = <<>> /\ Flag(<<>>)
  \/ /\ e.op = "pair" /\ refs' = (PKey(e.s, e.r) :> e) @@ refs
     /\ Flag(Clause(Len(e.d) = e.nl * e.nt * e.nc /\ \A i \in 1..Len(e.d) : Finite(e.d[i]), "pair-data-count"))
  \/ /\ e.op = "survey" /\ UNCHANGED refs
     /\ Flag(Clause(SeqNear(e.d, Want(e.sel, LAMBDA p : p.d), e.tol), "data-are-the-pairs-data")
          \o Clause(e.jv = <<>> \/ SeqNear(e.jv, Want(e.sel, LAMBDA p : p.jv), e.tol), "sensitivity-rows-are-the-pairs-rows"))
  \/ /\ e.op = "adjoint" /\ UNCHANGED refs      \* whole pairs only: the transposed product is the sum over pairs
     /\ Flag(Clause(\A j \in 1..Len(e.jt) : Near(e.jt[j], SumSeq([i \in 1..Len(e.pairs) |-> e.pairs[i][j]]), e.tol), "transposed-product-sums-over-pairs"))
  \/ e.op = "exception" /\ UNCHANGED refs /\ Flag(ExcClauses(e))
TraceSpec == TInit /\ [][TStep]_tv
=============================================================================
