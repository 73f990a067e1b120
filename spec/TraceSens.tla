----------------------------- MODULE TraceSens -----------------------------
(* Judges sensitivity products recorded from the real simulations: R holds   *)
(* rows of the transposed product on unit vectors (integers, scaled per      *)
(* source-receiver block), and everything else has to be a product with it.  *)
EXTENDS TraceLib
S == INSTANCE Sens WITH Vals <- {0}, G <- 0, L <- 0, P <- 0, F <- 0, vin <- 0, win <- 0, k <- 0, jv <- 0, jtv <- 0, phase <- 0
TInit == TraceVarsInit
AllFinite(R) == \A i \in 1..Len(R) : \A j \in 1..Len(R[i]) : Finite(R[i][j])
NonZero(R) == \E i \in 1..Len(R) : \E j \in 1..Len(R[i]) : R[i][j] # 0
TStep == Consume /\ LET e == Line IN
  \/ e.op = "new" /\ Flag(Clause(e.nD = e.nd, "data-count") \o Clause(e.nrow = e.nP, "transposed-product-length"))
  \/ /\ e.op = "forward"            \* Jvec(v) = R v
     /\ Flag(Clause(AllFinite(e.R), "finite") \o Clause(SeqNear(e.got, S!JVec(e.R, e.c), e.tol), "forward-is-adjoint-of-transposed:" \o e.how))
  \/ /\ e.op = "fd"                 \* directional derivative of the data = R v
     /\ Flag(Clause(SeqNear(e.got, S!JVec(e.R, e.c), e.tol), "derivative-of-data"))
  \/ /\ e.op = "transposed"         \* Jtvec(w) = R^T w
     /\ Flag(Clause(AllFinite(e.R), "finite") \o Clause(SeqNear(e.got, S!JTVec(e.R, e.w), e.tol), "transposed-product-linear:" \o e.how))
  \/ /\ e.op = "explicit"           \* rows of getJ
     /\ Flag(Clause(e.shape = e.want, "explicit-shape") \o
             Clause(Len(e.got) = Len(e.R) /\ \A i \in 1..Len(e.R) : SeqNear(e.got[i], e.R[i], e.tol), "explicit-matrix"))
  \/ /\ e.op = "diag"               \* diagonal of J^T W^T W J
     /\ Flag(Clause(LET d == S!DiagW(e.R, e.w) IN
                    Len(e.got) = Len(d) /\ \A j \in 1..Len(d) : Near(e.got[j], d[j], e.tol + d[j] \div 50), "sensitivity-diagonal:" \o e.how))
  \/ e.op = "exception" /\ Flag(ExcClauses(e))
TraceSpec == TInit /\ [][TStep]_<<l, bad>>
=============================================================================
