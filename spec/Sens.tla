-------------------------------- MODULE Sens --------------------------------
(* Sensitivities of an implicit forward problem, one source after another.   *)
(*   A(m) u_s = q_s(m),  d_s = P_s u_s + f_s(m)                              *)
(* The forward product loops over sources and fills the data blocks, the     *)
(* transposed product loops over sources and accumulates in model space.     *)
(* Both have to be products with one and the same matrix Jmat.               *)
EXTENDS VLib

\* ---- the operators the trace judge uses
JVec(R, c) == [i \in 1..Len(R) |-> Dot(R[i], c)]
JTVec(R, w) == [j \in 1..Len(R[1]) |-> SumSeq([i \in 1..Len(R) |-> R[i][j] * w[i]])]
DiagW(R, w) == [j \in 1..Len(R[1]) |-> SumSeq([i \in 1..Len(R) |-> (R[i][j] * w[i]) * (R[i][j] * w[i])])]

\* ---- the algorithm, on 2 sources, 2 unknowns, 2 parameters, 1 datum each
CONSTANTS Vals
VARIABLES G,      \* G[s] = d(A u - q)/dm for source s  (2 x 2)
          L,      \* A = [[1,0],[L,1]]
          P,      \* P[s] row picking the datum from the fields
          F,      \* F[s] direct dependence of the datum on the model
          vin, win, k, jv, jtv, phase
svars == <<G, L, P, F, vin, win, k, jv, jtv, phase>>
Solve(b) == <<b[1], b[2] - L * b[1]>>                 \* A^-1 b
SolveT(b) == <<b[1] - L * b[2], b[2]>>                \* A^-T b
RowOf(s) == LET y == SolveT(P[s]) IN [j \in 1..2 |-> F[s][j] - (y[1] * G[s][1][j] + y[2] * G[s][2][j])]
Jmat == <<RowOf(1), RowOf(2)>>

Vec2 == {<<a, b>> : a \in Vals, b \in Vals}
Init == /\ L \in Vals
        /\ P \in {<<p, <<1, 0>>>> : p \in Vec2}
        /\ F \in {<<f, <<0, 1>>>> : f \in Vec2}
        /\ G \in {<<<<g, h>>, <<<<1, 0>>, <<1, 1>>>>>> : g \in Vec2, h \in Vec2}
        /\ vin \in Vec2 /\ win \in {<<1, 1>>, <<0, 1>>, <<1, -1>>}
        /\ k = 1 /\ jv = <<>> /\ jtv = <<0, 0>> /\ phase = "fwd"
Forward == /\ phase = "fwd" /\ k <= 2
           /\ LET rhs == MatVec(G[k], vin)
                  du == Solve(<<-rhs[1], -rhs[2]>>)
              IN jv' = Append(jv, Dot(P[k], du) + Dot(F[k], vin))
           /\ k' = k + 1 /\ UNCHANGED <<G, L, P, F, vin, win, jtv, phase>>
Turn == phase = "fwd" /\ k = 3 /\ phase' = "adj" /\ k' = 1 /\ UNCHANGED <<G, L, P, F, vin, win, jv, jtv>>
Adjoint == /\ phase = "adj" /\ k <= 2
           /\ LET y == SolveT(ScaleSeq(win[k], P[k]))
              IN jtv' = [j \in 1..2 |-> jtv[j] + win[k] * F[k][j] - (y[1] * G[k][1][j] + y[2] * G[k][2][j])]
           /\ k' = k + 1 /\ UNCHANGED <<G, L, P, F, vin, win, jv, phase>>
Next == Forward \/ Turn \/ Adjoint
Spec == Init /\ [][Next]_svars
Done == phase = "adj" /\ k = 3
ForwardIsJ == (phase = "adj") => jv = JVec(Jmat, vin)
AdjointIsJT == Done => jtv = JTVec(Jmat, win)
AdjointIdentity == Done => Dot(win, jv) = Dot(jtv, vin)
DiagIsNorm == Done => \A j \in 1..2 : DiagW(Jmat, win)[j] = Dot(JVec(Jmat, [i \in 1..2 |-> IF i = j THEN 1 ELSE 0]),
                       [i \in 1..2 |-> win[i] * win[i] * JVec(Jmat, [q \in 1..2 |-> IF q = j THEN 1 ELSE 0])[i]])
=============================================================================
