------------------------------- MODULE VLib -------------------------------
(* Shared vocabulary of the specifications and of the trace judges.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
BIG == 2000000000
Finite(x) == Abs(x) < BIG - 1

Near(a, b, t) == Finite(a) /\ Finite(b) /\ Abs(a - b) <= t
SeqNear(a, b, t) == /\ Len(a) = Len(b)
                    /\ \A i \in 1..Len(a) : Near(a[i], b[i], t)
\* sum of a sequence of integers
SumSeq(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
MapSeq(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
Zeros(n) == [i \in 1..n |-> 0]
Consts(n, c) == [i \in 1..n |-> c]
Dot(a, b) == SumSeq([i \in 1..Len(a) |-> a[i] * b[i]])
AddSeq(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
SubSeqE(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
MulSeq(a, b) == [i \in 1..Len(a) |-> a[i] * b[i]]
ScaleSeq(c, a) == [i \in 1..Len(a) |-> c * a[i]]
FlattenS(ss) == FoldLeft(LAMBDA x, y : x \o y, <<>>, ss)
\* matrices are sequences of rows
MatVec(M, v) == [i \in 1..Len(M) |-> Dot(M[i], v)]
TransposeM(M, ncol) == [j \in 1..ncol |-> [i \in 1..Len(M) |-> M[i][j]]]
MatMul(A, B, ncolB) == LET Bt == TransposeM(B, ncolB) IN
                         [i \in 1..Len(A) |-> [j \in 1..ncolB |-> Dot(A[i], Bt[j])]]

\* a clause of a verdict: empty when it holds, its name when it does not
Clause(ok, name) == IF ok THEN <<>> ELSE <<name>>
=============================================================================
