------------------------------ MODULE Survey ------------------------------
(* C03.  A survey is a sequence of sources, each with a sequence of         *)
(* receivers; receiver k yields shape[s][r] data.  The data vector is the   *)
(* concatenation in source-major, receiver-minor order, and every index,    *)
(* slice, count and per-datum attribute follows from that one layout.       *)
EXTENDS VLib

VARIABLES shape,      \* <<source -> <<receiver -> number of data>>>>
          fps,        \* number of field columns of each source
          vec,        \* the observed data (integers)
          rel4, nf    \* 4 * relative error, noise floor: per datum, or <<>> = not set
svars == <<shape, fps, vec, rel4, nf>>

\* --------------------------------------------------------------- layout
SrcND(s)  == SumSeq(shape[s])
VND       == [s \in 1..Len(shape) |-> SrcND(s)]
ND        == SumSeq(VND)
Before(s, r) == SumSeq([i \in 1..(s - 1) |-> SrcND(i)]) + SumSeq(SubSeq(shape[s], 1, r - 1))
SliceOf(s, r) == <<Before(s, r), Before(s, r) + shape[s][r]>>      \* [start, stop)
Pairs == FlattenS([s \in 1..Len(shape) |-> [r \in 1..Len(shape[s]) |-> <<s, r>>]])
AllSlices == [k \in 1..Len(Pairs) |-> SliceOf(Pairs[k][1], Pairs[k][2])]
\* the field columns that belong to a source
ColsOf(s) == LET b == SumSeq(SubSeq(fps, 1, s - 1)) IN [i \in 1..fps[s] |-> b + i - 1]
GetItem(s, r) == LET sl == SliceOf(s, r) IN SubSeq(vec, sl[1] + 1, sl[2])
\* owner of each datum: what makes a per-datum attribute array "aligned"
OwnerOf(k) == CHOOSE p \in ToSet(Pairs) : SliceOf(p[1], p[2])[1] < k /\ k <= SliceOf(p[1], p[2])[2]

\* --------------------------------------------------------------- uncertainties
HasStd == rel4 # <<>> \/ nf # <<>>
\* 16 * standard_deviation^2
Var16 == [k \in 1..Len(vec) |->
            (IF rel4 = <<>> THEN 0 ELSE (rel4[k] * vec[k]) * (rel4[k] * vec[k]))
          + (IF nf = <<>> THEN 0 ELSE 16 * nf[k] * nf[k])]
Legal(v) == \A k \in 1..Len(v) : v[k] >= 0
\* a scalar stands for the constant vector
Widen(v, n) == IF Len(v) = 1 THEN [k \in 1..n |-> v[1]] ELSE v
AcceptErr(v) == v = <<>> \/ (Len(Widen(v, Len(vec))) = Len(vec) /\ Legal(v))

\* --------------------------------------------------------------- actions
SetItem(s, r, vals) ==
  LET sl == SliceOf(s, r) IN
  vec' = [k \in 1..Len(vec) |-> IF sl[1] < k /\ k <= sl[2] THEN vals[k - sl[1]] ELSE vec[k]]
  /\ UNCHANGED <<shape, fps, rel4, nf>>
SetVec(v) == /\ vec' = (IF Len(v) = Len(vec) THEN v ELSE vec)
             /\ UNCHANGED <<shape, fps, rel4, nf>>
SetRel(v) == /\ rel4' = (IF AcceptErr(v) THEN (IF v = <<>> THEN <<>> ELSE Widen(v, Len(vec))) ELSE rel4)
             /\ UNCHANGED <<shape, fps, vec, nf>>
SetNoise(v) == /\ nf' = (IF AcceptErr(v) THEN (IF v = <<>> THEN <<>> ELSE Widen(v, Len(vec))) ELSE nf)
               /\ UNCHANGED <<shape, fps, vec, rel4>>
SetStd(v) == /\ AcceptErr(v) /\ v # <<>>
             /\ rel4' = Zeros(Len(vec)) /\ nf' = Widen(v, Len(vec))
             /\ UNCHANGED <<shape, fps, vec>>
\* a new list of sources / receivers: everything derived is derived from the new list
NewShape(sh, f) == /\ shape' = sh /\ fps' = f
                   /\ LET n == SumSeq([s \in 1..Len(sh) |-> SumSeq(sh[s])]) IN
                        vec' = Zeros(n) /\ rel4' = Zeros(n) /\ nf' = Zeros(n)

\* --------------------------------------------------------------- bounded design model
CONSTANTS MaxSrc, MaxRx, MaxN
BRx == UNION {[1..k -> 1..MaxN] : k \in 0..MaxRx}
BShapes == UNION {[1..k -> BRx] : k \in 0..MaxSrc}
Init == /\ shape \in BShapes
        /\ fps \in [1..Len(shape) -> 1..2]
        /\ vec = Zeros(ND) /\ rel4 = Zeros(ND) /\ nf = Zeros(ND)
ErrDom == {<<>>, <<1>>, <<-1>>}
ASetItem == \E k \in 1..Len(Pairs) : \E c \in 1..2 :
              SetItem(Pairs[k][1], Pairs[k][2], [i \in 1..shape[Pairs[k][1]][Pairs[k][2]] |-> c * i])
ASetRel == \E v \in ErrDom : SetRel(v)
ASetNoise == \E v \in ErrDom : SetNoise(v)
ASetStd == \E v \in {<<3>>} : SetStd(v)
Next == ASetItem \/ ASetRel \/ ASetNoise \/ ASetStd
Spec == Init /\ [][Next]_svars

\* the slices partition 0..nD-1 in order
Partition == LET A == AllSlices n == Len(A) IN
             /\ (n > 0 => A[1][1] = 0 /\ A[n][2] = ND)
             /\ \A k \in 1..(n - 1) : A[k][2] = A[k + 1][1]
             /\ \A k \in 1..ND : Cardinality({i \in 1..n : A[i][1] < k /\ k <= A[i][2]}) = 1
Lengths == Len(vec) = ND /\ Len(rel4) \in {0, ND} /\ Len(nf) \in {0, ND}
ErrLegal == Legal(rel4) /\ Legal(nf)
ColumnsPartition == FlattenS([s \in 1..Len(shape) |-> ColsOf(s)]) = [i \in 1..SumSeq(fps) |-> i - 1]
\* writing one slice leaves every other datum alone and reads back what was written
OnlySlice == [][LET A == AllSlices
                    ch == {k \in 1..Len(vec) : vec'[k] # vec[k]} IN
                  ch = {} \/ \E i \in 1..Len(A) : \A k \in ch : A[i][1] < k /\ k <= A[i][2]]_svars
=============================================================================
