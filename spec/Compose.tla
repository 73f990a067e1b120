------------------------------ MODULE Compose ------------------------------
(* What a survey measures.  A survey is a sequence of sources, each with a   *)
(* sequence of receivers; a receiver measures a block of data.  The value of *)
(* a datum is a function of its own source and receiver.  The simulation     *)
(* works source by source, but in any grouping it likes (by frequency, by    *)
(* unique electrode, by time): what counts is that the data come out as the  *)
(* concatenation of the blocks.                                              *)
EXTENDS VLib

\* ---- vocabulary shared with the judge
\* a part of a receiver: which locations, times, components, in which order
PartIdx(n, p) == CASE p = "all" -> [i \in 1..n |-> i]
                   [] p = "rev" -> [i \in 1..n |-> n + 1 - i]
                   [] p = "first" -> <<1>>
                   [] p = "last" -> <<n>>
                   [] p = "tail" -> IF n > 1 THEN [i \in 1..(n - 1) |-> i + 1] ELSE <<1>>
Parts == {"all", "rev", "first", "last", "tail"}
\* data of a receiver with nl locations, nt times, nc components:
\*   index ((t-1)*nl + (l-1))*nc + c
RxIdx(nl, nt, nc, pl, pt, pc) ==
  FlattenS([t \in 1..Len(PartIdx(nt, pt)) |-> FlattenS([x \in 1..Len(PartIdx(nl, pl)) |->
     [c \in 1..Len(PartIdx(nc, pc)) |-> ((PartIdx(nt, pt)[t] - 1) * nl + PartIdx(nl, pl)[x] - 1) * nc + PartIdx(nc, pc)[c]]])])
Pick(v, idx) == [i \in 1..Len(idx) |-> v[idx[i]]]

\* ---- the algorithm: fields are solved group by group, then projected pair by pair
CONSTANTS NSrc, NRx
VARIABLES sel, grp, todo, flds, out, pos
cvars == <<sel, grp, todo, flds, out, pos>>
PairVal(s, r) == 10 * s + r
Orders(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
RxSeqs == {SubSeq(o, 1, m) : o \in Orders(NRx), m \in 1..NRx}
Surveys == UNION {{[i \in 1..m |-> [s |-> o[i], rx |-> f[i]]] : f \in [1..m -> RxSeqs]} : <<o, m>> \in {<<o, m>> : o \in Orders(NSrc), m \in 1..NSrc}}
CInit == /\ sel \in Surveys
         /\ grp \in [1..NSrc -> 1..2]
         /\ todo = {1, 2} /\ flds = [i \in 1..Len(sel) |-> 0] /\ out = <<>> /\ pos = 1
\* solve all sources of one group (a frequency) in one go; columns go to their own places
SolveGroup == \E g \in todo :
    /\ todo' = todo \ {g}
    /\ flds' = [i \in 1..Len(sel) |-> IF grp[sel[i].s] = g THEN sel[i].s ELSE flds[i]]
    /\ UNCHANGED <<sel, grp, out, pos>>
Project == /\ todo = {} /\ pos <= Len(sel)
           /\ out' = out \o [r \in 1..Len(sel[pos].rx) |-> PairVal(flds[pos], sel[pos].rx[r])]
           /\ pos' = pos + 1 /\ UNCHANGED <<sel, grp, todo, flds>>
CNext == SolveGroup \/ Project
CSpec == CInit /\ [][CNext]_cvars
Expected == FlattenS([i \in 1..Len(sel) |-> [r \in 1..Len(sel[i].rx) |-> PairVal(sel[i].s, sel[i].rx[r])]])
DataAreConcatenation == pos > Len(sel) => out = Expected
=============================================================================
