-------------------------------- MODULE Meta --------------------------------
(* Composite simulations: members paired with mappings, stitched, summed or  *)
(* one member repeated.  First what the answers are, in exact integers; then *)
(* the state machine of the models the members hold while a request walks    *)
(* over them.                                                                 *)
EXTENDS VLib
CONSTANTS NMember, Models, MapVers, Shared, MaxOps, SliceMax
VARIABLES mapv, held, asked, used, pos, nops, sizes
vars == <<mapv, held, asked, used, pos, nops, sizes>>

(* ----- the answers.  A member is [kind, G, H, sq, sub, maps]:
   poly    data  G u(m) + H m  with u(m) = m or m*m
   stitch / sum / repeat  over sub[i] behind maps[i] = [M, sq, b]               *)
Unit(k, n) == [j \in 1..n |-> IF j = k THEN 1 ELSE 0]
ApplyMap(p, m) == AddSeq(MatVec(p.M, IF p.sq THEN MulSeq(m, m) ELSE m), p.b)
DMap(p, m) == IF p.sq THEN [i \in DOMAIN p.M |-> [j \in DOMAIN m |-> 2 * p.M[i][j] * m[j]]] ELSE p.M
Sub(s, i) == IF s.kind = "repeat" THEN s.sub[1] ELSE s.sub[i]
SumVecs(vs) == FoldLeft(AddSeq, vs[1], Tail(vs))
RECURSIVE Dpred(_, _), J(_, _), Diag(_, _, _), ND(_)
ND(s) == CASE s.kind = "poly" -> Len(s.G)
           [] s.kind = "sum" -> ND(s.sub[1])
           [] OTHER -> SumSeq([i \in DOMAIN s.maps |-> ND(Sub(s, i))])
Dpred(s, m) ==
  IF s.kind = "poly" THEN AddSeq(MatVec(s.G, IF s.sq THEN MulSeq(m, m) ELSE m), MatVec(s.H, m))
  ELSE LET parts == [i \in DOMAIN s.maps |-> Dpred(Sub(s, i), ApplyMap(s.maps[i], m))]
       IN IF s.kind = "sum" THEN SumVecs(parts) ELSE FlattenS(parts)
J(s, m) ==
  IF s.kind = "poly" THEN [i \in DOMAIN s.G |-> [j \in DOMAIN m |-> (IF s.sq THEN 2 * s.G[i][j] * m[j] ELSE s.G[i][j]) + s.H[i][j]]]
  ELSE LET parts == [i \in DOMAIN s.maps |-> MatMul(J(Sub(s, i), ApplyMap(s.maps[i], m)), DMap(s.maps[i], m), Len(m))]
       IN IF s.kind = "sum" THEN [r \in DOMAIN parts[1] |-> SumVecs([i \in DOMAIN parts |-> parts[i][r]])] ELSE FlattenS(parts)
Jvec(s, m, v) == MatVec(J(s, m), v)
Jtvec(s, m, w) == LET A == J(s, m) IN [j \in DOMAIN m |-> SumSeq([i \in DOMAIN A |-> A[i][j] * w[i]])]
Offset(s, i) == SumSeq([k \in 1..(i - 1) |-> ND(Sub(s, k))])
Slice(s, i, w) == IF s.kind = "sum" THEN w ELSE SubSeq(w, Offset(s, i) + 1, Offset(s, i) + ND(Sub(s, i)))
\* the documented diagonal: members' own diagonals, with the weights of their slice, carried back by the mapping
Diag(s, m, w) ==
  IF s.kind = "poly" THEN LET A == J(s, m) IN [j \in DOMAIN m |-> SumSeq([i \in DOMAIN A |-> w[i] * w[i] * A[i][j] * A[i][j]])]
  ELSE SumVecs([i \in DOMAIN s.maps |->
         LET x == Diag(Sub(s, i), ApplyMap(s.maps[i], m), Slice(s, i, w))
             D == DMap(s.maps[i], m)
         IN [j \in DOMAIN m |-> SumSeq([r \in DOMAIN x |-> x[r] * D[r][j] * D[r][j]])]])

(* ----- laws of the slices, for every list of sizes: what the walk adds up slice by slice is the adjoint of what it lays end to end *)
SliceOf(sz, i, w) == LET o == SumSeq(SubSeq(sz, 1, i - 1)) IN SubSeq(w, o + 1, o + sz[i])
SlicesPartition == LET n == SumSeq(sizes) w == [k \in 1..n |-> k] IN FlattenS([i \in DOMAIN sizes |-> SliceOf(sizes, i, w)]) = w
SliceSizes == \A i \in DOMAIN sizes : Len(SliceOf(sizes, i, [k \in 1..SumSeq(sizes) |-> k])) = sizes[i]

(* ----- the walk of a request over the members: the model is pushed to a member just before it answers *)
Nobody == 0
Pushed(i) == <<mapv[i], asked>>                      \* stands for  mapping_i(model)
Slot(i) == IF Shared THEN 1 ELSE i
Init == /\ mapv \in [1..NMember -> {1}] /\ held = [i \in 1..NMember |-> <<0, 0>>] /\ asked = 0
        /\ used = [i \in 1..NMember |-> <<0, 0>>] /\ pos = Nobody /\ nops = 0
        /\ sizes \in UNION {[1..k -> 0..SliceMax] : k \in 1..NMember}
Count == nops < MaxOps /\ nops' = nops + 1
Ask(m) == Count /\ pos = Nobody /\ asked' = m /\ pos' = 1 /\ used' = [i \in 1..NMember |-> <<0, 0>>] /\ UNCHANGED <<mapv, held, sizes>>
Answer(i) == /\ pos = i /\ held' = [held EXCEPT ![Slot(i)] = Pushed(i)]
             /\ used' = [used EXCEPT ![i] = held'[Slot(i)]]
             /\ pos' = (IF i = NMember THEN Nobody ELSE i + 1) /\ UNCHANGED <<mapv, asked, nops, sizes>>
SetMap(i, v) == Count /\ pos = Nobody /\ mapv' = [mapv EXCEPT ![i] = v] /\ used' = [k \in 1..NMember |-> <<0, 0>>] /\ UNCHANGED <<held, asked, pos, sizes>>
Poke(i, m) == Count /\ pos = Nobody /\ held' = [held EXCEPT ![Slot(i)] = <<-1, m>>] /\ UNCHANGED <<mapv, asked, used, pos, sizes>>
Next == \/ \E m \in Models : Ask(m)
        \/ \E i \in 1..NMember : Answer(i)
        \/ \E i \in 1..NMember, v \in MapVers : SetMap(i, v)
        \/ \E i \in 1..NMember, m \in Models : Poke(i, m)
Spec == Init /\ [][Next]_vars
\* every answer was given at the model its mapping prescribes
Prescribed == \A i \in 1..NMember : used[i] # <<0, 0>> => used[i] = Pushed(i)
=============================================================================
