-------------------------------- MODULE Maps ---------------------------------
(* The algebra of model maps, on integers.  A map expression is a tree:       *)
(*   leaves   select, embed, tile, project, average, weight, shift or square  *)
(*            the entries of a model,                                         *)
(*   "mul"    composition,   "sum"  entrywise sum.                            *)
(* A leaf other than "sq" is an integer matrix and an offset; the value of an *)
(* expression and its Jacobian follow from those of its leaves.               *)
EXTENDS VLib

Unit(n, k) == [i \in 1..n |-> IF i = k THEN 1 ELSE 0]
Add(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
MatMul2(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> SumSeq([k \in 1..Len(B) |-> A[i][k] * B[k][j]])]]
MatAdd(A, B) == [i \in 1..Len(A) |-> Add(A[i], B[i])]

\* ---- where the leaves put the entries of the model (zero based indices in the records)
Positions(act) == SelectSeq([i \in 1..Len(act) |-> i], LAMBDA i : act[i])
\* slice(start, stop, step) of n entries, start and stop already within range, step of either sign
SliceIdx(st, sp, step) == IF step > 0 THEN [i \in 1..(IF sp > st THEN ((sp - st - 1) \div step) + 1 ELSE 0) |-> st + (i - 1) * step]
                          ELSE [i \in 1..(IF st > sp THEN ((st - sp - 1) \div (-step)) + 1 ELSE 0) |-> st + (i - 1) * step]
\* the index lists: entry i of the result is entry Src[i] of the model
SrcIdx(t) ==
  CASE t.k = "proj" -> [i \in 1..Len(t.idx) |-> t.idx[i] + 1]
    [] t.k = "bproj" -> Positions(t.act)
    [] t.k = "slice" -> [i \in 1..Len(SliceIdx(t.st, t.sp, t.step)) |-> SliceIdx(t.st, t.sp, t.step)[i] + 1]
    [] t.k = "full" -> [i \in 1..t.n |-> 1]
    [] t.k = "vert" -> [i \in 1..(t.rep * t.nz) |-> ((i - 1) \div t.rep) + 1]
    \* 2D onto 3D: cell (x,y,z) is 1 + x + nx*(y + ny*z)
    [] t.k = "ext" -> [i \in 1..(t.nx * t.ny * t.nz) |->
         LET x == (i - 1) % t.nx  y == ((i - 1) \div t.nx) % t.ny  z == (i - 1) \div (t.nx * t.ny) IN
         CASE t.normal = "x" -> 1 + y + t.ny * z [] t.normal = "y" -> 1 + x + t.nx * z [] t.normal = "z" -> 1 + x + t.nx * y]
IsIdx(t) == t.k \in {"proj", "bproj", "slice", "full", "vert", "ext"}

LeafCols(t) == CASE t.k \in {"id", "sq", "wild"} -> t.n
                 [] t.k \in {"proj", "bproj", "slice"} -> t.n
                 [] t.k = "full" -> 1
                 [] t.k = "vert" -> t.nz
                 [] t.k = "ext" -> (CASE t.normal = "x" -> t.ny * t.nz [] t.normal = "y" -> t.nx * t.nz [] t.normal = "z" -> t.nx * t.ny)
                 [] t.k = "inj" -> Len(Positions(t.act))
                 [] t.k = "units" -> Len(t.ind)
                 [] t.k = "lin" -> Len(t.A[1])
                 [] t.k = "wt" -> Len(t.w)
Rank(act, i) == Cardinality({j \in 1..i : act[j]})
LeafMat(t) == CASE t.k \in {"id", "wild"} -> [i \in 1..t.n |-> Unit(t.n, i)]
                [] IsIdx(t) -> [i \in 1..Len(SrcIdx(t)) |-> Unit(LeafCols(t), SrcIdx(t)[i])]
                [] t.k = "inj" -> [i \in 1..Len(t.act) |-> IF t.act[i] THEN Unit(LeafCols(t), Rank(t.act, i)) ELSE Zeros(LeafCols(t))]
                [] t.k = "units" -> [i \in 1..Len(t.ind[1]) |-> [u \in 1..Len(t.ind) |-> IF t.ind[u][i] THEN 1 ELSE 0]]
                [] t.k = "lin" -> t.A
                [] t.k = "wt" -> [i \in 1..Len(t.w) |-> [j \in 1..Len(t.w) |-> IF i = j THEN t.w[i] ELSE 0]]
LeafRows(t) == IF t.k = "sq" THEN t.n ELSE Len(LeafMat(t))
LeafOff(t) == CASE t.k = "lin" -> t.b
                [] t.k = "inj" -> [i \in 1..Len(t.act) |-> IF t.act[i] THEN 0 ELSE t.val[i - Rank(t.act, i)]]
                [] OTHER -> Zeros(LeafRows(t))
LeafVal(t, m) == IF t.k = "sq" THEN [i \in 1..t.n |-> m[i] * m[i]] ELSE Add(MatVec(LeafMat(t), m), LeafOff(t))
LeafJac(t, m) == IF t.k = "sq" THEN [i \in 1..t.n |-> [j \in 1..t.n |-> IF i = j THEN 2 * m[i] ELSE 0]] ELSE LeafMat(t)

\* ---- expressions
RECURSIVE Rows(_), Cols(_), Val(_, _), Jac(_, _), Linear(_), Ok(_)
Node(t) == t.k \in {"mul", "sum"}
Rows(t) == IF Node(t) THEN Rows(t.a) ELSE LeafRows(t)
Cols(t) == IF t.k = "mul" THEN Cols(t.b) ELSE IF t.k = "sum" THEN Cols(t.a) ELSE LeafCols(t)
\* what is accepted: composition when the inner result fits the outer model, sums of equal shapes
Ok(t) == CASE t.k = "mul" -> Ok(t.a) /\ Ok(t.b) /\ Cols(t.a) = Rows(t.b)
           [] t.k = "sum" -> Ok(t.a) /\ Ok(t.b) /\ Rows(t.a) = Rows(t.b) /\ Cols(t.a) = Cols(t.b)
           [] OTHER -> TRUE
Val(t, m) == CASE t.k = "mul" -> Val(t.a, Val(t.b, m))
               [] t.k = "sum" -> Add(Val(t.a, m), Val(t.b, m))
               [] OTHER -> LeafVal(t, m)
Jac(t, m) == CASE t.k = "mul" -> MatMul2(Jac(t.a, Val(t.b, m)), Jac(t.b, m))
               [] t.k = "sum" -> MatAdd(Jac(t.a, m), Jac(t.b, m))
               [] OTHER -> LeafJac(t, m)
Linear(t) == IF Node(t) THEN Linear(t.a) /\ Linear(t.b) ELSE t.k # "sq"

\* ---- the design: an expression is kept as a flat list of factors; values and derivatives are
\* accumulated from the right, factor by factor.  Checked against truth by dual numbers.
CONSTANTS Leaves, MaxLen, Ms
VARIABLES chain, m0, v0, k, val, der
mvars == <<chain, m0, v0, k, val, der>>
RECURSIVE Dual(_, _, _)   \* <<value, derivative along v>> evaluated in dual numbers
Dual(t, m, v) == IF t.k = "mul" THEN LET d == Dual(t.b, m, v) IN Dual(t.a, d[1], d[2])
                 ELSE IF t.k = "sum" THEN LET a == Dual(t.a, m, v) b == Dual(t.b, m, v) IN <<Add(a[1], b[1]), Add(a[2], b[2])>>
                 ELSE IF t.k = "sq" THEN <<[i \in 1..Len(m) |-> m[i] * m[i]], [i \in 1..Len(m) |-> 2 * m[i] * v[i]]>>
                 ELSE <<Add(MatVec(LeafMat(t), m), LeafOff(t)), MatVec(LeafMat(t), v)>>
\* every way of bracketing a chain of factors is the same map
RECURSIVE Trees(_)
Trees(c) == IF Len(c) = 1 THEN {c[1]}
            ELSE UNION {{[k |-> "mul", a |-> x, b |-> y] : x \in Trees(SubSeq(c, 1, i)), y \in Trees(SubSeq(c, i + 1, Len(c)))} : i \in 1..(Len(c) - 1)}
RECURSIVE ChainOk(_)
ChainOk(c) == Len(c) <= 1 \/ (LeafCols(c[1]) = LeafRows(c[2]) /\ ChainOk(Tail(c)))
MInit == /\ \E n \in 1..MaxLen : chain \in {c \in [1..n -> Leaves] : ChainOk(c)}
         /\ m0 \in [1..LeafCols(chain[Len(chain)]) -> Ms] /\ v0 \in [1..LeafCols(chain[Len(chain)]) -> Ms]
         /\ k = Len(chain) /\ val = m0 /\ der = v0
Factor == /\ k > 0 /\ k' = k - 1
          /\ val' = LeafVal(chain[k], val) /\ der' = MatVec(LeafJac(chain[k], val), der)
          /\ UNCHANGED <<chain, m0, v0>>
MSpec == MInit /\ [][Factor]_mvars
AllBracketingsAgree == k = 0 => \A t \in Trees(chain) : Val(t, m0) = val /\ MatVec(Jac(t, m0), v0) = der /\ Dual(t, m0, v0) = <<val, der>>
SumRule == k = Len(chain) => \A t \in Trees(chain) :
     LET s == [k |-> "sum", a |-> t, b |-> t] IN Dual(s, m0, v0)[2] = MatVec(Jac(s, m0), v0) /\ Val(s, m0) = Dual(s, m0, v0)[1]
DLeaves == {[k |-> "id", n |-> 2], [k |-> "sq", n |-> 2], [k |-> "proj", n |-> 2, idx |-> <<1, 0>>],
            [k |-> "inj", act |-> <<TRUE, FALSE, TRUE>>, val |-> <<2>>], [k |-> "slice", n |-> 3, st |-> 2, sp |-> 0, step |-> -1],
            [k |-> "lin", A |-> <<<<1, 0>>, <<-1, 2>>>>, b |-> <<1, 0>>], [k |-> "full", n |-> 2],
            [k |-> "lin", A |-> <<<<1, 1, -1>>>>, b |-> <<0>>]}
DMs == {1, -2}
=============================================================================
