------------------------------ MODULE TraceMaps ------------------------------
EXTENDS TraceLib
M == INSTANCE Maps WITH Leaves <- {}, MaxLen <- 1, Ms <- {0}, chain <- 0, m0 <- 0, v0 <- 0, k <- 0, val <- 0, der <- 0
tv == <<l, bad>>
TInit == TraceVarsInit
DimOk(d, want) == d = want \/ d = -1               \* -1: a wildcard "*"
\* ---- integer expressions: exact
RECURSIVE HasWild(_), WildSum(_)
HasWild(t) == IF M!Node(t) THEN HasWild(t.a) \/ HasWild(t.b) ELSE t.k = "wild"
WildSum(t) == M!Node(t) /\ (WildSum(t.a) \/ WildSum(t.b) \/ (t.k = "sum" /\ HasWild(t)))
\* a sum whose terms leave their shape open may be refused
ExprOK(e) ==
  IF ~M!Ok(e.t) THEN Clause(e.refused, "misfits-are-refused")
  ELSE IF e.refused /\ WildSum(e.t) THEN <<>> ELSE IF e.refused THEN <<"fitting-maps-are-accepted">>
  ELSE Clause(DimOk(e.shape[1], M!Rows(e.t)) /\ DimOk(e.shape[2], M!Cols(e.t)), "declared-shape")
    \o Clause(DimOk(e.nP, M!Cols(e.t)), "declared-parameters")
    \o Clause(e.linear = M!Linear(e.t), "linear-flag")
    \o FlattenS([i \in 1..Len(e.at) |-> LET x == e.at[i] IN
         Clause(x.y = M!Val(e.t, x.m), "value-is-composition")
      \o Clause(x.J = M!Jac(e.t, x.m), "derivative-matrix-is-chain-rule")
      \o Clause(x.Jv = M!MatVec(M!Jac(e.t, x.m), x.v), "derivative-times-vector")
      \o Clause(x.clean, "inputs-untouched")])
\* ---- any map: J (one row per result) on one integer scale per row
MapOK(e) ==
     Clause(DimOk(e.shape[1], e.n) /\ DimOk(e.shape[2], e.np), "declared-shape")
  \o Clause(DimOk(e.nP, e.np), "declared-parameters")
  \o Clause(Len(e.J) = e.n /\ \A i \in 1..Len(e.J) : Len(e.J[i]) = e.np /\ \A j \in 1..e.np : Finite(e.J[i][j]), "derivative-shape")
  \o (IF Len(e.J) = e.n /\ \A i \in 1..Len(e.J) : Len(e.J[i]) = e.np THEN
        Clause(\A i \in 1..e.n : Near(e.Jv[i], M!Dot(e.J[i], e.v), e.tv), "derivative-times-vector")
     \o Clause(\A i \in 1..e.n : \A j \in 1..e.np : Near(e.F[i][j], e.J[i][j], e.tf), "derivative-is-jacobian")
      ELSE <<>>)
  \o Clause(e.linear => e.curv = 0, "linear-flag")
  \o Clause(e.clean, "inputs-untouched")
\* ---- volume averages: V_l * out_l = sum of V_g m_g over the active global cells in local cell l
TileOK(e) == LET keep == SelectSeq([i \in 1..e.nl |-> i], LAMBDA i : \E g \in 1..Len(e.inl) : e.inl[g] = i - 1 /\ e.act[g])
                 na == Len(SelectSeq(e.act, LAMBDA a : a))
                 Rk(g) == Cardinality({j \in 1..g : e.act[j]}) IN
     Clause(e.lact = [i \in 1..e.nl |-> \E g \in 1..Len(e.inl) : e.inl[g] = i - 1 /\ e.act[g]], "local-active-cells")
  \o Clause(e.out = FlattenS([q \in 1..e.comp |-> [i \in 1..Len(keep) |->
        SumSeq([g \in 1..Len(e.inl) |-> IF e.act[g] /\ e.inl[g] = keep[i] - 1 THEN e.vg[g] * e.m[(q - 1) * na + Rk(g)] ELSE 0])]]), "volume-average")
TStep == Consume /\ LET e == Line IN
  \/ e.op = "case" /\ Flag(<<>>)
  \/ e.op = "expr" /\ Flag(ExprOK(e))
  \/ e.op = "map" /\ Flag(MapOK(e))
  \/ e.op = "tile" /\ Flag(TileOK(e))
  \/ e.op = "same" /\ Flag(Clause(SeqNear(e.got, e.want, e.tol), e.what))
  \/ e.op = "true" /\ Flag(Clause(e.ok, e.what))
  \/ e.op = "wires" /\ Flag(Clause(e.out = [w \in 1..Len(e.len) |-> LET o == SumSeq(SubSeq(e.len, 1, w - 1)) IN SubSeq(e.m, o + 1, o + e.len[w])], "wires-split-the-model"))
  \/ e.op = "exception" /\ Flag(ExcClauses(e))
TraceSpec == TInit /\ [][TStep]_tv
=============================================================================
