--------------------------------- MODULE Reg ---------------------------------
(* Regularization on a tensor mesh.  A mesh is [dim, n, h]: cells per axis and *)
(* cell widths; ac lists the active cells.  A term is                          *)
(*  [kind, axis, cw, fw, ref, insm, t, rad, al]                                *)
(* kind "small" | "first" | "second" | "full"; cw / fw are key -> values on     *)
(* active cells / on the active neighbour pairs along axis; ref the reference   *)
(* model (<<>> for none); t a map expression of Maps; rad: angles in units of   *)
(* pi/8; al: direction weights of "full" per cell.  D makes every quotient by a *)
(* cell distance an integer.                                                    *)
EXTENDS VLib
M == INSTANCE Maps WITH Leaves <- {}, MaxLen <- 1, Ms <- {0}, chain <- 0, m0 <- 0, v0 <- 0, k <- 0, val <- 0, der <- 0
Prod(s) == FoldLeft(LAMBDA x, y : x * y, 1, s)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Tr(AA) == LET A == TLCEval(AA) IN TLCEval([j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]])

Stride(ms, a) == Prod([b \in 1..(a - 1) |-> ms.n[b]])
NC(ms) == Prod(ms.n)
Ix(ms, c, a) == (((c - 1) \div Stride(ms, a)) % ms.n[a]) + 1
Vol(ms, c) == Prod([a \in 1..ms.dim |-> ms.h[a][Ix(ms, c, a)]])
BaseLen(ms) == CHOOSE x \in UNION {ToSet(ms.h[a]) : a \in 1..ms.dim} : \A y \in UNION {ToSet(ms.h[a]) : a \in 1..ms.dim} : x <= y
PosIn(ac, c) == CHOOSE i \in 1..Len(ac) : ac[i] = c
\* neighbouring active cells along an axis: <<lower, upper, twice the distance>>, in the order of the lower cell
Pairs(ms, ac, a) ==
  LET low == SelectSeq(ac, LAMBDA c : Ix(ms, c, a) < ms.n[a] /\ (c + Stride(ms, a)) \in ToSet(ac)) IN
  TLCEval([i \in 1..Len(low) |-> <<PosIn(ac, low[i]), PosIn(ac, low[i] + Stride(ms, a)), ms.h[a][Ix(ms, low[i], a)] + ms.h[a][Ix(ms, low[i], a) + 1]>>])

Wrap(x) == ((x + 8) % 16) - 8
Diff(D, ps, ff, rad) == LET f == TLCEval(ff) IN TLCEval([i \in 1..Len(ps) |-> ((2 * D) \div ps[i][3]) * (IF rad THEN Wrap(f[ps[i][2]] - f[ps[i][1]]) ELSE f[ps[i][2]] - f[ps[i][1]])])
DiffT(D, ps, nc, gg) == LET g == TLCEval(gg) IN TLCEval([c \in 1..nc |-> SumSeq([i \in 1..Len(ps) |->
    IF ps[i][2] = c THEN ((2 * D) \div ps[i][3]) * g[i] ELSE IF ps[i][1] = c THEN -((2 * D) \div ps[i][3]) * g[i] ELSE 0])])
KeysOf(w) == DOMAIN w
\* product of the weights on cells, and on pairs (each cell weight averaged on its own), in units of 1/8
CellW(t, c) == FoldSet(LAMBDA k, x : x * t.cw[k][c], 1, DOMAIN t.cw)
PairW(t, ps, i) == LET K == DOMAIN t.cw IN
   Pow(2, 3 - Cardinality(K)) * FoldSet(LAMBDA k, x : x * (t.cw[k][ps[i][1]] + t.cw[k][ps[i][2]]), 1, K) * FoldSet(LAMBDA k, x : x * t.fw[k][i], 1, DOMAIN t.fw)
\* the full gradient: the inner product on faces averages volume * direction weight * cell weights
FullW(t, ps, i, a) == 4 * (t.cv[ps[i][1]] * t.al[a][ps[i][1]] * CellW(t, ps[i][1]) + t.cv[ps[i][2]] * t.al[a][ps[i][2]] * CellW(t, ps[i][2]))
                      * FoldSet(LAMBDA k, x : x * t.fw[k][a][i], 1, DOMAIN t.fw)
UsesRef(t) == t.ref # <<>> /\ (t.kind \in {"small", "full"} \/ t.insm)
Kernel(t, m) == TLCEval(IF UsesRef(t) THEN SubSeqE(M!Val(t.t, m), M!Val(t.t, t.ref)) ELSE M!Val(t.t, m))
SmallF(t) == t.kind = "small"
\* weighted residual part of one term: << L f, weights >>, and L' applied to a vector; units 1 / (8 D^4)
\* (rad only enters through the value of the differences)
Lin(ms, ac, D, t, f, rad, a) ==
  CASE t.kind = "small"  -> f
    [] t.kind = "first"  -> Diff(D, Pairs(ms, ac, a), f, rad)
    [] t.kind = "full"   -> Diff(D, Pairs(ms, ac, a), f, FALSE)
    [] t.kind = "second" -> LET ps == Pairs(ms, ac, a) IN DiffT(D, ps, Len(ac), Diff(D, ps, f, rad))
LinT(ms, ac, D, t, r, a) ==
  CASE t.kind = "small"  -> r
    [] t.kind \in {"first", "full"} -> DiffT(D, Pairs(ms, ac, a), Len(ac), r)
    [] t.kind = "second" -> LET ps == Pairs(ms, ac, a) IN DiffT(D, ps, Len(ac), Diff(D, ps, r, FALSE))
Wts(ms, ac, D, t, a) == TLCEval(
  CASE t.kind = "small"  -> [c \in 1..Len(ac) |-> 8 * Pow(D, 4) * CellW(t, c)]
    [] t.kind = "first"  -> LET ps == Pairs(ms, ac, a) IN [i \in 1..Len(ps) |-> D * D * PairW(t, ps, i)]
    [] t.kind = "full"   -> LET ps == Pairs(ms, ac, a) IN [i \in 1..Len(ps) |-> D * D * FullW(t, ps, i, a)]
    [] t.kind = "second" -> [c \in 1..Len(ac) |-> 8 * CellW(t, c)])
MulE(x, y) == TLCEval(MulSeq(x, y))
MV(A, x) == TLCEval(MatVec(TLCEval(A), TLCEval(x)))
Axes(ms, t) == IF t.kind = "full" THEN 1..ms.dim ELSE {t.axis}
SumOver(S, f(_), n) == FoldSet(LAMBDA a, x : TLCEval(AddSeq(x, f(a))), Zeros(n), S)
TVal(ms, ac, D, t, m) == FoldSet(LAMBDA a, x : x + LET r == Lin(ms, ac, D, t, Kernel(t, m), t.rad, a) IN Dot(MulSeq(r, Wts(ms, ac, D, t, a)), r), 0, Axes(ms, t))
TGrad(ms, ac, D, t, m) == LET G(a) == LinT(ms, ac, D, t, MulE(Lin(ms, ac, D, t, Kernel(t, m), t.rad, a), Wts(ms, ac, D, t, a)), a)
                          IN ScaleSeq(2, MV(Tr(M!Jac(t.t, m)), SumOver(Axes(ms, t), G, Len(ac))))
THess(ms, ac, D, t, m, v) == LET J == M!Jac(t.t, m)
                                 G(a) == LinT(ms, ac, D, t, MulE(Lin(ms, ac, D, t, MV(J, v), FALSE, a), Wts(ms, ac, D, t, a)), a)
                             IN ScaleSeq(2, MV(Tr(J), SumOver(Axes(ms, t), G, Len(ac))))
\* a combination: terms with multipliers (integers)
CVal(ms, ac, D, ts, al, m) == SumSeq([i \in 1..Len(ts) |-> IF al[i] = 0 THEN 0 ELSE al[i] * TVal(ms, ac, D, ts[i], m)])
CGrad(ms, ac, D, ts, al, m) == FoldLeft(LAMBDA x, y : AddSeq(x, y), Zeros(Len(m)), [i \in 1..Len(ts) |-> IF al[i] = 0 THEN Zeros(Len(m)) ELSE ScaleSeq(al[i], TGrad(ms, ac, D, ts[i], m))])
CHess(ms, ac, D, ts, al, m, v) == FoldLeft(LAMBDA x, y : AddSeq(x, y), Zeros(Len(m)), [i \in 1..Len(ts) |-> IF al[i] = 0 THEN Zeros(Len(m)) ELSE ScaleSeq(al[i], THess(ms, ac, D, ts[i], m, v))])

\* the weights of a term once it lives on the active cells: only the volume survives
VolOf(ms, ac) == [i \in 1..Len(ac) |-> Vol(ms, ac[i])]
NewTerm(ms, ac, kind, axis) == [kind |-> kind, axis |-> axis, cw |-> IF kind = "full" THEN [x \in {} |-> <<>>] ELSE [x \in {"volume"} |-> VolOf(ms, ac)],
   fw |-> [x \in {} |-> <<>>], ref |-> <<>>, insm |-> FALSE, t |-> [k |-> "id", n |-> Len(ac)], rad |-> FALSE, al |-> <<>>, cv |-> VolOf(ms, ac)]
Put(w, k, v) == [x \in DOMAIN w \union {k} |-> IF x = k THEN v ELSE w[x]]
Del(w, k) == [x \in DOMAIN w \ {k} |-> w[x]]

\* ---- the design: every term keeps a product of its weights that is dropped when a weight
\* changes, and operators that are dropped when the active cells are set
CONSTANTS Kinds, Ms0, Acts, WVals, Models
VARIABLES act, tm, wc, gc, asked
rvars == <<act, tm, wc, gc, asked>>
None == <<>>
RInit == act = [i \in 1..NC(Ms0) |-> i] /\ tm = [kd \in Kinds |-> NewTerm(Ms0, act, kd, 1)]
         /\ wc = [kd \in DOMAIN tm |-> None] /\ gc = None /\ asked = None
SetW(kd) == \E v \in WVals : /\ tm' = [tm EXCEPT ![kd].cw = Put(@, "a", [i \in 1..Len(act) |-> IF i % 2 = 0 THEN v ELSE 1])]
                             /\ wc' = [wc EXCEPT ![kd] = None] /\ UNCHANGED <<act, gc>> /\ asked' = None
DelW(kd) == /\ "a" \in DOMAIN tm[kd].cw /\ tm' = [tm EXCEPT ![kd].cw = Del(@, "a")]
            /\ wc' = [wc EXCEPT ![kd] = None] /\ UNCHANGED <<act, gc>> /\ asked' = None
SetRef == /\ tm' = [kd \in DOMAIN tm |-> [tm[kd] EXCEPT !.ref = [i \in 1..Len(act) |-> i], !.insm = ~@]]
          /\ UNCHANGED <<act, wc, gc>> /\ asked' = None
SetAct == /\ Len(act) = NC(Ms0) /\ \E a \in Acts : act' = a
          /\ tm' = [kd \in DOMAIN tm |-> [tm[kd] EXCEPT !.cw = [x \in {"volume"} |-> VolOf(Ms0, act')], !.ref = <<>>, !.t = [k |-> "id", n |-> Len(act')]]]
          /\ wc' = [kd \in DOMAIN tm |-> None] /\ gc' = None /\ asked' = None
\* evaluation with the cached weights and cached operator (fills them when absent)
Ask(kd) == \E mm \in Models :
    LET m == SubSeq(mm, 1, Len(act))
        ps == IF gc = None THEN Pairs(Ms0, act, 1) ELSE gc[1]
        w == IF wc[kd] = None THEN <<Wts(Ms0, act, 6, tm[kd], 1)>> ELSE wc[kd]
        f == Kernel(tm[kd], m)
        r == CASE kd = "small" -> f [] kd = "first" -> Diff(6, ps, f, FALSE) [] kd = "second" -> DiffT(6, ps, Len(act), Diff(6, ps, f, FALSE))
    IN gc' = <<ps>> /\ wc' = [wc EXCEPT ![kd] = w] /\ asked' = <<kd, m, Dot(MulSeq(r, w[1]), r)>> /\ UNCHANGED <<act, tm>>
RNext == (\E kd \in Kinds : SetW(kd)) \/ (\E kd \in Kinds : DelW(kd)) \/ SetRef \/ SetAct \/ (\E kd \in Kinds : Ask(kd))
RSpec == RInit /\ [][RNext]_rvars
CachesCurrent == /\ \A kd \in DOMAIN tm : wc[kd] # None => wc[kd][1] = Wts(Ms0, act, 6, tm[kd], 1)
                 /\ gc # None => gc[1] = Pairs(Ms0, act, 1)
AnswerIsDefinition == asked # None => asked[3] = TVal(Ms0, act, 6, tm[asked[1]], asked[2])
\* gradient and Hessian belong to the value: exact for quadratics
DerivativesFit == asked # None => LET t == tm[asked[1]] m == asked[2] v == [i \in 1..Len(act) |-> (i % 3) - 1] IN
    /\ TVal(Ms0, act, 6, t, AddSeq(m, v)) - TVal(Ms0, act, 6, t, SubSeqE(m, v)) = 2 * Dot(TGrad(Ms0, act, 6, t, m), v)
    /\ SubSeqE(TGrad(Ms0, act, 6, t, AddSeq(m, v)), TGrad(Ms0, act, 6, t, m)) = THess(Ms0, act, 6, t, m, v)
    /\ TVal(Ms0, act, 6, t, m) >= 0
    /\ t.kind # "small" => TVal(Ms0, act, 6, t, AddSeq(m, Consts(Len(act), 2))) = TVal(Ms0, act, 6, t, m)
DMesh == [dim |-> 2, n |-> <<3, 2>>, h |-> <<<<1, 3, 1>>, <<3, 1>>>>]
DActs == {<<1, 2, 3, 5>>, <<1, 3, 4, 5, 6>>}
DModels1 == {<<1, 0, -1, 2, 0, 1>>}
DModels == {<<1, 0, -1, 2, 0, 1>>, <<0, 1, 1, 0, -2, 0>>}
=============================================================================
