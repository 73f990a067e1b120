------------------------------- MODULE ObjFun --------------------------------
(* Objective functions.  Objects live in a registry `obj`:                    *)
(*   [k |-> "l2",  t, W]        |W f(m)|^2, f a map expression of Maps        *)
(*   [k |-> "quart", n]         sum of m_i^4 (a user's own objective)         *)
(*   [k |-> "dm",  G, d, W]     |W (G m - d)|^2                               *)
(*   [k |-> "combo", terms, unpack]   terms = << <<mult, ref>>, ... >>        *)
(* A sum takes over the terms of summands that unpack and refers to the       *)
(* others; a product refers to its factor.  Multipliers are n / 2^e.          *)
EXTENDS VLib
M == INSTANCE Maps WITH Leaves <- {}, MaxLen <- 1, Ms <- {0}, chain <- 0, m0 <- 0, v0 <- 0, k <- 0, val <- 0, der <- 0

RECURSIVE Pow2(_)
Pow2(e) == IF e = 0 THEN 1 ELSE 2 * Pow2(e - 1)
UNIT == 1024                       \* results are integers in units of 1/1024
Times(c, x) == (c[1] * x) \div Pow2(c[2])
TimesV(c, v) == [i \in 1..Len(v) |-> Times(c, v[i])]
Tr(A) == [j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]]

LVal(o, m) == CASE o.k = "l2" -> LET r == MatVec(o.W, M!Val(o.t, m)) IN Dot(r, r)
                [] o.k = "dm" -> LET r == MatVec(o.W, SubSeqE(MatVec(o.G, m), o.d)) IN Dot(r, r)
                [] o.k = "quart" -> SumSeq([i \in 1..Len(m) |-> m[i] * m[i] * m[i] * m[i]])
LGrad(o, m) == CASE o.k = "l2" -> LET r == MatVec(o.W, M!Val(o.t, m)) IN ScaleSeq(2, MatVec(Tr(M!Jac(o.t, m)), MatVec(Tr(o.W), r)))
                 [] o.k = "dm" -> LET r == MatVec(o.W, SubSeqE(MatVec(o.G, m), o.d)) IN ScaleSeq(2, MatVec(Tr(o.G), MatVec(Tr(o.W), r)))
                 [] o.k = "quart" -> [i \in 1..Len(m) |-> 4 * m[i] * m[i] * m[i]]
\* Gauss-Newton Hessian times a vector
LHess(o, m, v) == CASE o.k = "l2" -> LET J == M!Jac(o.t, m) IN ScaleSeq(2, MatVec(Tr(J), MatVec(Tr(o.W), MatVec(o.W, MatVec(J, v)))))
                    [] o.k = "dm" -> ScaleSeq(2, MatVec(Tr(o.G), MatVec(Tr(o.W), MatVec(o.W, MatVec(o.G, v)))))
                    [] o.k = "quart" -> [i \in 1..Len(m) |-> 12 * m[i] * m[i] * v[i]]
RECURSIVE Val(_, _, _), Grad(_, _, _), Hess(_, _, _, _)
AddAll(n, ss) == FoldLeft(LAMBDA x, y : AddSeq(x, y), Zeros(n), ss)
Val(obj, i, m) == IF obj[i].k # "combo" THEN UNIT * LVal(obj[i], m)
                  ELSE SumSeq([j \in 1..Len(obj[i].terms) |-> Times(obj[i].terms[j][1], Val(obj, obj[i].terms[j][2], m))])
Grad(obj, i, m) == IF obj[i].k # "combo" THEN ScaleSeq(UNIT, LGrad(obj[i], m))
                   ELSE AddAll(Len(m), [j \in 1..Len(obj[i].terms) |-> TimesV(obj[i].terms[j][1], Grad(obj, obj[i].terms[j][2], m))])
Hess(obj, i, m, v) == IF obj[i].k # "combo" THEN ScaleSeq(UNIT, LHess(obj[i], m, v))
                      ELSE AddAll(Len(m), [j \in 1..Len(obj[i].terms) |-> TimesV(obj[i].terms[j][1], Hess(obj, obj[i].terms[j][2], m, v))])

One == <<1, 0>>
Unpacked(obj, i) == IF obj[i].k = "combo" /\ obj[i].unpack THEN obj[i].terms ELSE <<<<One, i>>>>
AddObj(obj, i, j) == Append(obj, [k |-> "combo", terms |-> Unpacked(obj, i) \o Unpacked(obj, j), unpack |-> TRUE])
ScaleObj(obj, i, c) == Append(obj, [k |-> "combo", terms |-> <<<<c, i>>>>, unpack |-> TRUE])
SetMult(obj, i, j, c) == [obj EXCEPT ![i].terms[j] = <<c, @[2]>>]

\* ---- the design: evaluation walks the term list, skipping zero multipliers, accumulating
\* into one running value; checked against the definition, and against a difference quotient
CONSTANTS Leafs, Mults, MaxObj, Ms
VARIABLES obj, run
ovars == <<obj, run>>
Idle == [i |-> 0, j |-> 0, m |-> <<>>, acc |-> 0, g |-> <<>>]
OInit == obj = Leafs /\ run = Idle
Small(i) == IF obj[i].k # "combo" THEN TRUE ELSE \A j \in 1..Len(obj[i].terms) : obj[obj[i].terms[j][2]].k # "combo"
Build == /\ run = Idle /\ Len(obj) < MaxObj /\ UNCHANGED run
         /\ \/ \E i, j \in 1..Len(obj) : obj' = AddObj(obj, i, j)
            \/ \E i \in 1..Len(obj), c \in Mults : Small(i) /\ obj' = ScaleObj(obj, i, c)
Change == /\ run = Idle /\ UNCHANGED run
          /\ \E i \in 1..Len(obj), c \in Mults : obj[i].k = "combo" /\ Len(obj) = MaxObj /\ obj[i].terms[1][1] # c /\ obj' = SetMult(obj, i, 1, c)
Start == /\ run = Idle /\ UNCHANGED obj
         /\ \E i \in 1..Len(obj), m \in Ms : obj[i].k = "combo" /\ run' = [i |-> i, j |-> 1, m |-> m, acc |-> 0, g |-> Zeros(Len(m))]
Term == /\ run # Idle /\ run.j <= Len(obj[run.i].terms) /\ UNCHANGED obj
        /\ LET x == obj[run.i].terms[run.j] IN
           run' = IF x[1][1] = 0 THEN [run EXCEPT !.j = @ + 1]
                  ELSE [run EXCEPT !.j = @ + 1, !.acc = @ + Times(x[1], Val(obj, x[2], run.m)), !.g = AddSeq(@, TimesV(x[1], Grad(obj, x[2], run.m)))]
Done == run # Idle /\ run.j > Len(obj[run.i].terms) /\ run' = Idle /\ UNCHANGED obj
ONext == Build \/ Change \/ Start \/ Term \/ Done
OSpec == OInit /\ [][ONext]_ovars
RunIsValue == (run # Idle /\ run.j > Len(obj[run.i].terms)) => run.acc = Val(obj, run.i, run.m) /\ run.g = Grad(obj, run.i, run.m)
\* quadratic leaves: phi(m+v) - phi(m-v) = 2 grad . v exactly; and the operands keep their value
GradIsDerivative == run # Idle => LET v == [i \in 1..Len(run.m) |-> i] IN
    Val(obj, run.i, AddSeq(run.m, v)) - Val(obj, run.i, SubSeqE(run.m, v)) = 2 * Dot(Grad(obj, run.i, run.m), v)
DLeafs == <<[k |-> "l2", t |-> [k |-> "lin", A |-> <<<<1, -1>>, <<0, 2>>>>, b |-> <<1, 0>>], W |-> <<<<1, 0>>, <<2, 1>>>>],
            [k |-> "dm", G |-> <<<<1, 1>>, <<2, 0>>, <<0, 1>>>>, d |-> <<1, 0, -1>>, W |-> <<<<1, 0, 0>>, <<0, 2, 0>>, <<1, 0, 1>>>>]>>
DMults == {<<0, 0>>, <<3, 0>>, <<-1, 1>>}
DMs == {<<1, -2>>, <<0, 1>>}
=============================================================================
