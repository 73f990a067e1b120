------------------------------- MODULE InvProb -------------------------------
(* The inverse problem: phi_d + beta phi_m, gradient and Hessian action at   *)
(* the model asked for; fields kept from a line search are reused only for   *)
(* the model object they were computed for.                                  *)
EXTENDS VLib
CONSTANTS Objects, Values, MaxVisits
VARIABLES content, kept, used, asked, beta, visits
vars == <<content, kept, used, asked, beta, visits>>

(* ----- what is evaluated: terms [kind, mult, ...], exact integer arithmetic *)
U(t, m) == IF t.map = "sq" THEN MulSeq(m, m) ELSE m
Jrow(t, m, i) == IF t.map = "sq" THEN ScaleSeq(2, MulSeq(t.G[i], m)) ELSE t.G[i]
Dpred(t, m) == MatVec(t.G, U(t, m))
Resid(t, m) == SubSeqE(Dpred(t, m), t.dobs)
W2(t) == MulSeq(t.w, t.w)
RECURSIVE Val(_, _), Grad(_, _), HessV(_, _, _), AllData(_, _)
Val(t, m) == CASE t.kind = "sim" -> SumSeq(MulSeq(W2(t), MulSeq(Resid(t, m), Resid(t, m))))
               [] t.kind = "l2" -> LET r == MatVec(t.G, m) IN Dot(r, r)
               [] OTHER -> SumSeq([i \in DOMAIN t.sub |-> t.sub[i].mult * Val(t.sub[i], m)])
Grad(t, m) == CASE t.kind = "sim" -> LET wr == MulSeq(W2(t), Resid(t, m)) IN [j \in DOMAIN m |-> 2 * SumSeq([i \in DOMAIN t.G |-> Jrow(t, m, i)[j] * wr[i]])]
                [] t.kind = "l2" -> LET r == MatVec(t.G, m) IN [j \in DOMAIN m |-> 2 * SumSeq([i \in DOMAIN t.G |-> t.G[i][j] * r[i]])]
                [] OTHER -> FoldLeft(AddSeq, Zeros(Len(m)), [i \in DOMAIN t.sub |-> ScaleSeq(t.sub[i].mult, Grad(t.sub[i], m))])
HessV(t, m, v) == CASE t.kind = "sim" -> LET a == [i \in DOMAIN t.G |-> t.w[i] * t.w[i] * Dot(Jrow(t, m, i), v)] IN [j \in DOMAIN m |-> 2 * SumSeq([i \in DOMAIN t.G |-> Jrow(t, m, i)[j] * a[i]])]
                    [] t.kind = "l2" -> LET a == MatVec(t.G, v) IN [j \in DOMAIN m |-> 2 * SumSeq([i \in DOMAIN t.G |-> t.G[i][j] * a[i]])]
                    [] OTHER -> FoldLeft(AddSeq, Zeros(Len(m)), [i \in DOMAIN t.sub |-> ScaleSeq(t.sub[i].mult, HessV(t.sub[i], m, v))])
AllData(t, m) == CASE t.kind = "sim" -> Dpred(t, m) [] t.kind = "l2" -> <<>> [] OTHER -> FlattenS([i \in DOMAIN t.sub |-> AllData(t.sub[i], m)])
\* the values of the terms, in their own places; a term that is switched off has no value
TermVals(t, m) == [i \in DOMAIN t.sub |-> IF t.sub[i].mult = 0 THEN -1 ELSE Val(t.sub[i], m)]
Phi(d, r, b, m) == Val(d, m) + b * Val(r, m)
GradPhi(d, r, b, m) == AddSeq(Grad(d, m), ScaleSeq(b, Grad(r, m)))
HessPhi(d, r, b, m, v) == AddSeq(HessV(d, m, v), ScaleSeq(b, HessV(r, m, v)))

(* ----- the design model: objects are never changed in place, but come and go *)
None == [obj |-> 0, of |-> -1]
Init == content \in [Objects -> Values] /\ kept = None /\ used = -1 /\ asked = -1 /\ beta = 1 /\ visits = 0
\* evaluate: linesearch asks for the value alone, and keeps the fields
Eval(o, line) == /\ visits < MaxVisits /\ visits' = visits + 1 /\ asked' = content[o]
                 /\ used' = (IF kept.obj = o THEN kept.of ELSE content[o])
                 /\ kept' = (IF line THEN [obj |-> o, of |-> IF kept.obj = o THEN kept.of ELSE content[o]] ELSE None)
                 /\ UNCHANGED <<content, beta>>
\* an object nobody refers to may be replaced by another with the same name
Replace(o, v) == kept.obj # o /\ content' = [content EXCEPT ![o] = v] /\ UNCHANGED <<kept, used, asked, beta, visits>>
LineSearch == \E o \in Objects : Eval(o, TRUE)
Full == \E o \in Objects : Eval(o, FALSE)
Recycle == \E o \in Objects, v \in Values : Replace(o, v)
SetBeta == beta' \in {0, 1, 2} /\ UNCHANGED <<content, kept, used, asked, visits>>
Next == LineSearch \/ Full \/ Recycle \/ SetBeta
Spec == Init /\ [][Next]_vars
ReuseSound == used = asked
KeptSound == kept.obj # 0 => content[kept.obj] = kept.of
=============================================================================
