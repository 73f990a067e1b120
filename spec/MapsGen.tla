------------------------------- MODULE MapsGen -------------------------------
(* Random map expressions for replay: a tree grown to the left, to the right  *)
(* and by sums, with a few ill-fitting pieces.                                *)
EXTENDS VLib, Json
CONSTANTS Depth
VARIABLES t, r, c, d, nsq, done
gvars == <<t, r, c, d, nsq, done>>
R(S) == RandomElement(S)
Z == {0, 1, 2}
I3(z) == R(Z) - 1
LinLeaf(rows, cols) == [k |-> "lin", A |-> [i \in 1..rows |-> [j \in 1..cols |-> R(Z) - 1]], b |-> [i \in 1..rows |-> R(Z) - 1]]
Act(n) == LET a == [i \in 1..n |-> R({TRUE, FALSE})] IN [a EXCEPT ![R(1..n)] = TRUE]
ActN(n, on) == \* n flags, exactly `on` of them set
   LET s == R({x \in SUBSET (1..n) : Cardinality(x) = on}) IN [i \in 1..n |-> i \in s]
Rev(n) == [k |-> "slice", n |-> n, st |-> n - 1, sp |-> -1, step |-> -1]
\* leaves with a given number of columns (to be put on the left)
LeftLeaf(kind, n) ==
  CASE kind = 1 -> [leaf |-> [k |-> "id", n |-> n], rows |-> n]
    [] kind = 2 -> LET j == R(1..4) IN [leaf |-> [k |-> "proj", n |-> n, idx |-> [i \in 1..j |-> R(0..(n - 1))]], rows |-> j]
    [] kind = 3 -> LET e == R(1..3) a == ActN(n + e, n) IN [leaf |-> [k |-> "inj", act |-> a, val |-> [i \in 1..e |-> R(Z) - 1]], rows |-> n + e]
    [] kind = 4 -> [leaf |-> Rev(n), rows |-> n]
    [] kind = 5 -> LET rep == R(1..3) IN [leaf |-> [k |-> "vert", rep |-> rep, nz |-> n], rows |-> rep * n]
    [] kind = 6 -> LET j == R(1..4) IN [leaf |-> [k |-> "units", ind |-> [u \in 1..n |-> [i \in 1..j |-> R({TRUE, FALSE})]]], rows |-> j]
    [] kind = 7 -> LET j == R(1..4) IN [leaf |-> LinLeaf(j, n), rows |-> j]
    [] kind = 8 -> [leaf |-> [k |-> "wt", w |-> [i \in 1..n |-> R({0, 1, 2, 3})]], rows |-> n]
    [] kind = 9 -> LET a == Act(n) IN [leaf |-> [k |-> "bproj", n |-> n, act |-> a], rows |-> Cardinality({i \in 1..n : a[i]})]
    [] kind = 10 -> LET st == R(0..(n - 1)) step == R({1, 2}) IN [leaf |-> [k |-> "slice", n |-> n, st |-> st, sp |-> n, step |-> step], rows |-> ((n - st - 1) \div step) + 1]
    [] kind = 11 -> [leaf |-> [k |-> "wild", n |-> n], rows |-> n]
    [] kind = 12 -> [leaf |-> [k |-> "sq", n |-> n], rows |-> n]
    [] kind = 13 -> IF n = 1 THEN LET j == R(2..4) IN [leaf |-> [k |-> "full", n |-> j], rows |-> j]
                    ELSE IF n \in {4, 6} THEN LET e == R(1..3) nm == R({"x", "y", "z"}) q == n \div 2 IN
                         [leaf |-> (CASE nm = "x" -> [k |-> "ext", normal |-> nm, nx |-> e, ny |-> 2, nz |-> q]
                                      [] nm = "y" -> [k |-> "ext", normal |-> nm, nx |-> 2, ny |-> e, nz |-> q]
                                      [] nm = "z" -> [k |-> "ext", normal |-> nm, nx |-> 2, ny |-> q, nz |-> e]), rows |-> e * n]
                    ELSE [leaf |-> [k |-> "id", n |-> n], rows |-> n]
Mul(a, b) == [k |-> "mul", a |-> a, b |-> b]
Sum(a, b) == [k |-> "sum", a |-> a, b |-> b]
GInit == \E n \in 1..4 : t = [k |-> "id", n |-> n] /\ r = n /\ c = n /\ d = 0 /\ nsq = 0 /\ done = FALSE
Grow(x, rr, cc, s) == t' = x /\ r' = rr /\ c' = cc /\ d' = d + 1 /\ nsq' = nsq + s /\ done' = FALSE
Left == \E kind \in {R(IF nsq = 0 THEN 1..13 ELSE (1..13) \ {12})} : \E x \in {LeftLeaf(kind, r)} :
           x.rows <= 12 /\ Grow(Mul(x.leaf, t), x.rows, c, IF kind = 12 THEN 1 ELSE 0)
Right == \E kind \in {R({2, 3, 4, 7, 8, 9})}, n \in {R(1..3)} :
           \E j \in {R(1..3)} : \E x \in {LinLeaf(c, j)} : Grow(Mul(t, x), r, j, 0)
RightProj == \E n \in {R(1..4)} : Grow(Mul(t, [k |-> "proj", n |-> n, idx |-> [i \in 1..c |-> R(0..(n - 1))]]), r, n, 0)
RightChain == \E n \in {R(1..3)}, j \in {R(1..3)} : Grow(Mul(t, Mul(LinLeaf(c, n), LinLeaf(n, j))), r, j, 0)
AddLin == \E x \in {LinLeaf(r, c)} : \E flip \in {R(BOOLEAN)} : Grow(IF flip THEN Sum(x, t) ELSE Sum(t, x), r, c, 0)
AddSelf == Grow(Sum(t, t), r, c, 0)
AddId == r = c /\ \E flip \in {R(BOOLEAN)} : \E x \in {R({[k |-> "id", n |-> r], [k |-> "wt", w |-> [i \in 1..r |-> 2]]})} : Grow(IF flip THEN Sum(x, t) ELSE Sum(t, x), r, c, 0)
AddSq == r = c /\ nsq = 0 /\ Grow(Sum([k |-> "sq", n |-> r], t), r, c, 1)
\* ill-fitting pieces: the expression must be refused, nothing grows on it
MisMul == \E e \in {1} : t' = Mul(LinLeaf(2, r + e), t) /\ d' = Depth /\ UNCHANGED <<r, c, nsq, done>>
MisSumR == t' = Sum(t, LinLeaf(r + 1, c)) /\ d' = Depth /\ UNCHANGED <<r, c, nsq, done>>
MisSumC == t' = Sum(LinLeaf(r, c + 1), t) /\ d' = Depth /\ UNCHANGED <<r, c, nsq, done>>
GNext == \/ d < Depth /\ (Left \/ RightProj \/ RightChain \/ AddLin \/ AddSelf \/ AddId \/ AddSq)
         \/ d < Depth /\ Left
         \/ d < Depth /\ d > 1 /\ R(1..6) = 1 /\ (MisMul \/ MisSumR \/ MisSumC)
         \/ d = Depth /\ ~done /\ done' = TRUE /\ PrintT(<<"BEH", ToJson(t)>>) /\ UNCHANGED <<t, r, c, d, nsq>>
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
