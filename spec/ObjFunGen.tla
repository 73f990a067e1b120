------------------------------ MODULE ObjFunGen ------------------------------
EXTENDS VLib, Json
CONSTANTS Depth
VARIABLES hist, done
R(S) == RandomElement(S)
I2(z) == R(0..4) - 2
Vec(n) == [i \in 1..n |-> I2(i)]
Mat(r, c) == [i \in 1..r |-> Vec(c)]
Mults == {<<0, 0>>, <<1, 0>>, <<2, 0>>, <<3, 0>>, <<-1, 0>>, <<1, 1>>, <<1, 2>>, <<-3, 1>>, <<5, 0>>}
\* maps of three parameters onto r values
MapT(kind, r) == CASE kind = 1 -> [k |-> "lin", A |-> Mat(r, 3), b |-> Vec(r)]
                   [] kind = 2 -> [k |-> "proj", n |-> 3, idx |-> [i \in 1..r |-> R(0..2)]]
                   [] kind = 3 -> [k |-> "mul", a |-> [k |-> "proj", n |-> 3, idx |-> [i \in 1..r |-> R(0..2)]], b |-> [k |-> "sq", n |-> 3]]
                   [] kind = 4 -> [k |-> "sum", a |-> [k |-> "lin", A |-> Mat(r, 3), b |-> Vec(r)], b |-> [k |-> "proj", n |-> 3, idx |-> [i \in 1..r |-> R(0..2)]]]
DiagW(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN R({1, 2, 4}) ELSE 0]]
Step(x) == hist' = Append(hist, x) /\ done' = FALSE
NewLeaf == \/ \E r \in {R(1..3)}, q \in {R(1..3)}, kd \in {R(1..4)} : Step([op |-> "l2", t |-> MapT(kd, r), W |-> Mat(q, r), def |-> FALSE])
           \/ \E r \in {R(1..3)}, kd \in {R(1..4)} : Step([op |-> "l2", t |-> MapT(kd, r), W |-> [i \in 1..r |-> [j \in 1..r |-> IF i = j THEN 1 ELSE 0]], def |-> TRUE])
           \/ \E x \in {1} : Step([op |-> "quart"])
           \/ \E n \in {R(1..3)} : Step([op |-> "dm", G |-> Mat(n, 3), d |-> Vec(n), W |-> DiagW(n)])
GInit == \E a, b \in 1..3 : hist = <<[op |-> "l2", t |-> MapT(R(1..4), a), W |-> Mat(2, a), def |-> FALSE], [op |-> "dm", G |-> Mat(b, 3), d |-> Vec(b), W |-> DiagW(b)]>> /\ done = FALSE
One2 == <<1, 0>>
O(z) == R(1..9)
GOps == \/ NewLeaf
        \/ \E i \in {O(hist)}, j \in {O(hist)} : Step([op |-> "add", i |-> i, j |-> j])
        \/ \E i \in {O(hist)}, j \in {O(hist)} : Step([op |-> "add", i |-> i, j |-> j])
        \/ \E i \in {O(hist)}, c \in {R(Mults)}, w \in {R(1..3)} : Step([op |-> "scale", i |-> i, c |-> c, how |-> w])
        \/ \E i \in {O(hist)}, j \in {O(hist)}, p \in {O(hist)}, c1 \in {R(Mults)}, c2 \in {R(Mults)}, u \in {R(BOOLEAN)} :
               Step([op |-> "combo", refs |-> <<i, j, p>>, mults |-> <<c1, One2, c2>>, unpack |-> u])
        \/ \E i \in {O(hist)}, j \in {R(1..4)}, c \in {R(Mults)}, w \in {R(1..2)} : Step([op |-> "setmult", i |-> i, j |-> j, c |-> c, how |-> w])
        \/ \E i \in {O(hist)}, j \in {R(1..4)}, c \in {R(Mults)} : Step([op |-> "setmult", i |-> i, j |-> j, c |-> c, how |-> 1])
        \/ \E i \in {O(hist)}, kd \in {R(1..4)} : \E ts \in {[r \in 1..3 |-> MapT(kd, r)]} : Step([op |-> "setmap", i |-> i, ts |-> ts])
        \/ \E i \in {O(hist)} : \E ws \in {[r \in 1..3 |-> Mat(r, r)]} : Step([op |-> "setw", i |-> i, ws |-> ws])
        \/ \E i \in {O(hist)} : \E ds \in {[r \in 1..3 |-> Vec(r)]}, ws \in {[r \in 1..3 |-> DiagW(r)]} : \E w \in {R(1..4)} : Step([op |-> "setdata", i |-> i, ds |-> ds, ws |-> ws, how |-> w])
        \/ \E i \in {O(hist)}, w \in {R(1..6)} : Step([op |-> "bad", i |-> i, how |-> w])
        \/ \E i \in {O(hist)}, m \in {Vec(3)}, v \in {Vec(3)} : Step([op |-> "eval", i |-> i, m |-> m, v |-> v])
        \/ \E i \in {O(hist)}, m \in {Vec(3)}, v \in {Vec(3)} : Step([op |-> "eval", i |-> i, m |-> m, v |-> v])
GNext == \/ Len(hist) < Depth /\ GOps
         \/ Len(hist) = Depth /\ ~done /\ done' = TRUE /\ PrintT(<<"BEH", ToJson(hist)>>) /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_<<hist, done>>
=============================================================================
