------------------------------- MODULE Assign -------------------------------
(* Settings of an object.  The first part says what the kinds of settings     *)
(* accept and what they hold afterwards, for a described value:               *)
(*   v.none, v.str/text/fold, v.fl/it (castable to a number, in thousandths), *)
(*   v.bl (castable to truth), v.mro (names of its classes), v.islist, v.elems*)
(*   (class names of the elements), v.dup, v.call, v.dt (castable to an array *)
(*   of the type), v.shape, v.vals (thousandths).                             *)
(* A domain: d.kind with its parameters, d.none when None is also a value.    *)
EXTENDS VLib

Has(seq, x) == \E i \in 1..Len(seq) : seq[i] = x
Meets(a, b) == \E i \in 1..Len(a) : Has(b, a[i])

\* ---- numbers
InRange(n, d) == /\ IF d.loin THEN n >= d.lo ELSE n > d.lo
                 /\ IF d.hiin THEN n <= d.hi ELSE n < d.hi
\* ---- words: a list of aliases each; the first of them is the value
WordAt(v, d) == {i \in 1..Len(d.words) : \E j \in 1..Len(d.words[i]) :
                    IF d.cased THEN d.words[i][j] = v.text ELSE d.folded[i][j] = v.fold}
Word(v, d) == IF d.free THEN v.text ELSE d.words[CHOOSE i \in WordAt(v, d) : TRUE][1]
\* ---- arrays: values of fewer dimensions are raised to the number of dimensions of the shape
Raised(s, k) == CASE Len(s) >= k -> s
                  [] k = 1 -> <<1>>
                  [] k = 2 -> IF Len(s) = 1 THEN <<1, s[1]>> ELSE <<1, 1>>
                  [] k = 3 -> IF Len(s) = 2 THEN <<s[1], s[2], 1>> ELSE IF Len(s) = 1 THEN <<1, s[1], 1>> ELSE <<1, 1, 1>>
FitsShape(s, shp) == Len(s) <= Len(shp) /\ LET r == Raised(s, Len(shp)) IN \A i \in 1..Len(shp) : shp[i] = -1 \/ shp[i] = r[i]
Fits(v, d) == {i \in 1..Len(d.shapes) : FitsShape(v.shape, d.shapes[i])}
FirstFit(v, d) == CHOOSE i \in Fits(v, d) : \A j \in Fits(v, d) : i <= j
ArrayShape(v, d) == IF d.free THEN v.shape ELSE Raised(v.shape, Len(d.shapes[FirstFit(v, d)]))
\* the first type that takes the value keeps it, unless it rounds
TakenBy(v, d) == d.dtypes[CHOOSE i \in 1..Len(d.dtypes) : v.dt[d.dtypes[i]] /\ \A j \in 1..i - 1 : ~v.dt[d.dtypes[j]]]
Exact(v, d) == TakenBy(v, d) \in {"float", "complex"} /\ v.vals # <<>>
\* ---- locations: one dimensional once the axes of length one are dropped
Squeezed(s) == SelectSeq(s, LAMBDA n : n # 1)
\* ---- directions
Axes == <<"x", "y", "z">>
AxisOf(v, dim) == {i \in 1..dim : Axes[i] = v.fold}
\* ---- active cells: a truth value for each cell or the numbers of the cells
Flat(s) == LET q == Squeezed(s) IN IF Len(q) = 0 THEN <<1>> ELSE q
Idx(v) == v.vals
Wrapped(i, n) == IF i < 0 THEN i + 1000 * n ELSE i
CellsOK(v, n) == /\ Len(Flat(v.shape)) = 1
                 /\ CASE v.akind = "b" -> Flat(v.shape) = <<n>>
                      [] v.akind = "i" -> /\ \A k \in 1..Len(Idx(v)) : Idx(v)[k] < 1000 * n /\ Idx(v)[k] >= -1000 * n
                                          /\ \A j, k \in 1..Len(Idx(v)) : j # k => Wrapped(Idx(v)[j], n) # Wrapped(Idx(v)[k], n)
                                          /\ Len(Idx(v)) > 0
                      [] OTHER -> FALSE
Cells(v, n) == IF v.akind = "b" THEN v.vals
               ELSE [c \in 1..n |-> IF \E k \in 1..Len(Idx(v)) : Wrapped(Idx(v)[k], n) = 1000 * (c - 1) THEN 1000 ELSE 0]

InDomain(v, d) ==
  (d.none /\ v.none) \/
  CASE d.kind = "float" -> v.fl.ok /\ InRange(v.fl.n, d) /\ (d.nonzero => v.fl.n # 0)
    [] d.kind = "integer" -> v.it.ok /\ v.it.n >= d.lo /\ v.it.n <= d.hi
    [] d.kind = "string" -> v.str /\ (d.free \/ WordAt(v, d) # {})
    [] d.kind = "cast" -> IF d.to = "bool" THEN v.bl.ok ELSE v.casts[d.to]
    [] d.kind = "type" -> Meets(v.mro, d.types)
    [] d.kind = "callable" -> v.call
    [] d.kind = "direction" -> IF v.str THEN AxisOf(v, d.dim) # {} ELSE v.dt["float"] /\ FitsShape(v.shape, <<d.dim>>)
    [] d.kind = "location" -> v.loc /\ Len(Squeezed(v.shape)) <= 1 /\ (d.dim = 0 \/ Squeezed(v.shape) = <<d.dim>>)
    [] d.kind = "array" -> (\E i \in 1..Len(d.dtypes) : v.dt[d.dtypes[i]]) /\ (d.free \/ Fits(v, d) # {})
    [] d.kind = "cells" -> CellsOK(v, d.n)
    [] d.kind = "list" -> \/ v.islist /\ Len(v.elems) >= d.lo /\ (d.hi < 0 \/ Len(v.elems) <= d.hi)
                             /\ (\A i \in 1..Len(v.elems) : Meets(v.elems[i], d.types)) /\ (d.unique => ~v.dup /\ v.hash)
                          \/ ~v.islist /\ Meets(v.mro, d.types) /\ (d.unique => v.hash) /\ d.lo <= 1 /\ (d.hi < 0 \/ d.hi >= 1)

\* r describes what is read afterwards: r.k, r.n, r.text, r.shape, r.vals, r.same (the object given)
Parallel(a, b, t) == \A i, j \in 1..Len(a) : Abs(a[i] * (b[j] \div 100) - a[j] * (b[i] \div 100)) <= t
UnitTo(r, v) == Len(r) = Len(v) /\ Abs(SumSeq([i \in 1..Len(r) |-> r[i] * r[i]]) - 1000000) <= 6000
                /\ Parallel(r, v, 200) /\ SumSeq([i \in 1..Len(r) |-> r[i] * (v[i] \div 100)]) > 0
Holds(v, d, r) ==
  CASE d.none /\ v.none -> r.k \in {"none", "raises"}    \* some settings say so when they are read without a value
    [] d.kind = "float" -> r.k = "float" /\ Near(r.n, v.fl.n, 0)
    [] d.kind = "integer" -> r.k = "int" /\ r.n = v.it.n
    [] d.kind = "string" -> r.k = "str" /\ r.text = Word(v, d)
    [] d.kind = "cast" /\ d.to = "bool" -> r.k = "bool" /\ r.n = (IF v.bl.v THEN 1000 ELSE 0)
    [] d.kind \in {"type", "callable"} -> r.same
    [] d.kind = "direction" -> r.k = "array" /\ (IF v.str THEN r.vals = [i \in 1..d.dim |-> IF i \in AxisOf(v, d.dim) THEN 1000 ELSE 0] ELSE UnitTo(r.vals, v.vals))
    [] d.kind = "location" -> r.k = "array" /\ r.shape = Squeezed(v.shape) /\ (v.dt["float"] => r.vals = v.vals)
    [] d.kind = "array" -> r.k = "array" /\ r.shape = ArrayShape(v, d) /\ (Exact(v, d) => r.vals = v.vals)
    [] d.kind = "cells" -> r.k = "array" /\ r.shape = <<d.n>> /\ r.vals = Cells(v, d.n)
    [] d.kind = "list" -> r.k = "list" /\ r.n = (IF v.islist THEN 1000 * Len(v.elems) ELSE 1000)
    [] OTHER -> TRUE

\* ---------------- the design: validate, then store, then drop what was derived
CONSTANTS Values, Dom, NormOf, MaxOps, Order
VARIABLES slot, derived, last, n
avars == <<slot, derived, last, n>>
Settings == DOMAIN Dom
\* derived: a value computed from all the slots, kept until an assignment ("none": not computed)
AInit == slot \in [Settings -> {NormOf[CHOOSE x \in Dom[s] : TRUE] : s \in Settings}] /\ (\A s \in Settings : slot[s] \in Dom[s]) /\ derived = <<>> /\ last = [ok |-> TRUE, was |-> <<>>] /\ n = 0
Tick == n < MaxOps /\ n' = n + 1
Accepts(s, x) == x \in Values /\ NormOf[x] \in Dom[s]
\* Order = "check first" is the contract; "store first" is the mistake of assigning before checking
Assign(s, x) == /\ Tick
                /\ IF Accepts(s, x) THEN slot' = [slot EXCEPT ![s] = NormOf[x]] /\ derived' = <<>> /\ last' = [ok |-> TRUE, was |-> slot]
                   ELSE slot' = (IF Order = "store first" THEN [slot EXCEPT ![s] = x] ELSE slot) /\ last' = [ok |-> FALSE, was |-> slot] /\ UNCHANGED derived
Again(s) == Tick /\ slot' = [slot EXCEPT ![s] = NormOf[slot[s]]] /\ last' = [ok |-> FALSE, was |-> slot] /\ derived' = <<>>
Derive == Tick /\ derived' = <<slot>> /\ UNCHANGED slot /\ last' = [ok |-> FALSE, was |-> slot]
ANext == (\E s \in Settings, x \in Values : Assign(s, x)) \/ (\E s \in Settings : Again(s)) \/ Derive
ASpec == AInit /\ [][ANext]_avars
AlwaysInDomain == \A s \in Settings : slot[s] \in Dom[s]
RejectedChangesNothing == last.ok \/ last.was = slot
DerivedFollows == derived = <<>> \/ derived = <<slot>>
\* an instance to check: two settings, values that are normalised
TwoValues == {"a", "A", "b", "B", "c"}
TwoNorm == [x \in TwoValues |-> CASE x = "A" -> "a" [] x = "B" -> "b" [] OTHER -> x]
TwoDom == [s \in {1, 2} |-> IF s = 1 THEN {"a", "b"} ELSE {"b", "c"}]
=============================================================================
