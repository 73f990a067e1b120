-------------------------------- MODULE Props --------------------------------
(* Physical properties of a simulation: pairs of reciprocal properties (a     *)
(* property without a partner is a pair whose second side is not used).  All  *)
(* values are powers of two and are written by their exponents.               *)
(*   src[p].kind = "none" | "val" (e: exponents) | "map" (value = 2^a * m or  *)
(*   2^a / m, for inv) ; src[p].side says which of the two was assigned.      *)
EXTENDS VLib

NoSrc == [kind |-> "none", side |-> 0, e |-> <<>>, a |-> 0, inv |-> FALSE]
AssignValue(s, side, e) == [kind |-> "val", side |-> side, e |-> e, a |-> 0, inv |-> FALSE]
AssignMap(s, side, a, inv) == [kind |-> "map", side |-> side, e |-> <<>>, a |-> a, inv |-> inv]
\* assigning None to a value or to a map removes it if it is the source, else changes nothing
DropValue(s, side) == IF s.kind = "val" /\ s.side = side THEN NoSrc ELSE s
DropMap(s, side) == IF s.kind = "map" /\ s.side = side THEN NoSrc ELSE s

Neg(e) == [i \in 1..Len(e) |-> -e[i]]
MapExp(s, m) == [i \in 1..Len(m) |-> s.a + (IF s.inv THEN -m[i] ELSE m[i])]
Defined(s, m) == s.kind = "val" \/ (s.kind = "map" /\ m # <<>>)
Own(s, m) == IF s.kind = "val" THEN s.e ELSE MapExp(s, m)
Read(s, side, m) == IF s.side = side THEN Own(s, m) ELSE Neg(Own(s, m))
HasDeriv(s, m) == s.kind = "map" /\ m # <<>>
\* d(value of side)/d(model): sign and exponent of the diagonal
OwnDerivExp(s, m) == [i \in 1..Len(m) |-> IF s.inv THEN s.a - 2 * m[i] ELSE s.a]
OwnSign(s) == IF s.inv THEN -1 ELSE 1
DerivSign(s, side) == IF s.side = side THEN OwnSign(s) ELSE -OwnSign(s)
DerivExp(s, side, m) == IF s.side = side THEN OwnDerivExp(s, m)
                        ELSE [i \in 1..Len(m) |-> OwnDerivExp(s, m)[i] - 2 * MapExp(s, m)[i]]
NeedsModel(src) == \E p \in DOMAIN src : src[p].kind = "map"
AcceptModel(src, n, len, nested) == (NeedsModel(src) \/ nested) /\ (~NeedsModel(src) \/ len = n)

\* ---------------- the design: raw slots the way the code keeps them
CONSTANTS Exps, Bound
VARIABLES slotv, slotm, model, s, n
pvars == <<slotv, slotm, model, s, n>>
\* slotv[side], slotm[side]: raw stored value / map, <<>> when absent; s: the intended source of truth
PInit == slotv = [i \in 1..2 |-> <<>>] /\ slotm = [i \in 1..2 |-> <<>>] /\ model = <<>> /\ s = NoSrc /\ n = 0
Tick == n < Bound /\ n' = n + 1
Other(i) == 3 - i
SetV(side, e) == /\ Tick /\ slotv' = [slotv EXCEPT ![side] = <<e>>, ![Other(side)] = <<>>]
                 /\ slotm' = [i \in 1..2 |-> <<>>] /\ s' = AssignValue(s, side, <<e>>) /\ UNCHANGED model
SetM(side, a, inv) == /\ Tick /\ slotm' = [slotm EXCEPT ![side] = <<a, inv>>, ![Other(side)] = <<>>]
                      /\ slotv' = [i \in 1..2 |-> <<>>] /\ s' = AssignMap(s, side, a, inv) /\ UNCHANGED model
NoneV(side) == Tick /\ slotv' = [slotv EXCEPT ![side] = <<>>] /\ s' = DropValue(s, side) /\ UNCHANGED <<slotm, model>>
NoneM(side) == Tick /\ slotm' = [slotm EXCEPT ![side] = <<>>] /\ s' = DropMap(s, side) /\ UNCHANGED <<slotv, model>>
SetMod(m) == Tick /\ NeedsModel([p |-> s]) /\ model' = m /\ UNCHANGED <<slotv, slotm, s>>
PNext == \/ \E side \in 1..2 : (\E e \in Exps : SetV(side, e)) \/ (\E a \in Exps : \E inv \in BOOLEAN : SetM(side, a, inv)) \/ NoneV(side) \/ NoneM(side)
         \/ \E m \in Exps : SetMod(<<m>>)
PSpec == PInit /\ [][PNext]_pvars
\* how the code reads a side: own value, partner's value, own map, partner's map
RawRead(side) == IF slotv[side] # <<>> THEN slotv[side]
                 ELSE IF slotv[Other(side)] # <<>> THEN Neg(slotv[Other(side)])
                 ELSE IF model = <<>> THEN <<"raise">>
                 ELSE IF slotm[side] # <<>> THEN <<slotm[side][1] + (IF slotm[side][2] THEN -model[1] ELSE model[1])>>
                 ELSE IF slotm[Other(side)] # <<>> THEN Neg(<<slotm[Other(side)][1] + (IF slotm[Other(side)][2] THEN -model[1] ELSE model[1])>>)
                 ELSE <<"raise">>
OneSource == Cardinality({i \in 1..2 : slotv[i] # <<>>}) + Cardinality({i \in 1..2 : slotm[i] # <<>>}) <= 1
ReadsFollowSource == \A side \in 1..2 : RawRead(side) = IF Defined(s, model) THEN Read(s, side, model) ELSE <<"raise">>
=============================================================================
