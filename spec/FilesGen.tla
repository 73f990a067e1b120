------------------------------- MODULE FilesGen -------------------------------
(* Sessions of writing and reading: surveys with data, then chains of writes   *)
(* and reads through every format, reusing paths; magnetotelluric tables with   *)
(* rotations; electrode tables; lines of a 3D survey; vectors; clones.          *)
EXTENDS VLib, Json
CONSTANTS MaxOps, Rich, NZoo
VARIABLES hist, done
R(S) == RandomElement(S)
RSeq(n, S, z) == TLCEval([i \in 1..n |-> R(S)])
RECURSIVE Pick(_, _)
Pick(S, n) == IF n = 0 \/ S = {} THEN <<>> ELSE LET c == R(S) IN <<c>> \o Pick(S \ {c}, n - 1)
NE == 8
Count(z) == LET c == R(1..6) IN IF c <= 2 THEN 1 ELSE IF c <= 4 THEN R(2..4) ELSE R(1..(IF Rich THEN 9 ELSE 6))
Elec(poles, z) == LET a == R(1..NE) c == R(1..10) IN
   TLCEval(<<a, IF poles = "all" \/ (poles = "some" /\ c <= 4) THEN 0 ELSE R((1..NE) \ {a})>>)
Datum(poles, nd, z) == TLCEval([e |-> Elec(poles, z), d |-> R(1..nd), u |-> R(1..nd), x |-> R(1..nd), y |-> R(1..nd), cut |-> R(BOOLEAN)])
Block(sp, rp, nd, z) == TLCEval([e |-> Elec(sp, z), rx |-> [i \in 1..Count(z) |-> Datum(rp, nd, i)]])
Poles == {"none", "none", "all", "some", "some"}
Scale == {"local", "local", "utm", "neg", "small", "origin"}
Style == {"mixed", "mixed", "zero", "neg", "tiny", "huge", "unset"}
DC(dim, z) == LET sp == R(Poles) rp == R(Poles) st == R(Style) nd == IF st = "zero" THEN 1 ELSE 9 IN
   TLCEval([op |-> "setup", fam |-> IF dim = 2 THEN "dc2" ELSE "dc3", scale |-> R(Scale), style |-> st, bore |-> R(1..4) = 1,
            unc |-> R({TRUE, TRUE, FALSE}), blocks |-> [k \in 1..Count(z) |-> Block(sp, rp, nd, k)]])
GG == {"gyy", "gxy", "gyz", "gxx", "gxz", "gzz", "guv"}
PF(fam, z) == LET st == R(Style) nd == IF st = "zero" THEN 1 ELSE 9 comps == IF fam = "gg" THEN Pick(GG, R(1..7)) ELSE IF fam = "grav" THEN <<"gz">> ELSE <<"tmi">> IN
   TLCEval([op |-> "setup", fam |-> fam, scale |-> R(Scale), style |-> st, unc |-> R({TRUE, TRUE, FALSE}), comps |-> comps, field |-> R(1..6),
            rows |-> [i \in 1..Count(z) |-> [e |-> R(1..NE), d |-> RSeq(Len(comps), 1..nd, i), u |-> RSeq(Len(comps), 1..nd, i + 50)]]])
\* magnetotellurics: frequencies, stations, tensor elements
NSEM(z) == TLCEval([op |-> "setup", fam |-> "nsem", nf |-> R(1..3), nl |-> R(1..4), dim |-> 3,
            elems |-> IF R(1..3) = 1 THEN Pick({"xx", "xy", "yx", "yy", "zx", "zy"}, R(1..6)) ELSE Pick({"xx", "xy", "yx", "yy"}, 4), seed |-> R(1..9999)])
ABMN(z) == LET D == DC(R({2, 3}), z) IN TLCEval([D EXCEPT !.fam = "abmn"] @@ [shuffle |-> R(1..9999), noise |-> R({0, 0, 0, 1}), omit |-> R({"no", "no", "b", "n"})])
LINES(z) == LET D == DC(3, z) n == R(1..3) IN TLCEval([D EXCEPT !.fam = "lines"] @@ [nl |-> n, lines |-> RSeq(60, 1..n, z), azimuth |-> R(0..11)])
VECS(z) == TLCEval([op |-> "setup", fam |-> "vecs", n |-> R(1..6), seed |-> R(1..99999), mag |-> R({"unit", "tiny", "huge", "axis", "zero"})])
CLONE(k, z) == TLCEval([op |-> "setup", fam |-> "clone", which |-> k, seed |-> R(1..9999)])
Setup(z) == LET c == R(1..20) IN IF c <= 4 THEN DC(2, z) ELSE IF c <= 8 THEN DC(3, z) ELSE IF c <= 11 THEN PF(R({"grav", "mag", "gg", "gg"}), z)
   ELSE IF c <= 13 THEN NSEM(z) ELSE IF c <= 15 THEN ABMN(z) ELSE IF c <= 17 THEN LINES(z) ELSE IF c = 18 THEN VECS(z) ELSE CLONE(R(1..NZoo), z)
Fmts(fam) == IF fam = "dc2" THEN {"2general", "2general", "2surface", "2simple", "2simple", "xyz", "xyz"} ELSE IF fam = "dc3" THEN {"3general", "3general", "3surface", "oct", "xyz"} ELSE {fam}
WriteOp(z) == LET f == hist[1].fam IN TLCEval([op |-> "write", obj |-> R(0..5), path |-> R(1..2), fmt |-> R(Fmts(f)), ft |-> R({"dobs", "dobs", "dobs", "dpred", "survey"}), dtype |-> R({"volt", "volt", "apparent_chargeability", "secondary_potential"}),
     comment |-> R({"none", "none", "plain", "bang", "two"}), cols |-> R(0..3)])
ReadOp(z) == TLCEval([op |-> "read", path |-> R(1..2), surf |-> R({TRUE, FALSE, FALSE}), dcol |-> R({"DATA", "DATA", "EX", ""}), ucol |-> R({"STD", "STD", "EX", ""}), dict |-> Pick({"EX", "EY", "DATA", "STD"}, R(0..3)), dtype |-> R({"volt", "apparent_resistivity", "apparent_chargeability"})])
FileOp(z) == IF Len(hist) % 2 = 1 THEN WriteOp(z) ELSE ReadOp(z)
NsemOp(z) == LET c == R(1..3) IN IF c = 1 THEN TLCEval([op |-> "rec", how |-> R({"RealImag", "Complex"})]) ELSE IF c = 2 THEN TLCEval([op |-> "rec", how |-> "Complex"]) ELSE TLCEval([op |-> "rot", k |-> R(0..35)])
CloneOp(z) == LET c == R(1..3) IN IF c = 1 THEN TLCEval([op |-> "clone", of |-> R(0..5), how |-> R({"pickle", "deepcopy"})]) ELSE TLCEval([op |-> "ask", of |-> R(0..5), what |-> R({"dpred", "dpred", "jvec", "jtvec"}), model |-> R(0..2)])
Op(z) == LET f == hist[1].fam IN IF f \in {"dc2", "dc3", "grav", "mag", "gg"} THEN FileOp(z) ELSE IF f = "nsem" THEN NsemOp(z) ELSE IF f = "clone" THEN CloneOp(z) ELSE TLCEval([op |-> "go"])
Need == IF hist[1].fam \in {"abmn", "lines", "vecs"} THEN 2 ELSE MaxOps + 1
GInit == hist = <<>> /\ done = FALSE
GNext == \/ hist = <<>> /\ hist' = <<Setup(hist)>> /\ UNCHANGED done
         \/ Len(hist) > 0 /\ Len(hist) < Need /\ \E o \in {Op(hist)} : hist' = Append(hist, o) /\ UNCHANGED done
         \/ Len(hist) > 0 /\ Len(hist) >= Need /\ ~done /\ done' = TRUE /\ PrintT(<<"BEH", ToJson(hist)>>) /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_<<hist, done>>
=============================================================================
