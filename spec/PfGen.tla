-------------------------------- MODULE PfGen --------------------------------
(* Potential-field problems (mesh, active cells, receivers, physics), variants *)
(* of them, and histories of simulations in every configuration sharing paths. *)
EXTENDS VLib, Json
CONSTANTS MaxOps, Rich
VARIABLES hist, done
R(S) == RandomElement(S)
GravC == {"gx", "gy", "gz", "gxx", "gyy", "gzz", "gxy", "gxz", "gyz", "guv"}
MagC == {"tmi", "bx", "by", "bz", "bxx", "byy", "bzz", "bxy", "bxz", "byz", "tmi_x", "tmi_y", "tmi_z"}
Pos == {"above", "above", "node", "edge", "centre", "side", "planar", "below", "corner", "far"}
RSeq(n, S, z) == TLCEval([i \in 1..n |-> R(S)])
\* components without repetition
RECURSIVE Pick(_, _)
Pick(S, n) == IF n = 0 \/ S = {} THEN <<>> ELSE LET c == R(S) IN <<c>> \o Pick(S \ {c}, n - 1)
CompsFor(phys, rich) == IF rich THEN IF phys = "grav" THEN GravC ELSE MagC ELSE IF phys = "grav" THEN {"gz", "gxx"} ELSE {"tmi", "bz"}
Group(S, n, z) == TLCEval([comps |-> Pick(S, R(1..3)), locs |-> RSeq(n, Pos, z)])
AmpGroup(n, z) == TLCEval([comps |-> <<"bx", "by", "bz">>, locs |-> RSeq(n, Pos, z)])
Base(phys, dim, comps, z) ==
  LET amp == phys = "mag" /\ comps = {} /\ R(1..6) = 1
      S == IF comps = {} THEN CompsFor(phys, Rich /\ R(1..4) = 1) ELSE comps
      k == R(1..3)
  IN TLCEval([op |-> "setup", phys |-> phys, dim |-> dim, mesh |-> R({"tensor", "nonuni", "tree", "treeref"}), active |-> R({"all", "some", "index", "few"}),
       mtype |-> IF phys = "mag" THEN R({"scalar", "vector"}) ELSE "scalar", amp |-> amp, map |-> R({"id", "id", "exp", "wide"}), offset |-> R({0, 0, 1}), seed |-> R(1..9999), zs |-> R({"scalar", "array", "array"}),
       groups |-> [g \in 1..k |-> IF amp THEN AmpGroup(R(1..3), g) ELSE Group(S, R(1..3), g)],
       storm |-> R({"no", "no", "geoana", "choclo"}),
       variants |-> RSeq(3, {"locs", "comps", "active", "mesh", "field", "declination", "z", "fewer", "order", "amplitude"}, z)])
AnySim(z) == TLCEval([op |-> "sim", prob |-> R(0..3), engine |-> R({"geoana", "geoana", "choclo"}), store |-> R({"ram", "disk", "disk", "disk", "forward_only"}), prec |-> R({32, 64, 64}), par |-> R({TRUE, FALSE, FALSE, FALSE}),
                  nproc |-> R({1, 1, 1, 1, 1, 1, 1, 2, 0}), path |-> R(1..2), magn |-> R({FALSE, FALSE, FALSE, TRUE})])
\* in a storm every simulation stores in the same place
Sim(z) == IF hist[1].storm # "no" THEN TLCEval([AnySim(z) EXCEPT !.engine = hist[1].storm, !.store = "disk", !.path = 1]) ELSE AnySim(z)
Ask(z) == TLCEval([op |-> "ask", sim |-> R(0..7), what |-> R({"dpred", "dpred", "dpredf", "jvec", "jtvec", "J", "G", "diag", "diag"}), model |-> R(0..2), w |-> R(0..3)])
Op(z) == LET c == R(1..20) IN IF Len(hist) = 1 \/ c <= 5 THEN Sim(z) ELSE IF c = 6 THEN TLCEval([op |-> "fault", at |-> R(0..99)]) ELSE IF c = 7 THEN TLCEval([op |-> "drop", sim |-> R(0..7)]) ELSE IF c = 8 THEN TLCEval([op |-> "magn", sim |-> R(0..7), seed |-> R(1..99)]) ELSE Ask(z)
GInit == hist = <<>> /\ done = FALSE
GNext == \/ hist = <<>> /\ hist' = <<Base(R({"grav", "mag"}), R({"full", "full", "layer"}), {}, hist)>> /\ UNCHANGED done
         \/ Len(hist) > 0 /\ Len(hist) <= MaxOps /\ \E o \in {Op(hist)} : hist' = Append(hist, o) /\ UNCHANGED done
         \/ Len(hist) > MaxOps /\ ~done /\ done' = TRUE /\ PrintT(<<"BEH", ToJson(hist)>>) /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_<<hist, done>>
(* every component with every kernel: exhaustive *)
GridOne(phys, dim, c, par) == <<Base(phys, dim, {c}, <<phys, dim, c, par>>)>> \o
   << [op |-> "grid", par |-> par] >>
GridNext == /\ ~done
            /\ \E phys \in {"grav", "mag"}, dim \in {"full", "layer"}, par \in BOOLEAN : \E c \in (IF phys = "grav" THEN GravC ELSE MagC) :
                  hist' = GridOne(phys, dim, c, par) /\ PrintT(<<"BEH", ToJson(hist')>>)
            /\ done' = TRUE
GridSpec == GInit /\ [][GridNext]_<<hist, done>>
=============================================================================
