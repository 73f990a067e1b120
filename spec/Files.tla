-------------------------------- MODULE Files --------------------------------
(* Observation files.  An object is a survey with data: blocks (a source and   *)
(* its receivers) or rows of stations.  Writers turn it into lines, readers    *)
(* scan the lines.  Poles are written by repeating an electrode, elevations    *)
(* may be left out, columns may be left out, and tabular formats forget the    *)
(* order of the blocks.                                                        *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Elecs, Paths, MaxRows, MaxObjs
VARIABLES objs, files, asked
vars == <<objs, files, asked>>
Pole == 0
Unset == 0      \* no datum
Zero == 1       \* no uncertainty
FileTypes == {"survey", "dpred", "dobs"}
Layouts == {"blocks", "table"}
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
Range(s) == {s[i] : i \in DOMAIN s}
IsPerm(s, t) == Len(s) = Len(t) /\ \A v \in Range(s) \cup Range(t) : Cardinality({i \in DOMAIN s : s[i] = v}) = Cardinality({i \in DOMAIN t : t[i] = v})

(* ---- what an object says: one row per datum ------------------------------- *)
Rows(o) == Cat([k \in DOMAIN o.blocks |-> [i \in DOMAIN o.blocks[k].rx |->
   LET r == o.blocks[k].rx[i] IN <<o.blocks[k].a, o.blocks[k].b, r.m, r.n, r.d, r.u>>]])
\* what a file of this type keeps of a row; a wildcard uncertainty stands for the apparent resistivity column
Keep(row, ft) == LET d == IF ft = "survey" THEN Unset ELSE row[5] IN
  <<row[1], row[2], row[3], row[4], d, IF d = Unset THEN Unset ELSE IF ft = "dobs" THEN row[6] ELSE Zero>>
Expect(rows, ft) == [i \in DOMAIN rows |-> Keep(rows[i], ft)]
SameRow(got, want, wild) == \A c \in DOMAIN want : got[c] = want[c] \/ (wild /\ c = 6)
\* the reader of a blocks file keeps the order, the reader of a table may regroup by source
Agrees(got, want, layout, wild) ==
  /\ Len(got) = Len(want)
  /\ IF layout = "blocks" THEN \A i \in DOMAIN want : SameRow(got[i], want[i], wild) ELSE IsPerm(got, want)

(* ---- lines ------------------------------------------------------------------ *)
Twice(e, f) == <<e, IF f = Pole THEN e ELSE f>>
Once(p) == <<p[1], IF p[1] = p[2] THEN Pole ELSE p[2]>>
Cols(d, u, ft) == IF ft = "survey" THEN <<>> ELSE IF ft = "dpred" THEN <<d>> ELSE <<d, u>>
Lines(o, layout, ft) ==
  IF layout = "blocks"
  THEN Cat([k \in DOMAIN o.blocks |-> LET b == o.blocks[k] IN
         << [k |-> "src", e |-> Twice(b.a, b.b), n |-> Len(b.rx)] >> \o
         [i \in DOMAIN b.rx |-> [k |-> "rx", e |-> Twice(b.rx[i].m, b.rx[i].n), c |-> Cols(b.rx[i].d, b.rx[i].u, ft)]]])
  ELSE LET R == Rows(o) IN [i \in DOMAIN R |-> [k |-> "row", e |-> Twice(R[i][1], R[i][2]) \o Twice(R[i][3], R[i][4]), c |-> Cols(R[i][5], R[i][6], ft)]]
\* a datum that is not there has no uncertainty either
DatumOf(c) == LET d == IF Len(c) > 0 THEN c[1] ELSE Unset IN [d |-> d, u |-> IF d = Unset THEN Unset ELSE IF Len(c) > 1 THEN c[2] ELSE Zero]
Rx(e, c) == LET p == Once(e) v == DatumOf(c) IN [m |-> p[1], n |-> p[2], d |-> v.d, u |-> v.u]
\* scanning: the count of a source line says how many receiver lines follow
RECURSIVE Scan(_, _, _)
Scan(ls, count, acc) ==
  IF ls = <<>> THEN acc
  ELSE LET x == Head(ls) IN
    IF count = 0 THEN LET p == Once(x.e) IN Scan(Tail(ls), x.n, Append(acc, [a |-> p[1], b |-> p[2], rx |-> <<>>]))
    ELSE Scan(Tail(ls), count - 1, [acc EXCEPT ![Len(acc)].rx = Append(@, Rx(x.e, x.c))])
\* a table: the sources in the order they first appear, each with all of its rows, poles first
SrcOf(x) == Once(<<x.e[1], x.e[2]>>)
RECURSIVE Firsts(_, _)
Firsts(ls, seen) == IF ls = <<>> THEN <<>> ELSE LET s == SrcOf(Head(ls)) IN IF s \in seen THEN Firsts(Tail(ls), seen) ELSE <<s>> \o Firsts(Tail(ls), seen \cup {s})
Group(ls) == LET S == Firsts(ls, {}) IN [k \in DOMAIN S |->
   LET mine == SelectSeq(ls, LAMBDA x : SrcOf(x) = S[k])
       all == [i \in DOMAIN mine |-> Rx(<<mine[i].e[3], mine[i].e[4]>>, mine[i].c)]
   IN [a |-> S[k][1], b |-> S[k][2], rx |-> SelectSeq(all, LAMBDA r : r.n = Pole) \o SelectSeq(all, LAMBDA r : r.n # Pole)]]
Parse(f) == [surf |-> f.surf, blocks |-> IF f.layout = "blocks" THEN Scan(f.lines, 0, <<>>) ELSE Group(f.lines)]

(* ---- a session --------------------------------------------------------------- *)
NoFile == [layout |-> "none", lines |-> <<>>, surf |-> FALSE, ft |-> "dobs", of |-> 0]
Electrodes == {<<a, b>> \in Elecs \X (Elecs \cup {Pole}) : a # b}
Small == UNION {[1..n -> [e : Electrodes, s : Electrodes, new : BOOLEAN]] : n \in 1..MaxRows}
\* rows with tokens from their position; "new" starts a block
RECURSIVE Build(_, _, _)
Build(spec, i, acc) ==
  IF i > Len(spec) THEN acc
  ELSE LET r == [m |-> spec[i].e[1], n |-> spec[i].e[2], d |-> 1 + (i % 2), u |-> 2 + i] IN
    IF i = 1 \/ spec[i].new THEN Build(spec, i + 1, Append(acc, [a |-> spec[i].s[1], b |-> spec[i].s[2], rx |-> <<r>>]))
    ELSE Build(spec, i + 1, [acc EXCEPT ![Len(acc)].rx = Append(@, r)])
Init == /\ \E s \in Small : objs = <<[surf |-> FALSE, blocks |-> Build(s, 1, <<>>)]>>
        /\ files = [p \in Paths |-> NoFile] /\ asked = <<>>
Write(i, p, lay, ft, surf) == /\ i \in DOMAIN objs /\ Len(objs) < MaxObjs
   /\ files' = [files EXCEPT ![p] = [layout |-> lay, lines |-> Lines(objs[i], lay, ft), surf |-> surf \/ objs[i].surf, ft |-> ft, of |-> i]]
   /\ UNCHANGED <<objs, asked>>
Read(p) == /\ files[p].layout # "none" /\ Len(objs) < MaxObjs
           /\ objs' = Append(objs, Parse(files[p])) /\ asked' = files[p] /\ UNCHANGED files
Next == \/ \E i \in 1..MaxObjs, p \in Paths, lay \in Layouts, ft \in FileTypes, surf \in BOOLEAN : Write(i, p, lay, ft, surf)
        \/ \E p \in Paths : Read(p)
Spec == Init /\ [][Next]_vars
RoundTrip == asked = <<>> \/ LET o == objs[Len(objs)] IN
   /\ Agrees(Rows(o), Expect(Rows(objs[asked.of]), asked.ft), asked.layout, FALSE) /\ o.surf = asked.surf
Chained == Len(objs) = MaxObjs => IsPerm([i \in DOMAIN Rows(objs[MaxObjs]) |-> SubSeq(Rows(objs[MaxObjs])[i], 1, 4)], [i \in DOMAIN Rows(objs[1]) |-> SubSeq(Rows(objs[1])[i], 1, 4)])
=============================================================================
