------------------------------ MODULE TraceFiles ------------------------------
(* Judging sessions of writing and reading.  Objects and files are followed as *)
(* rows of electrode and value tokens; every object must stay what it is, and   *)
(* every read must agree with what the last write to that path kept.            *)
EXTENDS TraceLib
VARIABLES objs, files, angle
F == INSTANCE Files WITH Elecs <- {}, Paths <- {}, MaxRows <- 0, MaxObjs <- 0, asked <- 0
tv == <<l, bad, objs, files, angle>>
NoF == [layout |-> "none", rows |-> <<>>, surf |-> FALSE, wild |-> FALSE]
TInit == TraceVarsInit /\ objs = <<>> /\ files = <<NoF, NoF>> /\ angle = 0
Same(o, p) == o.rows = p.rows /\ o.surf = p.surf
\* what the columns of a table become
Col(c, name, none) == IF name = "" THEN none ELSE IF name \in DOMAIN c THEN c[name] ELSE -2
TableRow(r, e) == <<r.e[1], r.e[2], r.e[3], r.e[4], Col(r.c, e.dcol, F!Unset), IF Col(r.c, e.dcol, F!Unset) = F!Unset THEN F!Unset ELSE Col(r.c, e.ucol, F!Zero)>> \o [i \in DOMAIN e.dict |-> Col(r.c, e.dict[i], 0)]
Cut(r, n) == SubSeq(r, 1, Min2(n, Len(r)))
ReadWant(f, e) == IF e.fmt = "xyz" THEN [i \in DOMAIN f.rows |-> TableRow(f.rows[i], e)] ELSE f.rows
ReadClauses(f, e) == LET want == ReadWant(f, e) IN
      Clause(Len(e.rows) = Len(want), "number-of-data")
   \o Clause(Len(e.rows) # Len(want) \/ LET g == [i \in DOMAIN e.rows |-> Cut(e.rows[i], e.nk)] w == [i \in DOMAIN want |-> Cut(want[i], e.nk)] IN IF f.layout = "blocks" THEN g = w ELSE F!IsPerm(g, w), "geometry")
   \o Clause(Len(e.rows) # Len(want) \/ F!Agrees(e.rows, want, f.layout, f.wild), "values")
   \o Clause(e.surf = (f.surf \/ e.asksurf), "elevations")
Partition(e) == \A i \in DOMAIN e.lines : F!IsPerm(e.lines[i], SelectSeq([k \in DOMAIN e.ids |-> k], LAMBDA k : e.ids[k] = e.names[i]))
Keep == UNCHANGED <<objs, files, angle>>
TStep == Consume /\ LET e == Line IN
  \/ e.op = "new" /\ Flag(<<>>) /\ objs' = <<>> /\ files' = <<NoF, NoF>> /\ angle' = 0
  \/ e.op = "make" /\ Flag(Clause(e.rows = e.want, "construction")) /\ objs' = Append(objs, [rows |-> e.rows, surf |-> e.surf]) /\ UNCHANGED <<files, angle>>
  \* writing leaves the object as it was
  \/ e.op = "write" /\ Flag(Clause(Same(objs[e.obj], e), "writing-changed-the-object"))
       /\ files' = [files EXCEPT ![e.path] = [layout |-> e.layout, wild |-> e.wild, surf |-> e.fsurf \/ objs[e.obj].surf,
             rows |-> IF e.fmt = "xyz" THEN e.table ELSE IF e.fmt \in {"grav", "mag", "gg"} THEN objs[e.obj].rows ELSE F!Expect(objs[e.obj].rows, e.ft)]]
       /\ UNCHANGED <<objs, angle>>
  \/ e.op = "read" /\ Flag(ReadClauses(files[e.path], e)) /\ objs' = Append(objs, [rows |-> [i \in DOMAIN e.rows |-> Cut(e.rows[i], e.nkeep)], surf |-> e.surf]) /\ UNCHANGED <<files, angle>>
  \* the objects made before are still the same
  \/ e.op = "obs" /\ Flag(Clause(Same(objs[e.obj], e), "object-changed")) /\ Keep
  \* magnetotelluric tables: nothing lost, angles add up
  \/ e.op = "turn" /\ Flag(<<>>) /\ angle' = (angle + e.k) % 36 /\ UNCHANGED <<objs, files>>
  \/ e.op = "nsem" /\ Flag(Clause(F!IsPerm(e.rows, e.want), "stations") \o Clause(e.angle = angle, "tensor")) /\ Keep
  \* electrode tables: the sorting index says where every row went
  \/ e.op = "sorted" /\ Flag(Clause(F!IsPerm(e.index, [i \in DOMAIN e.want |-> i]), "sorting-index") \o Clause(F!IsPerm(e.rows, e.want), "geometry")
        \o Clause(~(F!IsPerm(e.index, [i \in DOMAIN e.want |-> i]) /\ Len(e.rows) = Len(e.want)) \/ \A i \in DOMAIN e.rows : e.rows[i] = e.want[e.index[i]], "sorting-order")) /\ Keep
  \/ e.op = "lines" /\ Flag(Clause(Partition(e), "partition")) /\ Keep
  \/ e.op = "same" /\ Flag(Clause(SeqNear(e.got, e.want, e.tol), e.what)) /\ Keep
  \/ e.op = "true" /\ Flag(Clause(e.ok, e.what)) /\ Keep
  \/ e.op = "exception" /\ Flag(ExcClauses(e)) /\ Keep
TraceSpec == TInit /\ [][TStep]_tv
=============================================================================
