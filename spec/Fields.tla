------------------------------- MODULE Fields --------------------------------
(* Field containers.  A container keeps, per stored field name, one vector    *)
(* for every column (a source owns w consecutive columns, w = its number of   *)
(* polarisations) and time.  Values of an abstract store are indexed by       *)
(* <<source, polarisation, time>>; the implementation keeps an array with a   *)
(* column offset per source.                                                  *)
EXTENDS VLib
\* columns (as <<source, polarisation>>) of a requested sequence of sources, in the order asked for
ColsOf(widths, srcs) == FlattenS([i \in 1..Len(srcs) |-> [p \in 1..widths[srcs[i]] |-> <<srcs[i], p>>]])
\* keys in storage order of the answer: time slowest, then column
KeysOf(widths, srcs, times) == LET c == ColsOf(widths, srcs) IN
    FlattenS([t \in 1..Len(times) |-> [i \in 1..Len(c) |-> <<c[i][1], c[i][2], times[t]>>]])
AllKeys(widths, nt) == {<<s, p, t>> : s \in 1..Len(widths), p \in 1..3, t \in 1..nt} \cap {k \in (1..Len(widths)) \X (1..3) \X (1..nt) : k[2] <= widths[k[1]]}
Blank(widths, nt, n) == [k \in AllKeys(widths, nt) |-> Zeros(n)]
\* writing: the values arrive in KeysOf order; a repeated source keeps the last one
Put(st, keys, vals) == [k \in DOMAIN st |->
      LET hit == {i \in 1..Len(keys) : keys[i] = k} IN IF hit = {} THEN st[k] ELSE vals[Max(hit)]]
Take(st, keys) == FlattenS([i \in 1..Len(keys) |-> st[keys[i]]])
\* a field derived from a stored one, column by column: srcs's own factor times the value plus the time
Derived(st, keys) == FlattenS([i \in 1..Len(keys) |-> [j \in 1..Len(st[keys[i]]) |-> keys[i][1] * st[keys[i]][j] + keys[i][3]]])
\* documented shape of a container with times: extents of one are dropped, but two axes stay
DeflShape(n, nc, nt) == LET s == SelectSeq(<<n, nc, nt>>, LAMBDA x : x > 1) IN IF Len(s) = 1 THEN Append(s, 1) ELSE s

\* ---- design: an array with column offsets, against the abstract store
CONSTANTS Widths, NT, Vals, MaxOps
VARIABLES abs, arr, n, last
fv == <<abs, arr, n, last>>
Offset(s) == SumSeq([i \in 1..(s - 1) |-> Widths[i]])
NCol == SumSeq(Widths)
ColIdx(srcs) == FlattenS([i \in 1..Len(srcs) |-> [p \in 1..Widths[srcs[i]] |-> Offset(srcs[i]) + p]])
FInit == abs = Blank(Widths, NT, 1) /\ arr = [t \in 1..NT |-> [c \in 1..NCol |-> <<0>>]] /\ n = 0 /\ last = <<>>
SrcSeqs == {<<s>> : s \in 1..Len(Widths)} \cup {<<a, b>> : a, b \in 1..Len(Widths)}
TimeSeqs == {<<t>> : t \in 1..NT} \cup {[t \in 1..NT |-> t]}
Store == /\ n < MaxOps /\ n' = n + 1
         /\ \E srcs \in {q \in SrcSeqs : Len(q) = 1 \/ q[1] # q[2]}, ts \in TimeSeqs, v \in Vals :
              LET keys == KeysOf(Widths, srcs, ts)
                  vals == [i \in 1..Len(keys) |-> <<v + i>>]
                  ci == ColIdx(srcs)
              IN /\ abs' = Put(abs, keys, vals)
                 /\ arr' = [t \in 1..NT |-> [c \in 1..NCol |->
                        LET it == {i \in 1..Len(ts) : ts[i] = t}  ic == {i \in 1..Len(ci) : ci[i] = c} IN
                        IF it = {} \/ ic = {} THEN arr[t][c] ELSE vals[(Max(it) - 1) * Len(ci) + Max(ic)]]]
         /\ UNCHANGED last
Load == /\ n > 0 /\ UNCHANGED <<abs, arr, n>>
        /\ \E srcs \in SrcSeqs, ts \in TimeSeqs :
             last' = <<Take(abs, KeysOf(Widths, srcs, ts)), FlattenS([i \in 1..Len(ts) |-> FlattenS([j \in 1..Len(ColIdx(srcs)) |-> arr[ts[i]][ColIdx(srcs)[j]]])])>>
FNext == Store \/ Load
FSpec == FInit /\ [][FNext]_fv
LoadsAgree == last = <<>> \/ last[1] = last[2]
NoCrossTalk == \A k \in DOMAIN abs : abs[k] = arr[k[3]][Offset(k[1]) + k[2]]
DWidths == <<1, 2>>
=============================================================================
