--------------------------------- MODULE Rng ---------------------------------
(* Where random draws come from, and what a computation may touch.  A stream is *)
(* a seed and the calls already made on it; a seed (a number, a list of numbers *)
(* or a seed sequence) opens its stream at the beginning, a generator goes on   *)
(* where it stands, and no seed opens a stream nobody else has.  The global     *)
(* stream and the objects of the caller belong to the caller.                   *)
EXTENDS VLib
CONSTANTS Fns, Seeds, Gens, Objs, MaxOps
VARIABLES glob, gens, fresh, heap, log, owner
vars == <<glob, gens, fresh, heap, log, owner>>
\* how many streams a computation draws on: an estimate draws several times on one stream
Draws(fn) == IF fn = "estimate" THEN 3 ELSE 1
Stream(s, past) == [seed |-> s, past |-> past]
\* the answer is made of the draws, each at its own place in the stream
Answer(fn, st) == [i \in 1..Draws(fn) |-> <<fn, st, i>>]
Rec(fn, st) == [fn |-> fn, stream |-> st, ans |-> Answer(fn, st)]
Init == /\ glob = <<>> /\ gens = [g \in Gens |-> Stream(0, <<>>)] /\ fresh = 0 /\ heap = [o \in Objs |-> 0] /\ log = <<>>
        /\ owner = [glob |-> <<>>, heap |-> [o \in Objs |-> 0]]
Room == Len(log) + Len(glob) + SumSeq([i \in 1..Cardinality(Objs) |-> heap[SetToSeq(Objs)[i]]]) < MaxOps
\* the caller, on what is the caller's
SeedGlobal(s) == Room /\ glob' = Append(glob, s) /\ owner' = [owner EXCEPT !.glob = glob'] /\ UNCHANGED <<gens, fresh, heap, log>>
Write(o) == Room /\ heap' = [heap EXCEPT ![o] = @ + 1] /\ owner' = [owner EXCEPT !.heap = heap'] /\ UNCHANGED <<glob, gens, fresh, log>>
Make(g, s) == gens[g].seed = 0 /\ gens' = [gens EXCEPT ![g] = Stream(s, <<>>)] /\ UNCHANGED <<glob, fresh, heap, log, owner>>
\* computations
CallSeed(fn, s) == Room /\ log' = Append(log, Rec(fn, Stream(s, <<>>))) /\ UNCHANGED <<glob, gens, fresh, heap, owner>>
CallGen(fn, g) == /\ Room /\ gens[g].seed # 0 /\ log' = Append(log, Rec(fn, gens[g])) /\ gens' = [gens EXCEPT ![g].past = Append(@, fn)]
                  /\ UNCHANGED <<glob, fresh, heap, owner>>
CallNone(fn) == Room /\ fresh' = fresh + 1 /\ log' = Append(log, Rec(fn, Stream(-1 - fresh, <<>>))) /\ UNCHANGED <<glob, gens, heap, owner>>
Next == \/ \E s \in Seeds : SeedGlobal(s)
        \/ \E o \in Objs : Write(o)
        \/ \E g \in Gens : \E s \in Seeds : Make(g, s)
        \/ \E fn \in Fns : \E s \in Seeds : CallSeed(fn, s)
        \/ \E fn \in Fns : \E g \in Gens : CallGen(fn, g)
        \/ \E fn \in Fns : CallNone(fn)
Spec == Init /\ [][Next]_vars

(* ----- what the caller relies on *)
Reproducible == \A i, j \in DOMAIN log : log[i].fn = log[j].fn /\ log[i].stream = log[j].stream => log[i].ans = log[j].ans
\* answers from different places are different, and no draw is used twice in one answer
Independent == \A i, j \in DOMAIN log : log[i].stream # log[j].stream => \A a \in DOMAIN log[i].ans : \A b \in DOMAIN log[j].ans : log[i].ans[a] # log[j].ans[b]
NoReuse == \A i \in DOMAIN log : \A a, b \in DOMAIN log[i].ans : a # b => log[i].ans[a] # log[i].ans[b]
CallersOwn == glob = owner.glob /\ heap = owner.heap
=============================================================================
