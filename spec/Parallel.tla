------------------------------ MODULE Parallel ------------------------------
(* The head process and its worker processes: one task queue and one result  *)
(* queue per worker, both first in first out.  Storing a model has no answer *)
(* (its failure is kept for the tasks that need the model); making fields is *)
(* answered by a key before the work is done (its failure is kept under the  *)
(* key); every other task is answered by a value or an error.  The head      *)
(* always collects the answer of every worker before it returns or raises.   *)
EXTENDS VLib
CONSTANTS W, MaxReq, MaxFail, MaxDeath, Models
VARIABLES tq, rq, live, wmodel, werr, items, fails, deaths,
          req, asked, phase, at, got, outcome, failed, joined
vars == <<tq, rq, live, wmodel, werr, items, fails, deaths, req, asked, phase, at, got, outcome, failed, joined>>
Workers == 1..W
Err == [id |-> 0, m |-> 0, ok |-> FALSE]

Init == /\ tq = [w \in Workers |-> <<>>] /\ rq = [w \in Workers |-> <<>>] /\ live = [w \in Workers |-> TRUE]
        /\ wmodel = [w \in Workers |-> 0] /\ werr = [w \in Workers |-> FALSE] /\ items = [w \in Workers |-> <<>>]
        /\ fails = 0 /\ deaths = 0 /\ req = 0 /\ asked = 0 /\ phase = "idle" /\ at = 1 /\ got = <<>> /\ outcome = "none" /\ failed = FALSE /\ joined = FALSE
Put(q, w, x) == [q EXCEPT ![w] = Append(@, x)]

(* ----- the head *)
PutAll(x) == [w \in Workers |-> Append(tq[w], x)]
Begin(m) == /\ phase = "idle" /\ req < MaxReq /\ ~joined /\ req' = req + 1 /\ asked' = m /\ outcome' = "none" /\ got' = <<>> /\ at' = 1
            /\ failed' = (\E w \in Workers : ~live[w] \/ (m = asked /\ werr[w]))
            /\ tq' = (IF m = asked THEN tq ELSE PutAll([op |-> "model", m |-> m, id |-> 0]))     \* only a new model is sent
            /\ phase' = "fields" /\ UNCHANGED <<rq, live, wmodel, werr, items, fails, deaths, joined>>
AskFields == /\ phase = "fields" /\ tq' = Put(tq, at, [op |-> "fields", m |-> 0, id |-> req]) /\ phase' = "key"
             /\ UNCHANGED <<rq, live, wmodel, werr, items, fails, deaths, req, asked, at, got, outcome, failed, joined>>
Take(w) == [rq EXCEPT ![w] = Tail(@)]
GetKey == /\ phase = "key" /\ rq[at] # <<>> /\ rq' = Take(at)
          /\ IF at = W THEN phase' = "send" /\ at' = 1 ELSE phase' = "fields" /\ at' = at + 1
          /\ UNCHANGED <<tq, live, wmodel, werr, items, fails, deaths, req, asked, got, outcome, failed, joined>>
\* nobody left to answer: an error, and nothing of this request is left behind at the others
KeyLost == /\ phase = "key" /\ rq[at] = <<>> /\ ~live[at] /\ phase' = "idle" /\ outcome' = "error"
           /\ UNCHANGED <<tq, rq, live, wmodel, werr, items, fails, deaths, req, asked, at, got, failed, joined>>
Send == /\ phase = "send" /\ tq' = PutAll([op |-> "eval", m |-> 0, id |-> req]) /\ phase' = "collect" /\ at' = 1
        /\ UNCHANGED <<rq, live, wmodel, werr, items, fails, deaths, req, asked, got, outcome, failed, joined>>
Keep(x) == /\ got' = Append(got, x) /\ at' = at + 1
           /\ IF at = W THEN /\ phase' = "idle"
                             /\ outcome' = (IF \A i \in 1..Len(got') : got'[i].ok THEN "value" ELSE "error")
              ELSE phase' = phase /\ outcome' = outcome
Collect == /\ phase = "collect" /\ rq[at] # <<>> /\ rq' = Take(at) /\ Keep(Head(rq[at]))
           /\ UNCHANGED <<tq, live, wmodel, werr, items, fails, deaths, req, asked, failed, joined>>
Lost == /\ phase = "collect" /\ rq[at] = <<>> /\ ~live[at] /\ Keep(Err)
        /\ UNCHANGED <<tq, rq, live, wmodel, werr, items, fails, deaths, req, asked, failed, joined>>
Join == /\ phase = "idle" /\ ~joined /\ joined' = TRUE /\ tq' = [w \in Workers |-> IF live[w] THEN Append(tq[w], [op |-> "stop", m |-> 0, id |-> 0]) ELSE tq[w]]
        /\ UNCHANGED <<rq, live, wmodel, werr, items, fails, deaths, req, asked, phase, at, got, outcome, failed>>

(* ----- the workers: take the next task, do it or fail, answer *)
Fetch(w) == live[w] /\ tq[w] # <<>>
Task(w) == Head(tq[w])
Done(w) == tq' = [tq EXCEPT ![w] = Tail(@)]
Failing(bad) == /\ fails' = fails + (IF bad THEN 1 ELSE 0) /\ (bad => fails < MaxFail)
                /\ failed' = (failed \/ bad)
Model(w, bad) == /\ Fetch(w) /\ Task(w).op = "model" /\ Done(w) /\ Failing(bad) /\ wmodel' = [wmodel EXCEPT ![w] = Task(w).m] /\ werr' = [werr EXCEPT ![w] = bad]
                 /\ UNCHANGED <<rq, live, items, deaths, req, asked, phase, at, got, outcome, joined>>
\* the key goes out first, the work follows
Fields(w, bad) == /\ Fetch(w) /\ Task(w).op = "fields" /\ Done(w) /\ Failing(bad) /\ rq' = Put(rq, w, [id |-> Task(w).id, m |-> 0, ok |-> TRUE])
                  /\ items' = [items EXCEPT ![w] = [id |-> Task(w).id, m |-> wmodel[w], ok |-> ~bad /\ ~werr[w]]]
                  /\ UNCHANGED <<live, wmodel, werr, deaths, req, asked, phase, at, got, outcome, joined>>
Eval(w, bad) == /\ Fetch(w) /\ Task(w).op = "eval" /\ Done(w) /\ Failing(bad)
                /\ rq' = Put(rq, w, IF bad \/ werr[w] \/ ~items[w].ok THEN Err ELSE [id |-> Task(w).id, m |-> wmodel[w], ok |-> TRUE])
                /\ UNCHANGED <<live, wmodel, werr, items, deaths, req, asked, phase, at, got, outcome, joined>>
Stop(w) == /\ Fetch(w) /\ Task(w).op = "stop" /\ Done(w) /\ live' = [live EXCEPT ![w] = FALSE]
           /\ UNCHANGED <<rq, wmodel, werr, items, fails, deaths, req, asked, phase, at, got, outcome, failed, joined>>
Die(w) == /\ Fetch(w) /\ Task(w).op # "stop" /\ deaths < MaxDeath /\ deaths' = deaths + 1 /\ live' = [live EXCEPT ![w] = FALSE] /\ failed' = TRUE
          /\ UNCHANGED <<tq, rq, wmodel, werr, items, fails, req, asked, phase, at, got, outcome, joined>>
HeadStep == (\E m \in Models : Begin(m)) \/ AskFields \/ GetKey \/ KeyLost \/ Send \/ Collect \/ Lost \/ Join
Work(w) == (\E b \in BOOLEAN : Model(w, b) \/ Fields(w, b) \/ Eval(w, b)) \/ Stop(w)
Next == HeadStep \/ \E w \in Workers : Work(w) \/ Die(w)
Fair == WF_vars(HeadStep) /\ \A w \in Workers : WF_vars(Work(w))
Spec == Init /\ [][Next]_vars /\ Fair

(* ----- what the caller relies on *)
\* an answer that is read belongs to the request that reads it, and was computed at the model asked for
OwnAnswers == \A i \in 1..Len(got) : got[i].ok => got[i].id = req /\ got[i].m = asked
OwnKeys == phase = "key" /\ rq[at] # <<>> => Head(rq[at]).id = req
\* between requests no answer is left over for a later one
NothingLeft == phase = "idle" => \A w \in Workers : live[w] => rq[w] = <<>>
\* a value is returned exactly when no member failed while answering
ErrorsSurface == (outcome = "value" => ~failed) /\ (phase = "idle" /\ outcome = "error" => failed)
EachOnce == outcome = "value" /\ phase = "idle" => Len(got) = W
\* every request is answered, whatever fails; joining ends everybody
Answered == (phase # "idle") ~> (phase = "idle")
JoinEnds == joined ~> (\A w \in Workers : ~live[w])
=============================================================================
