------------------------------ MODULE History ------------------------------
(* A simulation object as its user sees it over time.  The inputs are the    *)
(* configuration cfg (physical property values and maps in force) and the    *)
(* current model mod.  Inside, it keeps a system matrix / factorization, a   *)
(* stored sensitivity and a stored sensitivity diagonal, each tagged here    *)
(* with the inputs it was built from.  The required behaviour: an answer     *)
(* carries the tags of the inputs in force when it was given.                *)
EXTENDS VLib

Kinds == {"dpred", "dpredf", "jvec", "jvecf", "jtvec", "jtvecf", "getJ", "jtj0", "jtj1", "jtj2"}
\* what a kind of question is answered with (...f: stored fields passed in)
Base(kind) == CASE kind \in {"dpred", "dpredf"} -> "dpred"
                [] kind \in {"jvec", "jvecf"} -> "jvec"
                [] kind \in {"jtvec", "jtvecf"} -> "jtvec"
                [] OTHER -> kind
Key(kind, c, k) == Base(kind) \o "|" \o ToString(c) \o "|" \o ToString(k)

CONSTANTS Cfgs, Models, Bound
VARIABLES cfg, mod, fac, jst, dia, pool, ans, n
hvars == <<cfg, mod, fac, jst, dia, pool, ans, n>>
None == <<>>
HInit == cfg = 0 /\ mod = 0 /\ fac = None /\ jst = None /\ dia = None /\ pool = {} /\ ans = <<"start">> /\ n = 0
Tick == n < Bound /\ n' = n + 1
\* assigning the model drops everything built from the previous one
SetModel(k) == /\ Tick /\ mod' = k
               /\ IF k # mod THEN fac' = None /\ jst' = None /\ dia' = None ELSE UNCHANGED <<fac, jst, dia>>
               /\ ans' = <<"set">> /\ UNCHANGED <<cfg, pool>>
\* assigning a property or a map drops everything, whether or not the value differs
SetCfg(c) == /\ Tick /\ cfg' = c /\ fac' = None /\ jst' = None /\ dia' = None
             /\ ans' = <<"set">> /\ UNCHANGED <<mod, pool>>
Caches(k) == IF k = mod THEN [f |-> fac, j |-> jst, d |-> dia] ELSE [f |-> None, j |-> None, d |-> None]
Fresh(t, k) == IF t = None THEN <<cfg, k>> ELSE t
\* asking at model k: the model becomes k first; what is kept is used, what is missing is built
AskFields(k) == /\ Tick /\ LET c == Caches(k) IN
                  /\ fac' = Fresh(c.f, k) /\ jst' = c.j /\ dia' = c.d
                  /\ pool' = pool \cup {<<cfg, k, Fresh(c.f, k)>>}
                  /\ ans' = <<"dpred", cfg, k, Fresh(c.f, k)>>
                /\ mod' = k /\ UNCHANGED cfg
AskProduct(k) == /\ Tick /\ LET c == Caches(k) IN
                   /\ fac' = (IF c.j = None THEN Fresh(c.f, k) ELSE c.f) /\ jst' = c.j /\ dia' = c.d
                   /\ ans' = <<"jvec", cfg, k, IF c.j = None THEN Fresh(c.f, k) ELSE c.j>>
                 /\ mod' = k /\ UNCHANGED <<cfg, pool>>
\* the caller passes fields obtained earlier for these very inputs
AskWithFields(p) == /\ Tick /\ p \in pool /\ p[1] = cfg /\ LET c == Caches(p[2]) IN
                      /\ fac' = Fresh(c.f, p[2]) /\ jst' = c.j /\ dia' = c.d
                      /\ ans' = <<"jvec", cfg, p[2], p[3]>>
                    /\ mod' = p[2] /\ UNCHANGED <<cfg, pool>>
AskJ(k) == /\ Tick /\ LET c == Caches(k) IN
             /\ fac' = Fresh(c.f, k) /\ jst' = Fresh(c.j, k) /\ dia' = c.d
             /\ ans' = <<"getJ", cfg, k, Fresh(c.j, k)>>
           /\ mod' = k /\ UNCHANGED <<cfg, pool>>
\* the stored diagonal belongs to one weighting; another weighting rebuilds it
AskDiag(k, w) == /\ Tick /\ LET c == Caches(k)
                                d == IF c.d # None /\ c.d[3] = w THEN c.d ELSE <<cfg, k, w>> IN
                   /\ fac' = c.f /\ jst' = Fresh(c.j, k) /\ dia' = d
                   /\ ans' = <<"diag", cfg, k, <<d[1], d[2]>>, w, d[3]>>
                 /\ mod' = k /\ UNCHANGED <<cfg, pool>>
HNext == \/ \E k \in Models : SetModel(k) \/ AskFields(k) \/ AskProduct(k) \/ AskJ(k)
         \/ \E c \in Cfgs : SetCfg(c)
         \/ \E p \in {<<c, k, <<c, k>>>> : c \in Cfgs, k \in Models} : AskWithFields(p)
         \/ \E k \in Models : \E w \in 0..1 : AskDiag(k, w)
HSpec == HInit /\ [][HNext]_hvars
AnswersCurrent == Len(ans) >= 4 => ans[4] = <<cfg, mod>> /\ ans[2] = cfg /\ ans[3] = mod
WeightsCurrent == Len(ans) = 6 => ans[5] = ans[6]
PoolHonest == \A p \in pool : p[3] = <<p[1], p[2]>>
CachesCurrent == /\ fac \in {None, <<cfg, mod>>}
                 /\ jst \in {None, <<cfg, mod>>}
                 /\ dia = None \/ <<dia[1], dia[2]>> = <<cfg, mod>>
=============================================================================
