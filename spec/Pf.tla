--------------------------------- MODULE Pf ---------------------------------
(* Potential-field simulations: the order of the data, which requests may be  *)
(* refused, and simulations that keep their sensitivities in shared paths.    *)
(* Storage is modelled down to files (inodes), names in a directory, the tag  *)
(* naming the problem of a file, and processes that end at any point.         *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Probs, Precs, Paths, MaxSims, MaxIno, MaxCrash
VARIABLES sims, dir, cont, tag, busy, step, crashes, asked
vars == <<sims, dir, cont, tag, busy, step, crashes, asked>>
Engines == {"geoana", "choclo"}
Key(s) == [prob |-> s.prob, prec |-> s.prec]
None == [prob |-> 0, prec |-> 0]
\* each engine keeps its own kind of file at a path
Init == /\ sims = <<>> /\ dir = [e \in Engines |-> [p \in Paths |-> 0]] /\ cont = <<>>
        /\ tag = [p \in Paths |-> None] /\ busy = 0 /\ step = "" /\ crashes = 0 /\ asked = <<>>
Make(e, b, r, p) == /\ busy = 0 /\ Len(sims) < MaxSims
                    /\ sims' = Append(sims, [prob |-> b, prec |-> r, eng |-> e, path |-> p, h |-> "none", ino |-> 0])
                    /\ UNCHANGED <<dir, cont, tag, busy, step, crashes, asked>>
Drop(i) == /\ busy = 0 /\ i \in DOMAIN sims /\ sims[i].h # "gone" /\ sims' = [sims EXCEPT ![i].h = "gone"]
           /\ UNCHANGED <<dir, cont, tag, busy, step, crashes, asked>>
\* the first request that needs the sensitivities: use the stored ones, or compute
Begin(i) == /\ busy = 0 /\ i \in DOMAIN sims /\ sims[i].h = "none"
            /\ LET s == sims[i] IN
               IF s.eng = "geoana" /\ dir["geoana"][s.path] # 0 /\ tag[s.path] = Key(s)
               THEN /\ sims' = [sims EXCEPT ![i].h = "file", ![i].ino = dir["geoana"][s.path]] /\ UNCHANGED <<busy, step>>
               ELSE /\ busy' = i /\ step' = (IF s.eng = "geoana" THEN "untag" ELSE "unlink") /\ UNCHANGED sims
            /\ UNCHANGED <<dir, cont, tag, crashes, asked>>
Untag == /\ busy # 0 /\ step = "untag" /\ tag' = [tag EXCEPT ![sims[busy].path] = None] /\ step' = "unlink"
         /\ UNCHANGED <<sims, dir, cont, busy, crashes, asked>>
Unlink == /\ busy # 0 /\ step = "unlink" /\ dir' = [dir EXCEPT ![sims[busy].eng][sims[busy].path] = 0] /\ step' = "create"
          /\ UNCHANGED <<sims, cont, tag, busy, crashes, asked>>
Create == /\ busy # 0 /\ step = "create" /\ Len(cont) < MaxIno
          /\ LET s == sims[busy] old == dir[s.eng][s.path] IN
             /\ IF old = 0 THEN cont' = Append(cont, None) /\ dir' = [dir EXCEPT ![s.eng][s.path] = Len(cont) + 1]
                           ELSE cont' = [cont EXCEPT ![old] = None] /\ UNCHANGED dir
             /\ step' = "fill"
          /\ UNCHANGED <<sims, tag, busy, crashes, asked>>
Fill == /\ busy # 0 /\ step = "fill"
        /\ LET s == sims[busy] n == dir[s.eng][s.path] IN
           /\ cont' = [cont EXCEPT ![n] = Key(s)]
           /\ IF s.eng = "geoana" THEN step' = "tag" /\ UNCHANGED <<busy, sims>>
              ELSE step' = "" /\ busy' = 0 /\ sims' = [sims EXCEPT ![busy].h = "file", ![busy].ino = n]
        /\ UNCHANGED <<dir, tag, crashes, asked>>
PutTag == /\ busy # 0 /\ step = "tag" /\ tag' = [tag EXCEPT ![sims[busy].path] = Key(sims[busy])]
          /\ sims' = [sims EXCEPT ![busy].h = "own"] /\ busy' = 0 /\ step' = ""
          /\ UNCHANGED <<dir, cont, crashes, asked>>
\* the process ends: what is on disk stays
Crash == /\ crashes < MaxCrash /\ crashes' = crashes + 1 /\ busy' = 0 /\ step' = ""
         /\ sims' = [i \in DOMAIN sims |-> [sims[i] EXCEPT !.h = "gone"]] /\ UNCHANGED <<dir, cont, tag, asked>>
Holds(s) == IF s.h = "own" THEN Key(s) ELSE cont[s.ino]
Ask(i) == /\ busy = 0 /\ i \in DOMAIN sims /\ sims[i].h \in {"own", "file"}
          /\ asked' = <<Key(sims[i]), Holds(sims[i])>> /\ UNCHANGED <<sims, dir, cont, tag, busy, step, crashes>>
Next == \/ \E e \in Engines, b \in Probs, r \in Precs, p \in Paths : Make(e, b, r, p)
        \/ \E i \in 1..MaxSims : Drop(i)
        \/ \E i \in 1..MaxSims : Begin(i)
        \/ \E i \in 1..MaxSims : Ask(i)
        \/ Untag \/ Unlink \/ Create \/ Fill \/ PutTag \/ Crash
Spec == Init /\ [][Next]_vars
\* every simulation uses the sensitivities of its own problem, for as long as it lives
OwnProblem == \A i \in DOMAIN sims : sims[i].h \in {"own", "file"} => Holds(sims[i]) = Key(sims[i])
Answers == asked = <<>> \/ asked[1] = asked[2]
TagsTrue == busy = 0 => \A p \in Paths : tag[p] # None => dir["geoana"][p] # 0 /\ cont[dir["geoana"][p]] = tag[p]

(* ---- the order of the data: receiver, then location, then component ------ *)
RECURSIVE Cat(_, _)
Cat(f, n) == IF n = 0 THEN <<>> ELSE Cat(f, n - 1) \o f[n]
Layout(groups, table) ==
  Cat([g \in DOMAIN groups |-> Cat([i \in 1..groups[g].n |-> [c \in DOMAIN groups[g].comps |-> table[g][i][groups[g].comps[c]]]], groups[g].n)], Len(groups))
ND(groups) == Len(Cat([g \in DOMAIN groups |-> Cat([i \in 1..groups[g].n |-> [c \in DOMAIN groups[g].comps |-> 0]], groups[g].n)], Len(groups)))
\* what an engine may say it does not offer
MayRefuse(eng, store, amp, op) ==
  \/ eng = "geoana" /\ store = "forward_only" /\ op \in {"jvec", "jtvec", "J", "G", "diag"}
  \/ amp /\ op = "J"
  \/ amp /\ eng = "choclo" /\ store = "forward_only" /\ op = "diag"
=============================================================================
