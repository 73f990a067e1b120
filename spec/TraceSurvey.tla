---------------------------- MODULE TraceSurvey ----------------------------
EXTENDS Survey, TraceLib
tvars == <<shape, fps, vec, rel4, nf, l, bad>>
Keep == UNCHANGED svars
TInit == TraceVarsInit /\ shape = <<>> /\ fps = <<>> /\ vec = <<>> /\ rel4 = <<>> /\ nf = <<>>

InBounds(e) == e.s \in 1..Len(shape) /\ e.r \in 1..Len(shape[e.s])
TStep == Consume /\ LET e == Line IN
  \/ e.op = "new" /\ NewShape(e.shape, e.fps) /\ Flag(<<>>)
  \/ /\ e.op = "layout" /\ Keep
     /\ Flag(Clause(e.slices = AllSlices, "slices-partition-in-order")
          \o Clause(e.slices1 = AllSlices, "slice-lookup-matches-layout")
          \o Clause(e.vnD = VND, "per-source-counts")
          \o Clause(e.srcnD = VND, "source-counts")
          \o Clause(e.nD = ND, "number-of-data")
          \o Clause(e.cols = [s \in 1..Len(shape) |-> ColsOf(s)], "source-indices")
          \o Clause(e.rxidx = [s \in 1..Len(shape) |-> [r \in 1..Len(shape[s]) |-> r - 1]], "receiver-indices")
          \o Clause(e.nSrc = Len(shape), "number-of-sources"))
  \/ /\ e.op = "owners" /\ Keep      \* per-datum attribute array, each entry tells its owner
     /\ Flag(Clause(Len(e.own) = ND /\ \A k \in 1..Len(e.own) : e.own[k] = OwnerOf(k), "attributes-aligned:" \o e.attr))
  \/ /\ e.op = "groups" /\ Keep      \* sources grouped by a key (frequency) - a partition preserving order
     /\ Flag(Clause(e.keys = SetToSortSeq(ToSet(e.keyof), <), "group-keys")
          \o Clause(e.groups = [i \in 1..Len(e.keys) |-> SelectSeq([s \in 1..Len(shape) |-> s], LAMBDA s : e.keyof[s] = e.keys[i])], "groups-partition-sources")
          \o Clause(e.counts = [i \in 1..Len(e.keys) |-> Len(e.groups[i])], "group-counts"))
  \/ /\ e.op = "badpair" /\ Keep
     /\ Flag(Clause(e.rejected, "foreign-pair-rejected"))
  \/ /\ e.op = "data" /\ vec' = e.v /\ rel4' = e.rel4 /\ nf' = e.nf /\ UNCHANGED <<shape, fps>>
     /\ Flag(Clause(e.accepted = (Len(e.v) = ND), "data-length-validated"))
  \/ /\ e.op = "setitem" /\ SetItem(e.s, e.r, e.v) /\ Flag(<<>>)
  \/ /\ e.op = "getitem" /\ Keep /\ Flag(Clause(e.v = GetItem(e.s, e.r), "get-returns-own-slice"))
  \/ /\ e.op = "setvec" /\ SetVec(e.v) /\ Flag(Clause(e.accepted = (Len(e.v) = Len(vec)), "length-validated"))
  \/ /\ e.op = "setrel" /\ SetRel(e.v) /\ Flag(Clause(e.accepted = AcceptErr(e.v), "relative-error-validated"))
  \/ /\ e.op = "setnoise" /\ SetNoise(e.v) /\ Flag(Clause(e.accepted = AcceptErr(e.v), "noise-floor-validated"))
  \/ /\ e.op = "setstd" /\ SetStd(e.v) /\ Flag(<<>>)
  \/ /\ e.op = "state" /\ Keep
     /\ Flag(Clause(e.vec = vec, "data-vector")
          \o Clause(e.vec2 = vec, "tovec")
          \o Clause(e.abs = [k \in 1..Len(vec) |-> Abs(vec[k])], "magnitudes")
          \o Clause(e.stdok = HasStd, "std-defined-iff-errors-set")
          \o Clause(~HasStd \/ ~e.stdok \/ SeqNear(e.var16, Var16, 0), "standard-deviation-rule")
          \o Clause(e.rel4 = rel4 /\ e.nf = nf, "errors-kept")
          \o Clause(e.nD = Len(vec), "data-nD"))
  \/ /\ e.op = "same" /\ Keep       \* an attribute equals the one of a fresh survey
     /\ Flag(Clause(e.got = e.want, "attribute-follows-sources:" \o e.attr))
  \/ /\ e.op = "count" /\ Keep   \* receiver count rule
     /\ Flag(Clause(e.nD = e.nloc * e.mult, "receiver-count:" \o e.kind))
  \/ /\ e.op = "exception" /\ Keep /\ Flag(ExcClauses(e))
TraceSpec == TInit /\ [][TStep]_tvars
=============================================================================
