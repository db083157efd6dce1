------------------------------ MODULE Conf_Session ------------------------------
(* Histories of the real decomposers against the transitions of Session.tla (C12-C16, C25, C28).  A session has
   references (clean uninterrupted runs), model objects and one checkpoint file.  For every call the events
   hold what an observing logger saw after each iteration, and the model, its loggers and the file after the
   call; the specification works out from the numbers how many iterations the call had to do and what the
   file and the logs have to contain.  Decompositions are compared as bit patterns with what was observed
   when the iteration ended, and as numbers with the reference run.
   The clauses are named after the property they belong to.                                               *)
EXTENDS TraceBase, Losses

Sess == INSTANCE Session WITH MaxIts <- 0, Freqs <- {}, MaxCalls <- 0, MaxFaults <- 0, Generate <- FALSE,
    m <- st, file <- st, pc <- st, first <- st, conv <- st, err <- st, due <- st, total <- st, calls <- st, faults <- st, hist <- st

(* ---- numbers: what the stopping rules and the comparisons need to know about a decomposition ---- *)
Prob(e) == FForce([kind |-> e.kind, X |-> e.X, Y |-> RowsAll(e.Y), at |-> e.at, ridge |-> e.ridge, slices |-> RowsAll(e.slices)])
OkState(q) == Valid(q.w) /\ AllMats(q.U) /\ AllMats(q.V)
\* CP and CMTF: weights, factors and own factors; PARAFAC2: U = <<A, blueprint, C>> and V = the projections
NumOf(q) == FForce([ok |-> OkState(q), w |-> IF Valid(q.w) THEN q.w.d ELSE <<>>,
                  U |-> IF AllMats(q.U) THEN RowsAll(q.U) ELSE <<>>, V |-> IF AllMats(q.V) THEN RowsAll(q.V) ELSE <<>>])
LossSum(p, q) == FForce(
    IF p.kind = "pf2" THEN FAdd(SlicesSSE(p.slices, q.U[1], q.U[2], q.U[3], q.V, Len(p.slices)), RidgeTerms(p.ridge, q.U, 3))
    ELSE SSEOf(p, q))
NormSq(p) == IF p.kind = "pf2" THEN SlicesSq(p.slices, Len(p.slices)) ELSE SqNorm(p.X.d)
PfSlices(q) == [k \in DOMAIN q.V |-> SliceOf(q.U[1], MM(q.V[k], q.U[2]), q.U[3][k])]
\* the same decomposition up to rounding; CMTF may have been rescaled
Tol == 7
NearM(A, B) == MNear(A, B, RTol(Tol, MaxAbs(B)))
SameTensors(p, a, b) ==
    IF p.kind = "pf2" THEN Len(a.V) = Len(b.V) /\ LET x == PfSlices(a) y == PfSlices(b) IN \A k \in DOMAIN x : NearM(x[k], y[k])
    ELSE /\ LET y == KruskalData(b.w, b.U) IN VNear(KruskalData(a.w, a.U), y, RTol(Tol, FMaxAbs(y)))
         /\ Len(a.V) = Len(b.V) /\ \A c \in DOMAIN p.at : NearM(MMT(a.U[p.at[c]], a.V[c]), MMT(b.U[p.at[c]], b.V[c]))
SameDec(p, a, b) ==
    /\ a.ok /\ b.ok /\ Len(a.U) = Len(b.U)
    /\ SameTensors(p, a, b)
    /\ p.kind = "cmtf" \/ \A n \in DOMAIN a.U : NearM(a.U[n], b.U[n])

(* ---- one call: fold over the observed iterations ---- *)
\* the relative change, and how well rounding lets it be known
Change(p, prev, cur) ==
    IF prev = FZero THEN [c |-> FZero, band |-> FOne]
    ELSE [c |-> FAbs(FDiv(FSub(prev, cur), prev)),
          band |-> FAdd(FTiny(12), FDiv(FMul(FTiny(14), FAdd(FOne, FSqrt(NormSq(p)))), FAdd(FSqrt(prev), FTiny(14))))]
\* "yes", "no" or, within rounding of a tolerance, "maybe"
Below(x, tol, band) == IF FLt(FAdd(x, band), tol) THEN "yes" ELSE IF FLt(FAdd(tol, band), x) \/ FSign(tol) = 0 THEN "no" ELSE "maybe"
Converged(r, e) == IF r.m.rel = Sess!Inf THEN "no" ELSE Below(r.m.rel[1].c, e.tol, r.m.rel[1].band)
Fits(r, e) == IF r.p.kind = "pf2" THEN "no" ELSE Below(FDiv(r.sum, NormSq(r.p)), e.rtol, FTiny(14))
MustStop(r, e) == r.m.it >= r.m.max \/ Converged(r, e) = "yes" \/ Fits(r, e) = "yes"
MayStop(r, e) == MustStop(r, e) \/ Converged(r, e) = "maybe" \/ Fits(r, e) = "maybe" \/ r.sum = FZero
Finish(r, e, first) ==
    IF Sess!DueAtEnd(r.m, first)
    THEN IF Sess!CanStore(r.f, r.m) THEN [r EXCEPT !.f = Sess!Stored(r.f, r.m), !.m = Sess!Marked(r.m)]
         ELSE [r EXCEPT !.exc = "ValueError"]
    ELSE r
RECURSIVE Loop(_, _, _)
Loop(r, e, first) ==
    IF MustStop(r, e) \/ (r.n = Len(e.seen) /\ MayStop(r, e)) THEN Finish(r, e, first)
    ELSE IF r.n = Len(e.seen) THEN [r EXCEPT !.more = TRUE]
    ELSE LET o == e.seen[r.n + 1]
             q == NumOf(o.state)
             sum == IF q.ok THEN LossSum(r.p, q) ELSE FZero
             change == Change(r.p, r.sum, sum)
             m2 == FForce([Sess!Iterated(r.m, o.bits, change, [it |-> r.m.it, vals |-> o.vals]) EXCEPT !.num = q])
             r2 == [r EXCEPT !.m = m2, !.sum = sum, !.n = @ + 1, !.before = r.f]
         IN IF ~q.ok THEN r2
            ELSE IF Sess!Due(m2)
            THEN IF Sess!CanStore(r.f, m2) THEN Loop([r2 EXCEPT !.f = Sess!Stored(r.f, m2), !.m = Sess!Marked(m2)], e, first)
                 ELSE [r2 EXCEPT !.exc = "ValueError"]
            ELSE Loop(r2, e, first)
\* the state that iterations start from: recorded before the first one
StartedModel(s, e) ==
    LET mo == s.models[e.m] IN
    CASE e.what = "fit" -> [Sess!FitStarted(mo, s.refs[e.ref].bits0, e.max) EXCEPT !.ref = e.ref, !.loaded = FALSE, !.num = s.refs[e.ref].states[1]]
      [] e.what = "continue" -> Sess!ContinueStarted(mo, e.max)
      [] e.what = "fitfrom" -> [Sess!Loaded(Sess!FitStarted(mo, <<>>, e.max), s.file, s.file.final)
                                  EXCEPT !.ref = e.ref, !.loaded = TRUE, !.num = s.contents[s.file.final]]
Folded(s, e) ==
    LET m0 == StartedModel(s, e)
        p == s.refs[m0.ref].prob
    IN Loop([m |-> m0, f |-> s.file, before |-> s.file, p |-> p, sum |-> LossSum(p, m0.num), n |-> 0, exc |-> "", more |-> FALSE], e, m0.it)

(* ---- observed files and logs ---- *)
FileOf(o) == [its |-> o.its, final |-> o.final, groups |-> [k \in {o.labels[i] : i \in DOMAIN o.labels} |->
                 o.bits[CHOOSE i \in DOMAIN o.labels : o.labels[i] = k]], log |-> <<>>]
\* the logs of all loggers as they should be on disk
LogIts(log) == [i \in DOMAIN log |-> log[i].it]
LogVals(log, j) == [i \in DOMAIN log |-> log[i].vals[j]]
DiskLogsOK(f, o, n) == IF Len(f.log) = 0 THEN \A j \in DOMAIN o.logs : o.logs[j].its = <<>>
                       ELSE Len(o.logs) = n /\ \A j \in DOMAIN o.logs : o.logs[j].its = LogIts(f.log) /\ o.logs[j].vals = LogVals(f.log, j)
MemLogsOK(mo, e) == \A j \in DOMAIN e.logs : e.logs[j].its = LogIts(mo.log) /\ e.logs[j].vals = LogVals(mo.log, j)

(* ---- progress reports ---- *)
ReportOK(p, prev, t, line) ==
    LET n == FInt(Elements(p))
        sse == SSE(p, t)
        tol == SumTol(sse, FMul(FInt(4), ModelSq(p, t)), n)
        loss == FAdd(sse, Penalty(p, t))
        a == LossSum(p, prev)  b == LossSum(p, t)
        near(i, x, eps) == Valid(line.vals[i]) /\ FNear(line.vals[i].d[1], x, FAdd(eps, FMul(FTiny(5), FAbs(x))))
    IN /\ Len(line.vals) = 3
       /\ near(1, FDiv(sse, n), FAdd(FDiv(tol, n), FTiny(14)))
       /\ near(2, loss, tol)
       /\ FLt(a, FTiny(9)) \/ near(3, FDiv(FSub(a, b), a), Change(p, a, b).band)
\* the iterations of a call that are reported
Reported(every, e) == SelectSeq([i \in DOMAIN e.seen |-> i], LAMBDA i : Sess!Shown(every, e.seen[i].it))
ProgressVerdict(p, m0, every, e) ==
    LET due == Reported(every, e)
        states == FForce([i \in 1..(Len(e.seen) + 1) |-> IF i = 1 THEN m0.num ELSE NumOf(e.seen[i - 1].state)])
        same == [j \in DOMAIN e.printed |-> e.printed[j].it] = [j \in DOMAIN due |-> e.seen[due[j]].it]
    IN [C28_reported_iterations |-> same,
        C28_reported_numbers |-> (~same) \/ \A j \in DOMAIN due :
                (states[due[j]].ok /\ states[due[j] + 1].ok) => ReportOK(p, states[due[j]], states[due[j] + 1], e.printed[j])]
CallVerdict(e, s) ==
    LET r == Folded(s, e)
        p == r.p
        ref == s.refs[r.m.ref]
        it0 == StartedModel(s, e).it
        o == FileOf(e.file)
        t == NumOf(e.after.state)
        done == ~r.more /\ r.n = Len(e.seen)
    IN [C12_error |-> e.exc = r.exc,
        C12_stops_where_it_should |-> done,
        C12_counter_during |-> \A i \in DOMAIN e.seen : e.seen[i].it = it0 + i - 1,
        C12_counter_after |-> (~done) \/ e.after.it = r.m.it,
        C12_nothing_to_do |-> Len(e.seen) > 0 \/ ~t.ok \/ SameTensors(p, t, StartedModel(s, e).num),
        C13_same_as_clean_run |-> \A i \in DOMAIN e.seen : it0 + i + 1 \in DOMAIN ref.states => SameDec(p, NumOf(e.seen[i].state), ref.states[it0 + i + 1]),
        C13_result |-> e.after.it + 1 \in DOMAIN ref.states => SameDec(p, t, ref.states[e.after.it + 1]),
        C13_result_is_last_iterate |-> Len(e.seen) = 0 \/ p.kind = "cmtf" \/ e.after.bits = e.seen[Len(e.seen)].bits,
        C15_resumes_in_place |-> e.what # "fitfrom" \/ (Len(e.seen) > 0 => e.seen[1].it = s.file.final + 1),
        C13_same_number_of_iterations |-> e.what = "fitfrom" \/ r.m.loaded \/ (done /\ e.exc = r.exc),
        C14_no_error |-> ~r.m.path \/ r.exc # "" \/ e.exc = "",
        C14_same_iteration_again |-> r.exc = "" \/ e.exc = r.exc,
        C15_continues |-> ~r.m.loaded \/ (done /\ e.exc = r.exc /\ e.after.it = r.m.it),
        C15_same_as_uninterrupted |-> ~r.m.loaded \/ \A i \in DOMAIN e.seen :
            /\ e.seen[i].it = it0 + i - 1
            /\ it0 + i + 1 \in DOMAIN ref.states => SameDec(p, NumOf(e.seen[i].state), ref.states[it0 + i + 1]),
        C16_no_error |-> Len(e.logs) = 0 \/ e.exc = r.exc,
        C14_its |-> (~done) \/ e.file.its = r.f.its,
        C14_final |-> (~done) \/ e.file.final = r.f.final,
        C14_checkpoints |-> (~done) \/ DOMAIN o.groups = DOMAIN r.f.groups,
        C14_contents |-> \A k \in DOMAIN o.groups \cap DOMAIN r.f.groups : o.groups[k] = r.f.groups[k],
        C16_in_memory |-> MemLogsOK(r.m, e),
        C16_on_disk |-> (~done) \/ DiskLogsOK(r.f, e.file, Len(e.logs))]
       @@ ProgressVerdict(p, StartedModel(s, e), r.m.every, e)
\* the decomposition observed when iteration k ended
SeenAt(e, it0, k) == IF k - it0 + 1 \in DOMAIN e.seen THEN NumOf(e.seen[k - it0 + 1].state) ELSE [ok |-> FALSE]
CallPost(e, s) ==
    LET r == Folded(s, e)
        t == NumOf(e.after.state)
        labels == DOMAIN FileOf(e.file).groups
    IN IF e.exc # r.exc \/ r.n # Len(e.seen) \/ r.more \/ ~t.ok THEN [s EXCEPT !.lost = TRUE]
       ELSE FForce([s EXCEPT !.models = Sess!Put(s.models, e.m, [r.m EXCEPT !.num = t]), !.file = r.f,
                     !.contents = [k \in DOMAIN r.f.groups |-> IF k \in DOMAIN s.contents THEN s.contents[k]
                                       ELSE SeenAt(e, StartedModel(s, e).it, k)]])

(* ---- loading ---- *)
LoadVerdict(e, s) ==
    LET k == IF e.number = -1 THEN s.file.final ELSE e.number IN
    IF s.file = Sess!NoFile \/ ~Sess!HasCheckpoint(s.file, k)
    THEN [C15_error |-> e.exc \in (IF s.file = Sess!NoFile THEN {"ValueError", "FileNotFoundError", "OSError"} ELSE {"ValueError"}),
          C15_state_kept |-> e.after.bits = e.before.bits /\ e.after.it = e.before.it]
    ELSE [C15_no_error |-> e.exc = "",
          C15_contents |-> e.after.bits = s.file.groups[k],
          C15_counter |-> e.after.it = k + 1]
LoadPost(e, s) ==
    IF e.exc # "" THEN s
    ELSE LET k == IF e.number = -1 THEN s.file.final ELSE e.number IN
         IF ~Sess!HasCheckpoint(s.file, k) THEN [s EXCEPT !.lost = TRUE]
         ELSE FForce([s EXCEPT !.models = Sess!Put(s.models, e.m, [Sess!Loaded(s.models[e.m], s.file, k)
                                                               EXCEPT !.ref = e.ref, !.loaded = TRUE, !.num = NumOf(e.after.state)])])

(* ---- a write that failed: the file that is left is taken from the event if it is a safe one ---- *)
FaultVerdict(e, s) ==
    LET r == Folded(s, e)
        o == FileOf(e.file)
    IN IF ~e.fired THEN [C25_error |-> e.exc = r.exc]
       ELSE [C25_error_reaches_the_caller |-> e.exc = e.injected,
             C25_named_are_complete |-> r.n = 0 \/ Sess!SafeAfterFault(r.before, o, Sess!Label(r.m), r.m.dec),
             C25_nothing_written |-> r.n # 0 \/ (o.its = s.file.its /\ o.final = s.file.final),
             C25_no_more_iterations |-> r.n = Len(e.seen)]
FaultPost(e, s) ==
    IF ~e.fired THEN CallPost(e, s)
    ELSE LET o == FileOf(e.file)
             named == {o.its[i] : i \in DOMAIN o.its} \cap DOMAIN o.groups
         IN FForce([s EXCEPT !.file = [o EXCEPT !.groups = [k \in named |-> o.groups[k]]],
                         !.contents = [k \in named |-> IF k \in DOMAIN s.contents THEN s.contents[k] ELSE SeenAt(e, StartedModel(s, e).it, k)],
                         !.lost = \E k \in named : k \notin DOMAIN s.contents /\ k - StartedModel(s, e).it + 1 \notin DOMAIN e.seen])

(* ---- the process ended while a logger looked at an iteration: the file is the one that the iteration before left ---- *)
KilledVerdict(e, s) ==
    LET r == Folded(s, e)
        o == FileOf(e.file)
    IN [C25_killed_where_expected |-> r.n = Len(e.seen),
        C25_killed_its |-> o.its = r.before.its,
        C25_killed_final |-> o.final = r.before.final,
        C25_killed_checkpoints |-> DOMAIN o.groups = DOMAIN r.before.groups,
        C25_killed_contents |-> \A k \in DOMAIN o.groups \cap DOMAIN r.before.groups : o.groups[k] = r.before.groups[k],
        C25_killed_log |-> DiskLogsOK(r.before, e.file, Len(e.logs))]
KilledPost(e, s) ==
    LET r == Folded(s, e) IN
    IF r.n # Len(e.seen) THEN [s EXCEPT !.lost = TRUE]
    ELSE FForce([s EXCEPT !.file = r.before,
                     !.contents = [k \in DOMAIN r.before.groups |-> IF k \in DOMAIN s.contents THEN s.contents[k]
                                       ELSE SeenAt(e, StartedModel(s, e).it, k)]])

(* ---- an object with a history and a new one ---- *)
PairVerdict(e, s) ==
    LET p == s.refs[e.ref].prob  a == NumOf(e.a.state)  b == NumOf(e.b.state) IN
    [C13_same_error |-> e.a.exc = e.b.exc,
     C13_same_number_of_iterations |-> e.a.it = e.b.it,
     C13_same_result |-> e.b.exc # "" \/ SameDec(p, a, b)]

(* ---- very many checkpoints; the first e.before of them are numbered below zero ---- *)
ManyVerdict(e) ==
    [C14_error |-> e.exc = "" /\ e.load_exc = "",
     C14_its |-> e.its = [i \in 1..(e.before + e.n) |-> i - 1 - e.before],
     C14_checkpoints |-> e.labels = [i \in 1..e.n |-> i - 1],
     C14_final |-> e.final = e.n - 1,
     C15_contents |-> e.latest = e.expect]

(* ---- very long runs: a call to ends[1], in the same object on to ends[2], and in another one on to ends[3].  The iterations
        e.start, e.start + 1, .. were seen as e.seen; e.before are the checkpoints of before that ---- *)
DueOnes(e, a, b) == SelectSeq([i \in 1..(b - a) |-> a + i - 1], LAMBDA k : Sess!Due([path |-> TRUE, freq |-> e.freq, it |-> k + 1]) \/ k = b - 1)
LongVerdict(e) ==
    LET split == IF Len(e.before) > 0 THEN e.start ELSE e.ends[1]
        due == (IF Len(e.before) > 0 THEN e.before ELSE DueOnes(e, 0, split)) \o DueOnes(e, split, e.ends[2]) \o DueOnes(e, e.ends[2], e.ends[3])
        n == e.ends[2] - e.start
    IN [C12_counter |-> [i \in DOMAIN e.seen |-> e.seen[i][1]] = [i \in 1..(e.ends[3] - e.start) |-> e.start + i - 1],
        C14_error |-> e.exc = "",
        C14_its |-> e.its = due,
        C14_checkpoints |-> e.labels = due,
        C14_final |-> e.final = e.ends[3] - 1,
        C14_contents |-> \A i \in DOMAIN e.same : e.same[i],
        C15_counter |-> e.at = e.ends[2],
        C15_contents |-> e.found,
        C16_in_memory |-> e.memory = SubSeq(e.seen, 1, n),
        C16_on_disk |-> e.disk = e.seen]

(* ---- an object that goes on, up to e.ends[1] and then e.ends[2], from checkpoint e.origin of a file that is not its own; e.own
        are the checkpoints in the file of its own, if it has one ---- *)
ElsewhereVerdict(e) ==
    LET due == DueOnes(e, e.origin + 1, e.ends[1]) \o DueOnes(e, e.ends[1], e.ends[2])
    IN [C15_no_error |-> e.exc = "",
        C15_counter |-> [i \in DOMAIN e.seen |-> e.seen[i]] = [i \in 1..(e.ends[2] - e.origin - 1) |-> e.origin + i],
        C14_other_file_untouched |-> e.before = e.after,
        C15_other_file_untouched |-> e.before = e.after,
        C14_files |-> e.files = (IF e.path THEN {"from", "own"} ELSE {"from"}),
        C14_its |-> (~e.path) \/ (e.own.its = due /\ e.own.labels = due /\ e.own.final = e.ends[2] - 1),
        C14_contents |-> \A i \in DOMAIN e.same : e.same[i]]

Verdict(e, s) ==
    IF s.lost THEN Good
    ELSE CASE e.op = "reference" -> [valid |-> e.exc = "" /\ \A i \in DOMAIN e.states : OkState(e.states[i])]
      [] e.op = "new" -> Good
      [] e.op = "call" -> CallVerdict(e, s)
      [] e.op = "load" -> LoadVerdict(e, s)
      [] e.op = "bad_load" -> [C15_error |-> e.exc = e.expect, C15_state_kept |-> e.after = e.before]
      [] e.op = "fault" -> FaultVerdict(e, s)
      [] e.op = "killed" -> KilledVerdict(e, s)
      [] e.op = "pair" -> PairVerdict(e, s)
      [] e.op = "count" -> [C12_every_iteration |-> e.exc = "" /\ e.it = e.max]
      [] e.op = "many" -> ManyVerdict(e)
      [] e.op = "elsewhere" -> ElsewhereVerdict([e EXCEPT !.files = {e.files[i] : i \in DOMAIN e.files}])
      [] e.op = "long_run" -> LongVerdict(e)
      [] OTHER -> [crash |-> FALSE]
Post(e, s) ==
    IF s.lost THEN s
    ELSE CASE e.op = "reference" ->
                IF e.exc # "" THEN [s EXCEPT !.lost = TRUE]
                ELSE FForce([s EXCEPT !.refs = Sess!Put(s.refs, e.ref, [prob |-> Prob(e), bits0 |-> <<>>,
                                                                    states |-> [i \in DOMAIN e.states |-> NumOf(e.states[i])]])])
      [] e.op = "new" -> [s EXCEPT !.models = Sess!Put(s.models, e.m,
                              [it |-> 0, max |-> e.max, rel |-> Sess!Inf, dec |-> <<>>, freq |-> e.freq, path |-> e.path, log |-> <<>>, mark |-> 0, every |-> e.every,
                               ref |-> "", num |-> 0, loaded |-> FALSE])]
      [] e.op = "call" -> CallPost(e, s)
      [] e.op = "load" -> LoadPost(e, s)
      [] e.op = "fault" -> FaultPost(e, s)
      [] e.op = "killed" -> KilledPost(e, s)
      [] OTHER -> s

Empty == [refs |-> Sess!NoGroups, models |-> Sess!NoGroups, file |-> Sess!NoFile, contents |-> Sess!NoGroups, lost |-> FALSE]
Init == l = 1 /\ st = Empty
Current(i) == IF i = 1 THEN Empty ELSE IF Trace[i].sid # Trace[i - 1].sid THEN Empty ELSE st
Next == /\ l <= Len(Trace)
        /\ Report(l, Verdict(Trace[l], Current(l)))
        /\ Finished(l)
        /\ l' = l + 1
        /\ st' = Post(Trace[l], Current(l))
===============================================================================
