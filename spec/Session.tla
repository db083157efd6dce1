---------------------------------- MODULE Session ----------------------------------
(* The life of a decomposer (C12-C16, C25, C28): fitting, continuing, stopping, logging, checkpointing, failing
   writes, loading and resuming.  A model object is a record
     it    number of completed iterations            max   where a fit stops at the latest
     rel   last relative change ("inf" before the first iteration and after loading)
     dec   the decomposition                         freq, path   checkpoint frequency, whether there is a file
     log   one entry per iteration since the object (its logger) exists     mark  how many of them are on disk
   a file is a record
     its   labels of the checkpoints, in order       final  label of the last one (-1: none)
     groups   label -> decomposition (or Partial)    log   the entries on disk
   The operators in the first part are the transitions as functions.  They are used by the state machine in
   the second part, which TLC explores exhaustively with abstract decompositions (positions on a trajectory),
   and by Conf_Session.tla, which validates histories of the real code.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxIts, Freqs, MaxCalls, MaxFaults, Generate

NoGroups == [k \in {} |-> 0]
NoFile == [its |-> <<>>, final |-> -1, groups |-> NoGroups, log |-> <<>>]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

\* ---- fitting
\* no change is known yet
Inf == <<>>
FitStarted(m, start, max) == [m EXCEPT !.it = 0, !.rel = Inf, !.dec = start, !.max = max]
ContinueStarted(m, max) == [m EXCEPT !.max = max]
Iterated(m, dec, change, entry) == [m EXCEPT !.it = @ + 1, !.rel = <<change>>, !.dec = dec, !.log = Append(@, entry)]

\* ---- progress: whether iteration number it is reported (no reports: every <= 0)
Shown(every, it) == IF every > 0 THEN it % every = 0 ELSE FALSE

\* ---- checkpoints
Label(m) == m.it - 1
Due(m) == IF m.path /\ m.freq > 0 THEN m.it % m.freq = 0 ELSE FALSE
\* at the end of a call that completed iterations the last one is stored, unless it is already
DueAtEnd(m, first) == m.path /\ m.it # first /\ ~Due(m)
CanStore(f, m) == Label(m) \notin DOMAIN f.groups
Unwritten(m) == SubSeq(m.log, m.mark + 1, Len(m.log))
WithGroup(f, m, content) == [f EXCEPT !.groups = Put(f.groups, Label(m), content)]
WithLog(f, m) == [f EXCEPT !.log = @ \o Unwritten(m)]
WithIts(f, m) == [f EXCEPT !.its = Append(@, Label(m))]
WithFinal(f, m) == [f EXCEPT !.final = Label(m)]
Stored(f, m) == WithFinal(WithIts(WithLog(WithGroup(f, m, m.dec), m), m), m)
Marked(m) == [m EXCEPT !.mark = Len(m.log)]

\* ---- loading
HasCheckpoint(f, k) == k \in DOMAIN f.groups
Loaded(m, f, k) == [m EXCEPT !.dec = f.groups[k], !.it = k + 1, !.rel = Inf]

\* ---- what has to hold of a file g after an attempt to store label k (contents dec) in f failed
SafeAfterFault(f, g, k, dec) ==
    /\ \A j \in {f.its[i] : i \in DOMAIN f.its} : j \in DOMAIN g.groups /\ g.groups[j] = f.groups[j]
    /\ g.its = f.its \/ (g.its = Append(f.its, k) /\ k \in DOMAIN g.groups /\ g.groups[k] = dec)
    /\ g.final = f.final \/ (g.final = k /\ k \in DOMAIN g.groups /\ g.groups[k] = dec)

------------------------------------------------------------------------------------
(* The state machine.  A decomposition is its position on the one trajectory from the starting point (any
   deterministic iteration has one); Conv is the set of positions that are reached with a small change.     *)
VARIABLES m, file, pc, first, conv, err,
          due,        \* ghost: the labels that the file has to hold, from the history of calls alone
          total,      \* ghost: entries of all loggers so far, and the iterations since the last fit or load
          calls, faults, hist

vars == <<m, file, pc, first, conv, err, due, total, calls, faults, hist>>
Partial == -7
Positions == 0..MaxIts

NewModel(freq, path) == [it |-> 0, max |-> 0, rel |-> Inf, dec |-> -1, freq |-> freq, path |-> path, log |-> <<>>, mark |-> 0]
Small == m.rel # Inf /\ m.rel[1] \in conv
Note(s) == hist' = Append(hist, s)
Quiet == hist' = hist
Str(n) == ToString(n)

Init == /\ \E fr \in Freqs, p \in BOOLEAN : m = NewModel(fr, p)
        /\ conv \in (IF Generate THEN {{}} ELSE SUBSET (1..MaxIts))
        /\ file = NoFile /\ pc = "idle" /\ first = 0 /\ err = ""
        /\ due = {} /\ total = [log |-> <<>>, disk |-> 0] /\ calls = 0 /\ faults = 0
        /\ hist = <<"new:" \o Str(m.freq) \o ":" \o (IF m.path THEN "1" ELSE "0")>>

Idle == pc = "idle" /\ calls < MaxCalls
Fit(n) == /\ Idle /\ calls' = calls + 1
          /\ m' = FitStarted(m, 0, n) /\ first' = 0 /\ pc' = "loop" /\ err' = ""
          /\ Note("fit:" \o Str(n))
          /\ UNCHANGED <<file, conv, due, total, faults>>
Continue(n) == /\ Idle /\ calls' = calls + 1 /\ m.dec # -1
               /\ m' = ContinueStarted(m, n) /\ first' = m.it /\ pc' = "loop" /\ err' = ""
               /\ Note("continue:" \o Str(n))
               /\ UNCHANGED <<file, conv, due, total, faults>>
Iterate == /\ pc = "loop" /\ m.it < m.max /\ ~Small /\ m.dec < MaxIts
           /\ LET n == Iterated(m, m.dec + 1, m.dec + 1, m.it) IN
              /\ m' = n
              /\ pc' = IF Due(n) THEN "store" ELSE "loop"
              /\ due' = IF n.path /\ n.freq > 0 /\ n.it % n.freq = 0 THEN due \cup {n.it - 1} ELSE due
              /\ total' = [total EXCEPT !.log = Append(@, m.it)]
           /\ Quiet /\ UNCHANGED <<file, first, conv, err, calls, faults>>
Stop == /\ pc = "loop" /\ (m.it >= m.max \/ Small \/ m.dec >= MaxIts)
        /\ pc' = IF DueAtEnd(m, first) THEN "store_last" ELSE "idle"
        /\ due' = IF m.path /\ m.it > first THEN due \cup {m.it - 1} ELSE due
        /\ Quiet /\ UNCHANGED <<m, file, first, conv, err, total, calls, faults>>
\* the parts of storing a checkpoint
After == IF pc \in {"store", "log", "its", "final"} THEN "loop" ELSE "idle"
Phase(a, b) == pc = a \/ pc = b
Store1 == /\ Phase("store", "store_last")
          /\ IF CanStore(file, m)
             THEN file' = WithGroup(file, m, Partial) /\ pc' = (IF pc = "store" THEN "content" ELSE "content_last") /\ err' = err
             ELSE pc' = "idle" /\ err' = "ValueError" /\ file' = file
          /\ Quiet /\ UNCHANGED <<m, first, conv, due, total, calls, faults>>
Store2 == /\ Phase("content", "content_last") /\ file' = WithGroup(file, m, m.dec)
          /\ pc' = (IF pc = "content" THEN "log" ELSE "log_last")
          /\ Quiet /\ UNCHANGED <<m, first, conv, err, due, total, calls, faults>>
Store3 == /\ Phase("log", "log_last") /\ file' = WithLog(file, m) /\ m' = Marked(m)
          /\ pc' = (IF pc = "log" THEN "its" ELSE "its_last")
          /\ Quiet /\ UNCHANGED <<first, conv, err, due, total, calls, faults>>
Store4 == /\ Phase("its", "its_last") /\ file' = WithIts(file, m)
          /\ pc' = (IF pc = "its" THEN "final" ELSE "final_last")
          /\ Quiet /\ UNCHANGED <<m, first, conv, err, due, total, calls, faults>>
Store5 == /\ Phase("final", "final_last") /\ file' = WithFinal(file, m)
          /\ pc' = (IF pc = "final" THEN "loop" ELSE "idle")
          /\ total' = [total EXCEPT !.disk = Len(total.log)]
          /\ Quiet /\ UNCHANGED <<m, first, conv, err, due, calls, faults>>
Storing == pc \notin {"idle", "loop"}
Fault == /\ Storing /\ faults < MaxFaults /\ faults' = faults + 1
         /\ pc' = "idle" /\ err' = "Fault"
         /\ Quiet /\ UNCHANGED <<m, file, first, conv, due, total, calls>>
\* a new process: the object is gone, the file stays
Fresh(freq) == /\ Idle /\ calls' = calls + 1 /\ m.path
               /\ m' = NewModel(freq, TRUE) /\ err' = ""
               /\ total' = [log |-> file.log, disk |-> Len(file.log)]
               /\ Note("fresh:" \o Str(freq))
               /\ UNCHANGED <<file, pc, first, conv, due, faults>>
Load(k) == /\ Idle /\ calls' = calls + 1 /\ file # NoFile
           /\ IF k = -1 THEN file.final # -1 ELSE TRUE
           /\ LET j == IF k = -1 THEN file.final ELSE k IN
              IF HasCheckpoint(file, j)
              THEN file.groups[j] # Partial /\ m' = Loaded(m, file, j) /\ err' = ""
              ELSE m' = m /\ err' = "ValueError"
           /\ Note(IF k = -1 THEN "load:latest" ELSE "load:" \o Str(k))
           /\ UNCHANGED <<file, pc, first, conv, due, total, faults>>

\* fitting with the latest checkpoint as starting point
FitFrom(n) == /\ Idle /\ calls' = calls + 1 /\ file.final # -1
              /\ m' = Loaded(FitStarted(m, 0, n), file, file.final) /\ first' = file.final + 1 /\ pc' = "loop" /\ err' = ""
              /\ Note("fitfrom:" \o Str(n))
              /\ UNCHANGED <<file, conv, due, total, faults>>

Work == Iterate \/ Stop \/ Store1 \/ Store2 \/ Store3 \/ Store4 \/ Store5
Next == \/ Work
        \/ Fault
        \/ \E n \in 0..MaxIts : Fit(n) \/ Continue(n) \/ FitFrom(n)
        \/ \E fr \in Freqs : Fresh(fr)
        \/ \E k \in -1..(MaxIts - 1) : Load(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)

\* behaviours for replay
RECURSIVE Join(_)
Join(s) == IF Len(s) = 0 THEN "" ELSE Head(s) \o " " \o Join(Tail(s))
Emit == /\ Generate /\ pc = "idle" /\ calls = MaxCalls
         /\ PrintT("BEH " \o Join(hist) \o "END")
         /\ pc' = "done"
         /\ UNCHANGED <<m, file, first, conv, err, due, total, calls, faults, hist>>
GenNext == Emit \/ Next

(* ---- checked on the specification ---- *)
Listed == {file.its[i] : i \in DOMAIN file.its}
\* C12: never beyond the limit, and the counter is the position on the trajectory
CounterIsPosition == m.dec >= 0 => m.dec = m.it
WithinLimit == pc = "idle" /\ m.dec >= 0 => (m.it <= m.max \/ m.it = first \/ m.rel = Inf)
\* C14
LabelsAreIndices == \A k \in DOMAIN file.groups : file.groups[k] \in {k + 1, Partial}
NoRepetition == \A i, j \in DOMAIN file.its : i # j => file.its[i] # file.its[j]
FinalIsLast == (~Storing /\ err # "Fault" /\ faults = 0) => file.final = (IF Len(file.its) = 0 THEN -1 ELSE file.its[Len(file.its)])
ExactlyTheDue == (pc = "idle" /\ faults = 0) => Listed = due /\ (~m.path => file = NoFile)
NeverAltered == [][\A k \in DOMAIN file.groups : k \in DOMAIN file'.groups /\ (file.groups[k] # Partial => file'.groups[k] = file.groups[k])]_vars
\* C16
LogsOnDisk == (faults = 0 /\ ~Storing) => /\ Len(file.log) <= Len(total.log)
                                          /\ file.log = SubSeq(total.log, 1, Len(file.log))
CheckpointWritesLog == [][faults = 0 /\ faults' = 0 /\ file'.final # file.final => file'.log = total'.log]_vars
MarkIsDisk == (faults = 0 /\ ~Storing /\ m.path) => Len(total.log) - Len(file.log) = Len(m.log) - m.mark
\* C25
NamedAreComplete == /\ \A k \in Listed : k \in DOMAIN file.groups /\ file.groups[k] = k + 1
                    /\ file.final # -1 => file.final \in DOMAIN file.groups /\ file.groups[file.final] = file.final + 1
FaultsAreSafe == [][err' = "Fault" /\ err # "Fault" => SafeAfterFault(file, file', Label(m), m.dec)]_vars
\* every call ends
CallsEnd == [](pc = "loop" => <>(pc = "idle"))
====================================================================================
