--------------------------------- MODULE LogFile ---------------------------------
(* Experiment loggers that share a file (C21).  disk maps an experiment to the values stored for it;
   a logger keeps the values it was given and counts how many were written.  seen is what the experiment
   was given and has not lost: values of a session that ended before they were saved are gone.          *)
EXTENDS Naturals, Sequences, TLC

CONSTANTS Loggers, Exps, Freqs, MaxOps

VARIABLES disk, lg, seen, nxt, hist
vars == <<disk, lg, seen, nxt, hist>>

Put(f, g, v) == [x \in DOMAIN f \cup {g} |-> IF x = g THEN v ELSE f[x]]
Nobody == [x \in {} |-> 0]
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ \A i \in DOMAIN a : a[i] = b[i]

(* ---- the transitions as functions, also used by Conf_Log ---- *)
Opened(ex, freq, n) == [ex |-> ex, freq |-> freq, it |-> n, prev |-> n, first |-> n, vals |-> <<>>]
Noted(L, v) == [L EXCEPT !.it = @ + 1, !.vals = Append(@, v)]
\* the dataset is resized and the values not yet written are put at its end
Written(old, L) == SubSeq(old, 1, L.prev) \o SubSeq(L.vals, L.prev - L.first + 1, L.it - L.first)
Marked(L) == [L EXCEPT !.prev = L.it]
Due(L) == L.it % L.freq = 0

Init == /\ disk = Nobody /\ lg = Nobody /\ seen = Nobody /\ nxt = 1 /\ hist = <<>>
Say(s) == hist' = Append(hist, s)
Free(e) == \A a \in DOMAIN lg : lg[a].ex # e
New(a, e, f) == /\ e \notin DOMAIN disk /\ a \notin DOMAIN lg
                /\ disk' = Put(disk, e, <<>>) /\ seen' = Put(seen, e, <<>>)
                /\ lg' = Put(lg, a, Opened(e, f, 0))
                /\ Say("new:" \o a \o ":" \o e \o ":" \o ToString(f)) /\ UNCHANGED nxt
Continue(a, e, f) == /\ e \in DOMAIN disk /\ Free(e) /\ a \notin DOMAIN lg
                     /\ lg' = Put(lg, a, Opened(e, f, Len(disk[e])))
                     /\ seen' = [seen EXCEPT ![e] = disk[e]]
                     /\ Say("cont:" \o a \o ":" \o e \o ":" \o ToString(f)) /\ UNCHANGED <<disk, nxt>>
Log(a) == /\ a \in DOMAIN lg
          /\ LET L == Noted(lg[a], nxt) IN
             /\ seen' = [seen EXCEPT ![L.ex] = Append(@, nxt)]
             /\ disk' = IF Due(L) THEN [disk EXCEPT ![L.ex] = Written(@, L)] ELSE disk
             /\ lg' = [lg EXCEPT ![a] = IF Due(L) THEN Marked(L) ELSE L]
          /\ nxt' = nxt + 1
          /\ Say("log:" \o a)
Save(a) == /\ a \in DOMAIN lg
           /\ disk' = [disk EXCEPT ![lg[a].ex] = Written(@, lg[a])]
           /\ lg' = [lg EXCEPT ![a] = Marked(@)]
           /\ Say("save:" \o a) /\ UNCHANGED <<seen, nxt>>
Drop(a) == /\ a \in DOMAIN lg
           /\ lg' = [x \in DOMAIN lg \ {a} |-> lg[x]]
           /\ Say("drop:" \o a) /\ UNCHANGED <<disk, seen, nxt>>
Step == /\ Len(hist) < MaxOps
        /\ \/ \E a \in Loggers, e \in Exps, f \in Freqs : New(a, e, f) \/ Continue(a, e, f)
           \/ \E a \in Loggers : Log(a) \/ Save(a) \/ Drop(a)
RECURSIVE Join(_)
Join(s) == IF Len(s) = 0 THEN "" ELSE Head(s) \o " " \o Join(Tail(s))
Done == /\ Len(hist) = MaxOps
        /\ PrintT("BEH " \o Join(hist) \o "END")
        /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars

(* ---- what is checked on the specification ---- *)
StoredIsPrefix == \A e \in DOMAIN disk : IsPrefixOf(disk[e], seen[e])
FewUnsaved == \A a \in DOMAIN lg : Len(seen[lg[a].ex]) - Len(disk[lg[a].ex]) < lg[a].freq
Counted == \A a \in DOMAIN lg : lg[a].it = Len(seen[lg[a].ex]) /\ lg[a].prev = Len(disk[lg[a].ex])
SaveStoresAll == [][\A a \in DOMAIN lg : Save(a) => disk'[lg[a].ex] = seen[lg[a].ex]]_vars
NeverShrinks == [][\A e \in DOMAIN disk : IsPrefixOf(disk[e], disk'[e])]_vars
OthersUntouched == [][\A a \in DOMAIN lg : (Log(a) \/ Save(a)) => \A e \in DOMAIN disk \ {lg[a].ex} : disk'[e] = disk[e]]_vars
SavingAgainChangesNothing == [][\A a \in DOMAIN lg : (Save(a) /\ lg[a].prev = lg[a].it) => disk' = disk]_vars
==================================================================================
