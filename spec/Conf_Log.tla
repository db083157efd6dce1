--------------------------------- MODULE Conf_Log ---------------------------------
(* C21 and C22: histories of loggers and experiments on one file.
   C21: st.logs is what was given and kept, per experiment and target (texts of single precision values);
        st.disk what the file held after the last event; st.lg the loggers (LogFile's counters).
   C22: st.groups, st.meta as in ExpRun, with texts for values.                                        *)
EXTENDS TraceBase, FiniteSets

F == INSTANCE LogFile WITH Loggers <- {}, Exps <- {}, Freqs <- {}, MaxOps <- 0,
                           disk <- st, lg <- st, seen <- st, nxt <- st, hist <- st
X == INSTANCE ExpRun WITH Exps <- {}, Attrs <- {}, Params <- {}, Outs <- {}, Mets <- {}, Metas <- {}, MaxOps <- 0,
                          groups <- st, meta <- st, nxt <- st, given <- st, hist <- st

(* ------------------------------------------------------------------------------------ C21 *)
SetOf(s) == {s[i] : i \in DOMAIN s}
Of(calls, t) == SelectSeq(calls, LAMBDA c : c[1] = t)
\* the value every target was evaluated to
Values(e, s) == [t \in SetOf(s.lg[e.lg].names) |-> Of(e.calls, t)[1][4]]
OncePerTarget(e, s) == /\ \A t \in SetOf(s.lg[e.lg].names) : Len(Of(e.calls, t)) = 1
                       /\ Len(e.calls) = Cardinality(SetOf(s.lg[e.lg].names))
GivenArguments(e) == \A i \in DOMAIN e.calls : e.calls[i][2] = e.pars /\ e.calls[i][3] = e.args
Appended(logs, ex, vals) == [logs EXCEPT ![ex] = [t \in DOMAIN logs[ex] |-> Append(logs[ex][t], vals[t])]]
AfterLog(e, s) ==
    LET L == s.lg[e.lg] v == Values(e, s) IN
    [s EXCEPT !.logs = Appended(s.logs, L.ex, v),
              !.lg[e.lg].it = @ + 1,
              !.lg[e.lg].mem = [t \in DOMAIN L.mem |-> Append(L.mem[t], v[t])]]

AfterLogs(e, s) ==
    LET L == s.lg[e.lg] IN
    [s EXCEPT !.logs[L.ex] = [t \in DOMAIN @ |-> @[t] \o e.values[t]],
              !.lg[e.lg].it = @ + e.n,
              !.lg[e.lg].mem = [t \in DOMAIN L.mem |-> L.mem[t] \o e.values[t]]]

HasLog(file, s, ex) == IF ex \in DOMAIN file THEN DOMAIN file[ex] = DOMAIN s.logs[ex] ELSE FALSE
Prefix(file, s, ex) == \A t \in DOMAIN s.logs[ex] : F!IsPrefixOf(file[ex][t], s.logs[ex][t])
AllStored(file, s, ex) == \A t \in DOMAIN s.logs[ex] : file[ex][t] = s.logs[ex][t]
Unsaved(file, s, ex, t) == Len(s.logs[ex][t]) - Len(file[ex][t])
OthersKept(e, s, ex) == /\ DOMAIN s.disk \subseteq DOMAIN e.file
                        /\ \A x \in DOMAIN s.disk \ {ex} : x \in DOMAIN e.file /\ e.file[x] = s.disk[x]
                        /\ DOMAIN e.file \subseteq DOMAIN s.disk \cup {ex}
Stored(e, s, ex, what) ==      \* s is the state with everything given so far
    IF ~HasLog(e.file, s, ex) THEN [datasets |-> FALSE]
    ELSE [in_order |-> Prefix(e.file, s, ex),
          all_values |-> what = "log" \/ AllStored(e.file, s, ex),
          saved_when_due |-> \/ what # "log"
                             \/ \A t \in DOMAIN s.logs[ex] : Unsaved(e.file, s, ex, t) < s.lg[e.lg].freq,
          saved_at_multiples |-> \/ what # "log" \/ s.lg[e.lg].first > 0 \/ (s.lg[e.lg].it % s.lg[e.lg].freq) # 0
                                 \/ AllStored(e.file, s, ex)]
Fail(c) == [x \in {c} |-> FALSE]

VerdictLogs(e, s) ==
    CASE e.op \in {"new", "cont"} ->
            IF Raised(e) THEN Fail("no_error")
            ELSE [others_kept |-> OthersKept(e, s, e.ex),
                  datasets |-> IF e.ex \in DOMAIN e.file THEN DOMAIN e.file[e.ex] = SetOf(e.names) ELSE FALSE,
                  starts_empty |-> \/ e.op = "cont"
                                   \/ IF e.ex \in DOMAIN e.file THEN \A t \in DOMAIN e.file[e.ex] : e.file[e.ex][t] = <<>> ELSE FALSE,
                  continues |-> \/ e.op = "new"
                                \/ IF e.ex \in DOMAIN e.file THEN e.file[e.ex] = s.disk[e.ex] ELSE FALSE]
      [] e.op = "open" -> Good
      [] e.op = "log" ->
            IF Raised(e) THEN Fail("no_error")
            ELSE IF ~OncePerTarget(e, s) THEN Fail("evaluated_once")
            ELSE LET n == AfterLog(e, s) ex == s.lg[e.lg].ex
                     base == [arguments |-> GivenArguments(e), memory |-> e.memory = n.lg[e.lg].mem] IN
                 IF ex = "" THEN base
                 ELSE base @@ [others_kept |-> OthersKept(e, s, ex)] @@ Stored(e, n, ex, "log")
      [] e.op = "logs" ->
            IF Raised(e) THEN Fail("no_error")
            ELSE LET n == AfterLogs(e, s) ex == s.lg[e.lg].ex IN
                 [evaluated_once |-> /\ \A t \in DOMAIN e.values : Len(e.values[t]) = e.n
                                     /\ Len(e.calls) = e.n * Cardinality(DOMAIN e.values),
                  arguments |-> \A i \in DOMAIN e.calls : e.calls[i][2] = e.given[1] /\ e.calls[i][3] = e.given[2],
                  memory |-> e.memory = n.lg[e.lg].mem,
                  others_kept |-> OthersKept(e, s, ex)] @@ Stored(e, n, ex, "log")
      [] e.op = "save" ->
            IF Raised(e) THEN Fail("no_error")
            ELSE LET ex == s.lg[e.lg].ex IN
                 [others_kept |-> OthersKept(e, s, ex), memory |-> e.memory = s.lg[e.lg].mem] @@ Stored(e, s, ex, "save")
      [] e.op = "drop" -> [kept |-> e.file = s.disk]
      [] OTHER -> Fail("crash")

Opened(e, ex, n) == [ex |-> ex, freq |-> IF Has(e, "freq") THEN e.freq ELSE 1, it |-> n, first |-> n, names |-> e.names,
                     mem |-> [t \in SetOf(e.names) |-> <<>>]]
PostLogs(e, s) ==
    CASE e.op = "new" /\ ~Raised(e) ->
            [s EXCEPT !.logs = F!Put(s.logs, e.ex, [t \in SetOf(e.names) |-> <<>>]), !.disk = e.file,
                      !.lg = F!Put(s.lg, e.lg, Opened(e, e.ex, 0))]
      [] e.op = "cont" /\ ~Raised(e) ->     \* values that were not saved are gone
            [s EXCEPT !.logs = F!Put(s.logs, e.ex, s.disk[e.ex]), !.disk = e.file,
                      !.lg = F!Put(s.lg, e.lg, Opened(e, e.ex, Len(s.disk[e.ex][e.names[1]])))]
      [] e.op = "open" -> [s EXCEPT !.logs = F!Put(s.logs, "", [t \in SetOf(e.names) |-> <<>>]), !.lg = F!Put(s.lg, e.lg, Opened(e, "", 0))]
      [] e.op = "log" /\ ~Raised(e) ->
            IF OncePerTarget(e, s) THEN [AfterLog(e, s) EXCEPT !.disk = e.file] ELSE s
      [] e.op = "logs" /\ ~Raised(e) -> [AfterLogs(e, s) EXCEPT !.disk = e.file]
      [] e.op = "save" /\ ~Raised(e) -> [s EXCEPT !.disk = e.file]
      [] e.op = "drop" -> [s EXCEPT !.lg = [x \in DOMAIN s.lg \ {e.lg} |-> s.lg[x]]]
      [] OTHER -> s

(* ------------------------------------------------------------------------------------ C22 *)
Same(a, b) == DOMAIN a = DOMAIN b /\ \A x \in DOMAIN a : a[x] = b[x]
SameGroup(a, b) == Same(a.attrs, b.attrs) /\ Same(a.data, b.data)
OtherGroups(e, gs) == /\ DOMAIN gs \ {e.ex} = DOMAIN e.file.groups \ {e.ex}
                      /\ \A x \in DOMAIN gs \ {e.ex} : x \in DOMAIN e.file.groups /\ SameGroup(e.file.groups[x], gs[x])
AfterRun(e, s) == X!Ran([s.groups EXCEPT ![e.ex].data = X!Over(@, e.own)], e.ex, e.params, e.outputs, e.metrics)
Called(e) == /\ Len(e.calls) = 1
             /\ e.calls[1].x = e.x /\ Same(e.calls[1].params, e.params)
             /\ e.calls[1].group = e.ex /\ e.calls[1].logger /\ e.calls[1].old = e.old
Evaluated(e) == /\ Len(e.evals) = 1
                /\ e.evals[1].x = e.x /\ Same(e.evals[1].params, e.params) /\ Same(e.evals[1].outputs, e.outputs)
VerdictExp(e, s) ==
    CASE e.op = "create" ->
            IF Raised(e) THEN Fail("no_error")
            ELSE LET g == X!Created(s.groups, e.ex, e.attrs) IN
                 IF e.ex \notin DOMAIN e.file.groups THEN Fail("group")
                 ELSE [attributes |-> Same(e.file.groups[e.ex].attrs, g[e.ex].attrs),
                       datasets_kept |-> Same(e.file.groups[e.ex].data, g[e.ex].data),
                       metadata |-> Same(e.file.meta, X!Over(s.meta, e.meta)),
                       others_kept |-> OtherGroups(e, s.groups)]
      [] e.op = "run" ->
            IF e.ex \notin DOMAIN s.groups THEN Fail("known")
            ELSE IF Raised(e) THEN Fail("no_error")
            ELSE LET g == AfterRun(e, s) IN
                 IF e.ex \notin DOMAIN e.file.groups THEN Fail("group")
                 ELSE [called_once |-> Called(e), evaluated_once |-> Evaluated(e),
                       parameters |-> Same(e.file.groups[e.ex].attrs, g[e.ex].attrs),
                       results |-> Same(e.file.groups[e.ex].data, g[e.ex].data),
                       metadata_kept |-> Same(e.file.meta, s.meta),
                       parameters_untouched |-> Same(e.params, e.params_after),
                       others_kept |-> OtherGroups(e, s.groups)]
      [] e.op = "fail" ->
            IF e.ex \notin DOMAIN s.groups THEN Fail("known")
            ELSE [error_reaches_caller |-> e.exc = "KeyError", called_once |-> Called(e), not_evaluated |-> Len(e.evals) = 0,
                  nothing_stored |-> e.ex \in DOMAIN e.file.groups /\ SameGroup(e.file.groups[e.ex], s.groups[e.ex]),
                  metadata_kept |-> Same(e.file.meta, s.meta),
                  others_kept |-> OtherGroups(e, s.groups)]
      [] OTHER -> Fail("crash")
PostExp(e, s) ==
    CASE e.op = "create" /\ ~Raised(e) -> [s EXCEPT !.groups = X!Created(s.groups, e.ex, e.attrs), !.meta = X!Over(s.meta, e.meta)]
      [] e.op = "run" /\ ~Raised(e) -> IF e.ex \in DOMAIN s.groups THEN [s EXCEPT !.groups = AfterRun(e, s)] ELSE s
      [] OTHER -> s

(* ------------------------------------------------------------------------------------ *)
Start == [logs |-> F!Nobody, disk |-> F!Nobody, lg |-> F!Nobody, groups |-> X!None, meta |-> X!None]
ExpOps == {"create", "run", "fail"}
\* what else the groups of the file hold stays as it was
Verdict(e, s) == IF e.op \in ExpOps THEN VerdictExp(e, s)
                 ELSE VerdictLogs(e, s) @@ (IF Has(e, "rest") THEN [other_contents_kept |-> e.rest = e.rest0] ELSE Good)
Post(e, s) == IF e.op \in ExpOps THEN PostExp(e, s) ELSE PostLogs(e, s)
Init == l = 1 /\ st = Start
Session(i) == IF i = 1 THEN Start ELSE IF Trace[i].sid # Trace[i - 1].sid THEN Start ELSE st
Next == /\ l <= Len(Trace)
        /\ Report(l, Verdict(Trace[l], Session(l)))
        /\ Finished(l)
        /\ l' = l + 1
        /\ st' = Post(Trace[l], Session(l))
===================================================================================
