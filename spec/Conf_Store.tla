------------------------------- MODULE Conf_Store -------------------------------
(* C06: histories of storing, modifying and loading decompositions, against the transitions of Store.tla.
   st has the contents of every object (mem) and of every group of every file (disk); contents are the
   bit patterns of everything the decomposition consists of.                                            *)
EXTENDS TraceBase

Disk == INSTANCE Store WITH Objects <- {}, Files <- {}, Groups <- {}, Types <- {}, MaxOps <- 0,
                            mem <- st, disk <- st, got <- st, want <- st, hist <- st

Known(s, e) == e.obj \in DOMAIN s.mem
InFile(s, e) == IF e.file \in DOMAIN s.disk THEN e.group \in DOMAIN s.disk[e.file] ELSE FALSE
Expected(s, e) == Disk!LoadResult(s.disk, e.file, e.group, e.as)

Verdict(e, s) ==
    CASE e.op = "new" -> [no_error |-> ~Raised(e), type |-> e.value.type = e.type]
      [] e.op = "modify" -> Good
      [] e.op \in {"store_file", "store_group"} ->
            IF ~Known(s, e) THEN [known |-> FALSE]
            ELSE [no_error |-> ~Raised(e), object_unchanged |-> e.value = s.mem[e.obj]]
      [] e.op = "load" ->
            IF ~InFile(s, e) THEN [stored |-> FALSE]
            ELSE LET r == Expected(s, e) IN
                 IF r.type = "Warning" THEN [raises_Warning |-> e.exc = "Warning"]
                 ELSE [no_error |-> ~Raised(e),
                       type |-> Raised(e) \/ e.value.type = r.type,
                       rank |-> Raised(e) \/ e.value.rank = r.rank,
                       warning_flag |-> Raised(e) \/ e.value.warning = r.warning,
                       elements |-> Raised(e) \/ e.value.parts = r.parts,
                       shapes |-> Raised(e) \/ e.value.shapes = r.shapes]
      [] e.op = "tensors" ->     \* what stored and loaded decompositions construct
            [no_error |-> ~Raised(e),
             same_tensor |-> Len(e.a) = Len(e.b) /\ \A k \in DOMAIN e.a : Valid(e.a[k]) /\ SameArr(e.b[k], e.a[k].sh, e.a[k].d)]
      [] OTHER -> [crash |-> FALSE]

Post(e, s) ==
    CASE e.op \in {"new", "modify"} -> [s EXCEPT !.mem = Disk!Put(s.mem, e.obj, e.value)]
      [] e.op = "store_file" /\ ~Raised(e) /\ Known(s, e) -> [s EXCEPT !.disk = Disk!StoredAsFile(s.disk, e.file, s.mem[e.obj])]
      [] e.op = "store_group" /\ ~Raised(e) /\ Known(s, e) -> [s EXCEPT !.disk = Disk!StoredInGroup(s.disk, e.file, e.group, s.mem[e.obj])]
      [] e.op = "load" /\ ~Raised(e) -> [s EXCEPT !.mem = Disk!Put(s.mem, e.obj, e.value)]
      [] OTHER -> s

Empty == [mem |-> Disk!NoGroups, disk |-> Disk!NoGroups]
Init == l = 1 /\ st = Empty
Session(i) == IF i = 1 THEN Empty ELSE IF Trace[i].sid # Trace[i - 1].sid THEN Empty ELSE st
Next == /\ l <= Len(Trace)
        /\ Report(l, Verdict(Trace[l], Session(l)))
        /\ Finished(l)
        /\ l' = l + 1
        /\ st' = Post(Trace[l], Session(l))
===============================================================================
