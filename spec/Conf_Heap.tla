--------------------------------- MODULE Conf_Heap ---------------------------------
(* C24: sequences of calls, against the ownership rules of Heap.tla.  st.dig has the contents of every
   object after the last call (as texts), st.class what may share memory with what, st.kind the kinds. *)
EXTENDS TraceBase

H == INSTANCE Heap WITH Ops <- {}, MaxOps <- 0, MaxPool <- 0,
                        kind <- st, class <- st, ver <- st, hist <- st, last <- st

Key(i) == ToString(i)
\* classes with the texts of the ids as objects
Args(e) == [i \in DOMAIN e.args |-> Key(e.args[i])]
Shared(cl, e) == UNION {cl[Args(e)[i]] : i \in H!Sig[e.fn].share}
May(cl, e) == IF H!Sig[e.fn].own THEN Shared(cl, e) ELSE {}
Classes(cl, e) ==
    LET res == Key(e.res)
        S == Shared(cl, e) \cup (IF e.res = 0 \/ H!Sig[e.fn].share = {} THEN {} ELSE {res})
        dom == DOMAIN cl \cup (IF e.res = 0 THEN {} ELSE {res}) IN
    [i \in dom |-> IF i \in S THEN S ELSE IF i = res THEN {i} ELSE cl[i]]

Known(e, s) == e.fn \in DOMAIN H!Sig /\ e.kinds = H!Sig[e.fn].args /\ \A i \in DOMAIN e.args : Args(e)[i] \in DOMAIN s.dig
Changed(e, s) == {i \in DOMAIN s.dig : IF i \in DOMAIN e.after THEN e.after[i] # s.dig[i] ELSE TRUE}
Wrong(e, s) == Changed(e, s) \ May(s.class, e)
ArgIds(e) == {Args(e)[i] : i \in DOMAIN e.args}
Verdict(e, s) ==
    CASE e.op = "pool" -> Good
      [] e.op = "use" ->
            IF ~Known(e, s) THEN [known |-> FALSE]
            ELSE LET w == Wrong(e, s) IN
                 [arguments_unchanged |-> w \cap ArgIds(e) = {},
                  data_unchanged |-> \A i \in w : s.kind[i] \notin H!Data,
                  others_unchanged |-> w \subseteq ArgIds(e)]
      [] OTHER -> [crash |-> FALSE]
Post(e, s) ==
    CASE e.op = "pool" -> [dig |-> e.after, class |-> [i \in DOMAIN e.after |-> {i}], kind |-> e.kinds]
      [] e.op = "use" ->
            IF ~Known(e, s) THEN s
            ELSE [dig |-> e.after, class |-> Classes(s.class, e),
                  kind |-> IF e.res = 0 THEN s.kind ELSE [i \in DOMAIN s.kind \cup {Key(e.res)} |-> IF i = Key(e.res) THEN H!Sig[e.fn].res ELSE s.kind[i]]]
      [] OTHER -> s
None == [x \in {} |-> 0]
Start == [dig |-> None, class |-> None, kind |-> None]
Init == l = 1 /\ st = Start
Session(i) == IF i = 1 THEN Start ELSE IF Trace[i].sid # Trace[i - 1].sid THEN Start ELSE st
Next == /\ l <= Len(Trace)
        /\ Report(l, Verdict(Trace[l], Session(l)))
        /\ Finished(l)
        /\ l' = l + 1
        /\ st' = Post(Trace[l], Session(l))
====================================================================================
