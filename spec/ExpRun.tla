--------------------------------- MODULE ExpRun ---------------------------------
(* Experiments that share a file (C22): every experiment has a group with attributes and datasets, and the
   file has one set of metadata.  Values are numbered in the order in which they are given.              *)
EXTENDS Naturals, Sequences, TLC

CONSTANTS Exps, Attrs, Params, Outs, Mets, Metas, MaxOps
VARIABLES groups, meta, nxt, given, hist
vars == <<groups, meta, nxt, given, hist>>

Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
None == [x \in {} |-> 0]
Empty == [attrs |-> None, data |-> None]
GroupOf(gs, e) == IF e \in DOMAIN gs THEN gs[e] ELSE Empty
Set(gs, e, v) == [x \in DOMAIN gs \cup {e} |-> IF x = e THEN v ELSE gs[x]]

(* ---- the transitions as functions, also used by Conf_Log ---- *)
Created(gs, e, attrs) == Set(gs, e, [GroupOf(gs, e) EXCEPT !.attrs = Over(@, attrs)])
Stored(params) == [x \in DOMAIN params \ {"init"} |-> params[x]]
Ran(gs, e, params, outs, mets) ==
    Set(gs, e, [attrs |-> Over(gs[e].attrs, Stored(params)), data |-> Over(Over(gs[e].data, outs), mets)])
\* a fresh run writes new datasets, a continued one overwrites the datasets that are there
CanRun(gs, e, outs, mets, continue) ==
    /\ e \in DOMAIN gs
    /\ IF continue THEN DOMAIN outs \cup DOMAIN mets \subseteq DOMAIN gs[e].data
       ELSE (DOMAIN outs \cup DOMAIN mets) \cap DOMAIN gs[e].data = {}

New(S) == [x \in S |-> nxt]
Names(S) == IF S = {} THEN "" ELSE LET R[T \in SUBSET S] == IF T = {} THEN "" ELSE LET x == CHOOSE y \in T : TRUE IN x \o "," \o R[T \ {x}] IN R[S]
Say(s) == hist' = Append(hist, s)
Init == groups = None /\ meta = None /\ nxt = 1 /\ given = None /\ hist = <<>>
Create(e, A, M) ==
    /\ groups' = Created(groups, e, New(A))
    /\ meta' = Over(meta, New(M))
    /\ given' = Over(Over(given, [x \in {<<e, "attr", y>> : y \in A} |-> nxt]), [x \in {<<"", "meta", y>> : y \in M} |-> nxt])
    /\ nxt' = nxt + 1
    /\ Say("create:" \o e \o ":" \o Names(A) \o ":" \o Names(M))
Run(e, P, O, E, c) ==
    /\ CanRun(groups, e, New(O), New(E), c)
    /\ groups' = Ran(groups, e, New(P), New(O), New(E))
    /\ given' = Over(given, [x \in {<<e, "attr", y>> : y \in P \ {"init"}} \cup {<<e, "data", y>> : y \in O \cup E} |-> nxt])
    /\ nxt' = nxt + 1
    /\ Say("run:" \o e \o ":" \o (IF c THEN "continue" ELSE "fresh") \o ":" \o Names(P) \o ":" \o Names(O) \o ":" \o Names(E))
    /\ UNCHANGED meta
Fail(e, P, c) == /\ e \in DOMAIN groups
                 /\ Say("fail:" \o e \o ":" \o (IF c THEN "continue" ELSE "fresh") \o ":" \o Names(P))
                 /\ UNCHANGED <<groups, meta, nxt, given>>
Step == /\ Len(hist) < MaxOps
        /\ \E e \in Exps :
             \/ \E A \in SUBSET Attrs, M \in SUBSET Metas : Create(e, A, M)
             \/ \E P \in SUBSET Params, c \in BOOLEAN : \/ Fail(e, P, c)
                                                        \/ \E O \in SUBSET Outs, E \in SUBSET Mets : Run(e, P, O, E, c)
RECURSIVE Join(_)
Join(s) == IF Len(s) = 0 THEN "" ELSE Head(s) \o " " \o Join(Tail(s))
Done == /\ Len(hist) = MaxOps
        /\ PrintT("BEH " \o Join(hist) \o "END")
        /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars

(* ---- what is checked on the specification ---- *)
Value(k) == CASE k[2] = "attr" -> groups[k[1]].attrs[k[3]]
              [] k[2] = "data" -> groups[k[1]].data[k[3]]
              [] OTHER -> meta[k[3]]
LatestValues == \A k \in DOMAIN given : Value(k) = given[k]
NothingElse == \A e \in DOMAIN groups : /\ \A x \in DOMAIN groups[e].attrs : <<e, "attr", x>> \in DOMAIN given
                                        /\ \A x \in DOMAIN groups[e].data : <<e, "data", x>> \in DOMAIN given
                                        /\ "init" \notin DOMAIN groups[e].attrs
OneAtATime == [][\A e, h \in DOMAIN groups : e # h => groups'[e] = groups[e] \/ groups'[h] = groups[h]]_vars
=================================================================================
