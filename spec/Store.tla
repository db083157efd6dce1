---------------------------------- MODULE Store ----------------------------------
(* Decompositions in memory and in HDF5 files (C06).  Contents are opaque: c counts the versions an object
   goes through when its owner modifies it.  A file maps group names to what was stored there; "root" is
   the file itself.  Storing an object as a file replaces the file.  Loading copies: nothing that happens in
   memory afterwards reaches the disk, and the other way round.                                            *)
EXTENDS Naturals, Sequences, TLC

CONSTANTS Objects, Files, Groups, Types, MaxOps

VARIABLES mem,    \* object -> [type, c] (its current contents)
          disk,   \* file -> group -> [type, c]
          got,    \* result of the last load: [type, c] (type "Warning" when it was refused)
          want,   \* what that load had to give
          hist

vars == <<mem, disk, got, want, hist>>
Warning == [type |-> "Warning", c |-> 0]
Nothing == [type |-> "none", c |-> 0]
NoGroups == [g \in {} |-> 0]
Put(f, g, v) == [x \in DOMAIN f \cup {g} |-> IF x = g THEN v ELSE f[x]]

(* ---- the transitions as functions, also used by Conf_Store ---- *)
StoredAsFile(d, f, v) == Put(d, f, Put(NoGroups, "root", v))
StoredInGroup(d, f, g, v) == Put(d, f, Put(IF f \in DOMAIN d THEN d[f] ELSE NoGroups, g, v))
CanStore(d, f, g) == IF f \in DOMAIN d THEN g \notin DOMAIN d[f] ELSE TRUE
LoadResult(d, f, g, type) == IF d[f][g].type = type THEN d[f][g] ELSE Warning

Init == /\ mem \in [Objects -> [type : Types, c : {0}]]
        /\ disk = [f \in {} |-> 0]
        /\ got = Nothing /\ want = Nothing
        /\ hist = <<>>

Say(s) == hist' = Append(hist, s)
StoreFile(o, f) == /\ disk' = StoredAsFile(disk, f, mem[o])
                   /\ Say("file:" \o o \o ":" \o f)
                   /\ UNCHANGED <<mem, got, want>>
StoreGroup(o, f, g) == /\ CanStore(disk, f, g)
                       /\ disk' = StoredInGroup(disk, f, g, mem[o])
                       /\ Say("group:" \o o \o ":" \o f \o ":" \o g)
                       /\ UNCHANGED <<mem, got, want>>
Modify(o) == /\ mem' = [mem EXCEPT ![o].c = @ + 1]
             /\ Say("modify:" \o o)
             /\ UNCHANGED <<disk, got, want>>
\* the loaded decomposition takes the place of o
Load(o, f, g, t) == /\ f \in DOMAIN disk /\ g \in DOMAIN disk[f]
                    /\ LET r == LoadResult(disk, f, g, t) IN
                       /\ got' = r
                       /\ mem' = IF r = Warning THEN mem ELSE [mem EXCEPT ![o] = r]
                    /\ want' = IF disk[f][g].type = t THEN disk[f][g] ELSE Warning
                    /\ Say("load:" \o o \o ":" \o f \o ":" \o g \o ":" \o t)
                    /\ UNCHANGED disk

Step == /\ Len(hist) < MaxOps
        /\ \/ \E o \in Objects, f \in Files : StoreFile(o, f)
           \/ \E o \in Objects, f \in Files, g \in Groups : StoreGroup(o, f, g)
           \/ \E o \in Objects : Modify(o)
           \/ \E o \in Objects, f \in Files, g \in Groups \cup {"root"}, t \in Types : Load(o, f, g, t)
RECURSIVE Join(_)
Join(s) == IF Len(s) = 0 THEN "" ELSE Head(s) \o " " \o Join(Tail(s))
RECURSIVE TypesOf(_)
TypesOf(S) == IF S = {} THEN "" ELSE LET o == CHOOSE x \in S : TRUE IN "type:" \o o \o ":" \o mem[o].type \o " " \o TypesOf(S \ {o})
\* (the types at the end of a behaviour are not those at the start, so the first action names them)
Done == /\ Len(hist) = MaxOps
        /\ PrintT("BEH " \o Join(hist) \o "END")
        /\ UNCHANGED vars
Start == /\ hist = <<>> /\ hist' = <<TypesOf(Objects)>> /\ UNCHANGED <<mem, disk, got, want>>
Next == (hist = <<>> /\ Start) \/ (hist # <<>> /\ (Step \/ Done))
Spec == Init /\ [][Next]_vars

(* ---- what is checked on the specification ---- *)
LoadsWhatWasStored == got = want
\* only storing changes a file, and only the group it names (or the whole file, when storing as a file)
OthersUntouched == [][\A f \in DOMAIN disk : \A g \in DOMAIN disk[f] :
                        \/ f \in DOMAIN disk' /\ g \in DOMAIN disk'[f] /\ disk'[f][g] = disk[f][g]
                        \/ f \in DOMAIN disk' /\ DOMAIN disk'[f] = {"root"}]_vars
StoringKeepsMemory == [][disk' # disk => mem' = mem]_vars
==================================================================================
