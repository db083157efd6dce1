----------------------------------- MODULE Heap -----------------------------------
(* Who may change what (C24).  Objects have a kind and a version; the version counts changes of contents.
   class[i] is the set of objects that may share memory with object i: a Kruskal tensor shares the factor
   matrices it is built from, a model works on the initial decomposition it was given, its decomposition
   is part of it.  Data never belong to the class of anything else.

   Sig lists the operations: the kinds of their arguments, the kind of the result ("-" none worth
   following), and the arguments that form one class with each other and with the result (share), and
   whether the operation changes that class (own).  Every other operation leaves every object alone.   *)
EXTENDS Naturals, Sequences, TLC

Op(args, res, share, own) == [args |-> args, res |-> res, share |-> share, own |-> own]
Pure(args, res) == Op(args, res, {}, FALSE)

Algebra == [
    unfold           |-> Pure(<<"X">>, "U"),
    fold             |-> Pure(<<"U">>, "X"),
    khatri_rao       |-> Pure(<<"F">>, "r"),
    khatri_rao_skip  |-> Pure(<<"F">>, "r"),
    khatri_rao_binary|-> Pure(<<"F">>, "r"),
    kron             |-> Pure(<<"F">>, "r"),
    kron_binary      |-> Pure(<<"F">>, "r"),
    mttkrp           |-> Pure(<<"X", "F">>, "r"),
    flatten          |-> Pure(<<"F">>, "V"),
    unflatten        |-> Pure(<<"V">>, "r"),
    rightsolve       |-> Pure(<<"N", "F">>, "r"),
    nn_rightsolve    |-> Pure(<<"N", "F">>, "r"),
    orth_rightsolve  |-> Pure(<<"N", "F">>, "r"),
    orth_solve       |-> Pure(<<"F", "F">>, "r"),
    ridge_rightsolve |-> Pure(<<"N", "F">>, "r"),
    ridge_nn_rightsolve |-> Pure(<<"N", "F">>, "r")]
Utils == [
    flip_factors     |-> Pure(<<"F">>, "r"),
    pca_loadings     |-> Pure(<<"U">>, "r"),
    permute          |-> Pure(<<"F">>, "F"),
    permute_weights  |-> Pure(<<"F">>, "F"),
    normalize_factor |-> Pure(<<"F">>, "r"),
    normalize_factors|-> Pure(<<"F">>, "F"),
    prepare          |-> Pure(<<"F">>, "F"),
    signs            |-> Pure(<<"F", "X">>, "r"),
    signs_plain      |-> Pure(<<"F">>, "r")]
Scores == [
    fms              |-> Pure(<<"F", "F">>, "r"),
    fms_unweighted   |-> Pure(<<"F", "F">>, "r"),
    fms_separate     |-> Pure(<<"F", "F">>, "r"),
    fms_pf2          |-> Pure(<<"F", "F">>, "r"),
    completion       |-> Pure(<<"X", "X", "W">>, "r"),
    explained        |-> Pure(<<"X", "X">>, "r"),
    core             |-> Pure(<<"X", "F">>, "r"),
    core_normalized  |-> Pure(<<"X", "F">>, "r"),
    core_pf2         |-> Pure(<<"S", "P">>, "r"),
    leverage         |-> Pure(<<"F">>, "r")]
Kruskal == [
    kruskal          |-> Op(<<"F">>, "K", {1}, FALSE),
    kruskal_weights  |-> Op(<<"F">>, "K", {1}, FALSE),
    k_tensor         |-> Pure(<<"K">>, "X"),
    k_fms            |-> Pure(<<"K", "K">>, "r"),
    k_separate       |-> Pure(<<"K", "K">>, "r"),
    k_signs          |-> Pure(<<"K", "X">>, "r"),
    k_sign_scores    |-> Pure(<<"K", "X">>, "r"),
    k_degeneracy     |-> Pure(<<"K">>, "r"),
    k_core           |-> Pure(<<"K", "X">>, "r"),
    k_single         |-> Pure(<<"K">>, "r"),
    k_store          |-> Pure(<<"K">>, "-"),
    k_reload         |-> Pure(<<"K">>, "K"),
    k_normalize      |-> Op(<<"K">>, "-", {1}, TRUE),
    k_reset          |-> Op(<<"K">>, "-", {1}, TRUE),
    evolving         |-> Pure(<<"K">>, "E"),
    e_tensor         |-> Pure(<<"E">>, "X"),
    e_slices         |-> Pure(<<"E">>, "r"),
    e_degeneracy     |-> Pure(<<"E">>, "r"),
    e_fms            |-> Pure(<<"E", "E">>, "r"),
    e_store          |-> Pure(<<"E">>, "-"),
    p_slices         |-> Pure(<<"P">>, "S"),
    p_slice          |-> Pure(<<"P">>, "r"),
    p_tensor         |-> Pure(<<"P">>, "r"),
    p_degeneracy     |-> Pure(<<"P">>, "r"),
    p_fms            |-> Pure(<<"P", "P">>, "r"),
    p_single         |-> Op(<<"P">>, "r", {1}, FALSE),
    p_parts          |-> Op(<<"P">>, "r", {1}, FALSE),
    p_store          |-> Pure(<<"P">>, "-"),
    p_reload         |-> Pure(<<"P">>, "P")]
Models == [
    cp_new           |-> Pure(<<"A">>, "CP"),
    cp_fit           |-> Op(<<"CP", "X">>, "-", {1}, TRUE),
    cp_fit_from      |-> Op(<<"CP", "X", "K">>, "-", {1, 3}, TRUE),
    cp_transform     |-> Op(<<"CP", "X">>, "-", {1}, TRUE),
    cp_continue      |-> Op(<<"CP">>, "-", {1}, TRUE),
    cp_measures      |-> Pure(<<"CP">>, "r"),
    cp_reconstructed |-> Pure(<<"CP">>, "r"),
    cp_decomposition |-> Op(<<"CP">>, "K", {1}, FALSE),
    cp_checkpoint    |-> Pure(<<"CP">>, "-"),
    cp_load          |-> Op(<<"CP", "X">>, "-", {1}, TRUE),
    cmtf_new         |-> Pure(<<"A">>, "CM"),
    cmtf_fit         |-> Op(<<"CM", "X", "M">>, "-", {1}, TRUE),
    cmtf_fit_from    |-> Op(<<"CM", "X", "M", "K">>, "-", {1, 4}, TRUE),
    cmtf_transform   |-> Op(<<"CM", "X", "M">>, "-", {1}, TRUE),
    cmtf_continue    |-> Op(<<"CM">>, "-", {1}, TRUE),
    cmtf_measures    |-> Pure(<<"CM">>, "r"),
    cmtf_decomposition |-> Op(<<"CM">>, "K", {1}, FALSE),
    cmtf_checkpoint  |-> Pure(<<"CM">>, "-"),
    pf2_new          |-> Pure(<<"A">>, "PF"),
    pf2_fit          |-> Op(<<"PF", "S">>, "-", {1}, TRUE),
    pf2_fit_from     |-> Op(<<"PF", "S", "P">>, "-", {1, 3}, TRUE),
    pf2_transform    |-> Op(<<"PF", "S">>, "-", {1}, TRUE),
    pf2_continue     |-> Op(<<"PF">>, "-", {1}, TRUE),
    pf2_measures     |-> Pure(<<"PF">>, "r"),
    pf2_projected    |-> Pure(<<"PF">>, "r"),
    pf2_decomposition |-> Op(<<"PF">>, "P", {1}, FALSE),
    pf2_checkpoint   |-> Pure(<<"PF">>, "-")]
Sig == Algebra @@ Utils @@ Scores @@ Kruskal @@ Models

\* what the driver starts with, and the kinds that are given as data
Pool0 == <<"X", "X", "F", "F", "N", "W", "S", "S", "M", "K", "K", "P", "P", "A", "CP", "CM", "PF">>
Data == {"X", "S", "M", "W", "N", "A"}

CONSTANTS Ops, MaxOps, MaxPool
VARIABLES kind, class, ver, hist, last
vars == <<kind, class, ver, hist, last>>

(* ---- the transitions as functions, also used by Conf_Heap ---- *)
Shared(cl, f, args) == UNION {cl[args[i]] : i \in Sig[f].share}
MayChange(cl, f, args) == IF Sig[f].own THEN Shared(cl, f, args) ELSE {}
\* res = 0: no result is followed
Classes(cl, f, args, res) ==
    LET S == Shared(cl, f, args) \cup (IF res = 0 \/ Sig[f].share = {} THEN {} ELSE {res})
        dom == DOMAIN cl \cup (IF res = 0 THEN {} ELSE {res}) IN
    [i \in dom |-> IF i \in S THEN S ELSE IF i = res THEN {i} ELSE cl[i]]

Init == /\ kind = Pool0
        /\ class = [i \in DOMAIN Pool0 |-> {i}]
        /\ ver = [i \in DOMAIN Pool0 |-> 0]
        /\ hist = <<>> /\ last = {}
RECURSIVE Text(_)
Text(s) == IF Len(s) = 0 THEN "" ELSE ToString(Head(s)) \o "," \o Text(Tail(s))
Of(k) == {i \in DOMAIN kind : kind[i] = k}
ArgsOf(f) == {s \in [DOMAIN Sig[f].args -> DOMAIN kind] : \A i \in DOMAIN s : kind[s[i]] = Sig[f].args[i]}
Call(f, args) ==
    LET new == Sig[f].res # "-" /\ Len(kind) < MaxPool
        res == IF new THEN Len(kind) + 1 ELSE 0
        may == MayChange(class, f, args) IN
    /\ kind' = IF new THEN Append(kind, Sig[f].res) ELSE kind
    /\ class' = Classes(class, f, args, res)
    /\ ver' = [i \in DOMAIN class' |-> IF i \in may THEN ver[i] + 1 ELSE IF i \in DOMAIN ver THEN ver[i] ELSE 0]
    /\ hist' = Append(hist, f \o ":" \o Text(args) \o ":" \o ToString(res))
    /\ last' = may
RECURSIVE Tuples(_)
Tuples(ks) == IF Len(ks) = 0 THEN {<<>>} ELSE {<<i>> \o t : i \in Of(Head(ks)), t \in Tuples(Tail(ks))}
Step == /\ Len(hist) < MaxOps
        /\ \E f \in Ops : \E args \in Tuples(Sig[f].args) : Call(f, args)
RECURSIVE Join(_)
Join(s) == IF Len(s) = 0 THEN "" ELSE Head(s) \o " " \o Join(Tail(s))
Done == /\ Len(hist) = MaxOps
        /\ PrintT("BEH " \o Join(hist) \o "END")
        /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars

(* ---- what is checked on the specification ---- *)
DataNeverChange == \A i \in DOMAIN kind : kind[i] \in Data => ver[i] = 0 /\ class[i] = {i}
ClassesPartition == \A i \in DOMAIN kind : i \in class[i] /\ \A j \in class[i] : class[j] = class[i]
OnlyOwnersChange == [][\A i \in DOMAIN ver : ver'[i] # ver[i] => i \in last']_vars
===================================================================================
