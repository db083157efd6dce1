------------------------------- MODULE Conf_Metrics -------------------------------
(* Conformance of scores, signs and diagnostics (C18, C19, C20) to Metrics.tla. *)
EXTENDS TraceBase, Metrics

(* ---- C18 ---- *)
STol == FTiny(8)
ValidPerm(p, R, E) == Len(p) = R /\ (\A i \in 1..R : p[i] \in 1..E) /\ \A i, j \in 1..R : i # j => p[i] # p[j]
ScoreOK(S, how, score, perm) ==
    LET best == BestAssignment(S, how) IN
    [value |-> Valid(score) /\ score.sh = <<>> /\ FNear(score.d[1], best, STol),
     in_unit_interval |-> Valid(score) /\ FLe(FNeg(STol), score.d[1]) /\ FLe(score.d[1], FAdd(FOne, STol)),
     permutation |-> ValidPerm(perm, Len(S), Len(S[1])) /\ FNear(Reduce(Scores(S, perm), how), best, STol)]
FmsOK(e) ==
    LET S == Similarity(RowsAll(e.U), RowsAll(e.V), e.w.d, e.v.d, e.counted) IN
    ScoreOK(S, e.how, e.score, e.perm) @@ [one_if_the_same |-> (~e.same) \/ (Valid(e.score) /\ FNear(e.score.d[1], FOne, STol))]
SeparateOK(e) ==
    LET Us == RowsAll(e.U)  Vs == RowsAll(e.V)
        each == [n \in DOMAIN Us |-> ScoreOK(AbsCos(Us[n], Vs[n]), e.how, e.scores[n], e.perms[n])]
    IN IF Len(e.scores) # Len(Us) \/ Len(e.perms) # Len(Us) THEN [one_per_mode |-> FALSE]
       ELSE [value |-> \A n \in DOMAIN Us : each[n].value, permutation |-> \A n \in DOMAIN Us : each[n].permutation,
             one_if_the_same |-> (~e.same) \/ \A n \in DOMAIN Us : FNear(e.scores[n].d[1], FOne, STol)]
\* a symmetry does not change the score
SymmetryOK(e) == [unchanged |-> Valid(e.before) /\ Valid(e.after) /\ FNear(e.before.d[1], e.after.d[1], STol)]

(* ---- C19 ---- *)
SignsOK(e) ==
    LET Us == RowsAll(e.U)
        N == Len(Us)  R == NCols(Us[1])
        S == FForce([n \in 1..N |-> SignScores(Us[n], Unfold(e.X, n))])
        tol == FForce([n \in 1..N |-> RTol(8, FSum([r \in 1..R |-> FAbs(S[n][r])]))])
        IsSign(x) == x = FOne \/ x = FNeg(FOne)
        sg(n, r) == e.signs[n].d[r]
        \* the sign agrees with the score, or the score is zero up to rounding
        agrees(n, r) == FLe(FAbs(S[n][r]), tol[n]) \/ FSign(sg(n, r)) = FSign(S[n][r])
        smallest(n, r) == \A k \in 1..N : FLe(FAbs(S[n][r]), FAdd(FAbs(S[k][r]), FAdd(tol[n], tol[k])))
        odd(r) == LET free == {n \in 1..N : FLe(FAbs(S[n][r]), tol[n])} IN
                  \/ free # {}
                  \/ FSign(FProd([n \in 1..N |-> FInt(FSign(S[n][r]))])) = -1
    IN IF ~(Len(e.signs) = N /\ \A n \in 1..N : Valid(e.signs[n]) /\ Len(e.signs[n].d) = R) THEN [one_sign_per_component |-> FALSE]
       ELSE [no_error |-> ~Raised(e),
             signs |-> \A n \in 1..N : \A r \in 1..R : IsSign(sg(n, r)),
             even |-> \A r \in 1..R : FProd([n \in 1..N |-> sg(n, r)]) = FOne,
             scores |-> Len(e.scores) = N /\ \A n \in 1..N : Valid(e.scores[n]) /\ VNear(e.scores[n].d, S[n], tol[n]),
             follow_the_scores |-> \A r \in 1..R :
                 LET against == {n \in 1..N : ~agrees(n, r)} IN
                 against = {} \/ (odd(r) /\ \E n \in 1..N : against = {n} /\ smallest(n, r)),
             same_tensor |-> SameArr(e.flipped, e.X.sh, KruskalData(e.w.d, Us))]
MatrixSignOK(e) ==      \* get_signs of one matrix, with or without data
    LET F == Rows(e.F)
        R == NCols(F)
        S == IF e.data THEN SignScores(F, Rows(e.M)) ELSE [r \in 1..R |-> FSum(Col(F, r))]
        tol == RTol(8, FSum([r \in 1..R |-> FAbs(S[r])]))
    IN IF ~(Valid(e.signs) /\ Len(e.signs.d) = R) THEN [no_error |-> FALSE]
       ELSE [signs |-> \A r \in 1..R : e.signs.d[r] = FOne \/ e.signs.d[r] = FNeg(FOne),
             follow_the_scores |-> \A r \in 1..R : FLe(FAbs(S[r]), tol) \/ FSign(e.signs.d[r]) = FSign(S[r]),
             scores |-> Valid(e.scores) /\ Len(e.scores.d) = R /\ \A r \in 1..R : FNear(e.scores.d[r], S[r], tol) \/ (~e.data /\ S[r] = FZero)]
KnownSignsOK(e) ==      \* columns that are almost parallel: the data were made with the coefficients in C
    LET F == Rows(e.F)
        C == Rows(e.C)
        S == [r \in 1..Len(C) |-> FSum([j \in DOMAIN C[r] |-> SignedSq(C[r][j])])]
        tol == FMul(FTiny(3), FSum([r \in 1..Len(C) |-> SqNorm(C[r])]))
    IN IF ~MClose(Rows(e.M), MM(F, C)) THEN [harness_data |-> FALSE]
       ELSE IF ~(Valid(e.signs) /\ Len(e.signs.d) = Len(C) /\ Valid(e.scores) /\ Len(e.scores.d) = Len(C)) THEN [no_error |-> FALSE]
       ELSE [follow_the_scores |-> \A r \in 1..Len(C) : FLe(FAbs(S[r]), tol) \/ FSign(e.signs.d[r]) = FSign(S[r]),
             scores |-> VNear(e.scores.d, S, tol)]
\* the majority sign of a column; a tie goes to the first entry that is not zero
ISum2(v) == FSum([i \in DOMAIN v |-> FInt(FSign(v[i]))])
FirstSign(v) == IF \A i \in DOMAIN v : v[i] = FZero THEN 0
                ELSE FSign(v[CHOOSE i \in DOMAIN v : v[i] # FZero /\ \A j \in 1..(i - 1) : v[j] = FZero])
Majority(v) == LET s == FSign(ISum2(v)) IN IF s # 0 THEN s ELSE FirstSign(v)
MajorityOK(e) ==
    LET Us == RowsAll(e.U)
        R == NCols(Us[1])
        zero(n, r) == \A i \in 1..Len(Us[n]) : Us[n][i][r] = FZero
        shapes == Len(e.signs) = Len(Us) /\ Len(e.out) = Len(Us) /\ \A n \in DOMAIN Us : Valid(e.signs[n]) /\ Len(e.signs[n].d) = R /\ Valid(e.out[n])
                     /\ e.out[n].sh = e.U[n].sh
    IN IF ~shapes THEN [shapes |-> FALSE]
       ELSE [signs |-> \A n \in DOMAIN Us : \A r \in 1..R : zero(n, r) \/ e.signs[n].d[r] = FInt(Majority(Col(Us[n], r))),
             majority_positive |-> \A n \in DOMAIN Us : \A r \in 1..R : zero(n, r) \/ Majority(Col(Rows(e.out[n]), r)) = 1,
             reproduce |-> \A n \in DOMAIN Us :
                 LET s == [r \in 1..R |-> IF zero(n, r) THEN FOne ELSE e.signs[n].d[r]]
                     size == IF e.normalised THEN e.norms[n].d ELSE Ones(R)
                 IN Len(size) = R /\ MClose(ColScale(ColScale(Rows(e.out[n]), s), size), Us[n]),
             norms |-> (~e.normalised) \/ \A n \in DOMAIN Us : VClose(e.norms[n].d, ColNorms(Us[n])),
             unit |-> (~e.normalised) \/ \A n \in DOMAIN Us : \A r \in 1..R : zero(n, r) \/ FNear(SqNorm(Col(Rows(e.out[n]), r)), FOne, FTiny(8)),
             input_kept |-> e.kept]

(* ---- C20 ---- *)
Cube(x) == FMul(x, FMul(x, x))
RootsOK(root, sizes) == Len(root) = Len(sizes) /\ \A r \in DOMAIN root : FNear(Cube(root[r]), sizes[r], RTol(12, sizes[r]))
CoreOK(e) ==
    LET Us == RowsAll(e.U)
        root == e.root.d
        X == IF e.projected THEN LET Xs == RowsAll(e.slices)  P == RowsAll(e.P)
                                     Z == FForce([k \in DOMAIN Xs |-> MM(Xs[k], P[k])])
                                 IN Arr(<<Len(Z[1]), NCols(Z[1]), Len(Z)>>, FForce(PaddedData(Z, Len(Z[1]), NCols(Z[1]))))
             ELSE e.X
        c == CoreConsistency(X, Us[1], Us[2], Us[3], root, e.normalized)
    IN IF ~RootsOK(root, Sizes2(Us, e.w.d)) THEN [harness_roots |-> FALSE]
       ELSE [no_error |-> ~Raised(e),
             value |-> Valid(e.value) /\ e.value.sh = <<>>
                 /\ FNear(e.value.d[1], c.value, FMul(RTol(7, FAdd(FAbs(c.value), SqNorm(c.core))), FInt(10))),
             exact_is_100 |-> (~e.exact) \/ (Valid(e.value) /\ FNear(e.value.d[1], FInt(100), FTiny(5)))]
RatioNear(x, want) == Valid(x) /\ x.sh = <<>> /\ FNear(x.d[1], want, RTol(8, FAbs(want)))
DiagnosticOK(e) ==
    CASE e.what = "leverage" -> [value |-> SameVec(e.value, Leverage(Rows(e.F)))]
      [] e.what = "degeneracy" -> [value |-> SameMat(e.value, Degeneracy(RowsAll(e.U)))]
      [] e.what = "explained" -> [value |-> RatioNear(e.value, FSub(FOne, FDiv(SqNorm(FVSub(e.X.d, e.Y.d)), SqNorm(e.X.d))))]
      [] e.what = "completion" ->
            LET missing == [q \in DOMAIN e.W |-> IF e.W[q] = 0 THEN FOne ELSE FZero] IN
            [value |-> RatioNear(e.value, FDiv(FSqrt(SqNorm(FHad(missing, FVSub(e.X.d, e.Y.d)))), FSqrt(SqNorm(FHad(missing, e.X.d)))))]
      [] OTHER -> [known |-> FALSE]

Verdict(e) ==
    CASE e.op = "fms" -> IF Raised(e) THEN [no_error |-> FALSE] ELSE FmsOK(e)
      [] e.op = "separate" -> IF Raised(e) THEN [no_error |-> FALSE] ELSE SeparateOK(e)
      [] e.op = "symmetry" -> IF Raised(e) THEN [no_error |-> FALSE] ELSE SymmetryOK(e)
      [] e.op = "signs" -> IF Raised(e) THEN [no_error |-> FALSE] ELSE SignsOK(e)
      [] e.op = "matrix_signs" -> IF Raised(e) THEN [no_error |-> FALSE] ELSE MatrixSignOK(e)
      [] e.op = "known_signs" -> IF Raised(e) THEN [no_error |-> FALSE] ELSE KnownSignsOK(e)
      [] e.op = "majority" -> IF Raised(e) THEN [no_error |-> FALSE] ELSE MajorityOK(e)
      [] e.op = "core" -> IF Raised(e) THEN [no_error |-> FALSE] ELSE CoreOK(e)
      [] e.op = "diagnostic" -> IF Raised(e) THEN [no_error |-> FALSE] ELSE DiagnosticOK(e)
      [] e.op = "reject" -> [rejected_with_ValueError |-> e.exc = "ValueError"]
      [] OTHER -> [crash |-> FALSE]
Init == l = 1 /\ st = 0
Next == /\ l <= Len(Trace)
        /\ Report(l, Verdict(Trace[l]))
        /\ Finished(l)
        /\ l' = l + 1
        /\ st' = 0
===============================================================================
