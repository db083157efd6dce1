-------------------------------- MODULE Conf_Init --------------------------------
(* Where models start (C17): the decomposition after fit(max_its=0) for every initialisation scheme.  Leading
   directions are recognised by certificates: columns are leading eigenvectors of a symmetric M when M maps
   each to a multiple of itself, the multiples fall, and what remains of M outside of their span is no larger
   than the last multiple.                                                                              *)
EXTENDS TraceBase, ALS

UnitCols(M, tol) == \A r \in 1..NCols(M) : FNear(SqNorm(Col(M, r)), FOne, tol)
PlusDiag(M, x) == [i \in 1..Len(M) |-> [j \in 1..Len(M) |-> IF i = j THEN FAdd(M[i][j], x) ELSE M[i][j]]]
NegM(M) == MScale(FNeg(FOne), M)

\* the columns of A are leading eigenvectors of M, in order
LeadingVectors(A, M) ==
    LET H == MM(MT(A), MM(M, A))
        R == Len(H)
        tol == RTol(8, FMul(FInt(Len(M)), MaxAbs(M)))
        rest == MSub(M, MM(A, MMT(H, A)))
    IN /\ OrthoCols(A, FTiny(8))
       /\ MNear(MM(M, A), MM(A, H), tol)
       /\ \A i, j \in 1..R : i # j => FLe(FAbs(H[i][j]), tol)
       /\ \A i \in 1..(R - 1) : FLe(H[i + 1][i + 1], FAdd(H[i][i], tol))
       /\ NearPSD(PlusDiag(NegM(rest), H[R][R]), FMul(FInt(4), tol))
\* the columns of A span a leading subspace of M; x separates its eigenvalues from the others
LeadingSpan(A, M, x) ==
    LET N == ColNorms(A)
        B == [i \in 1..Len(A) |-> [r \in 1..Len(N) |-> FDiv(A[i][r], N[r])]]
        P == MM(B, SolvePD(Gram(B), MT(B)))
        Q == MSub(Ident(Len(M)), P)
        tol == FMul(FInt(10), RTol(8, FMul(FInt(Len(M)), MaxAbs(M))))
    IN /\ \A r \in DOMAIN N : FLt(FTiny(8), N[r])
       /\ PosDef(PlusDiag(Gram(B), FNeg(FTiny(8))))
       /\ FLe(MaxAbs(MM(Q, MM(M, P))), tol)
       /\ NearPSD(PlusDiag(NegM(MM(Q, MM(M, Q))), x), tol)
       /\ NearPSD(MM(P, MM(PlusDiag(M, FNeg(x)), P)), tol)

StateOK(q) == Valid(q.w) /\ AllMats(q.U)
State(q) == [w |-> q.w.d, U |-> RowsAll(q.U)]
ShapeOK(e, t) == Len(t.U) = Len(e.X.sh) /\ Len(t.w) = e.rank /\ \A n \in DOMAIN t.U : Len(t.U[n]) = e.X.sh[n] /\ NCols(t.U[n]) = e.rank
MatsOf(e, n) == MMT(Unfold(e.X, n), Unfold(e.X, n))

KruskalOK(e) ==
    LET t == State(e.after) IN
    IF ~ShapeOK(e, t) THEN [shapes |-> FALSE]
    ELSE CASE e.scheme = "random" ->
            [unit_columns |-> \A n \in DOMAIN t.U : UnitCols(t.U[n], FTiny(9)),
             unit_weights |-> VClose(t.w, Ones(e.rank)),
             non_negative |-> \A n \in DOMAIN t.U : e.nn[n] => NonNegative(t.U[n]),
             orthonormal |-> \A n \in DOMAIN t.U : e.orth[n] => OrthoCols(t.U[n], FTiny(9)),
             random |-> \A n \in DOMAIN t.U : Len(t.U[n]) = 1 \/ \A r \in 2..e.rank : Col(t.U[n], r) # Col(t.U[n], 1)]
      [] e.scheme = "svd" ->
            [unit_weights |-> VClose(t.w, Ones(e.rank)),
             leading |-> \A n \in DOMAIN t.U : LeadingVectors(t.U[n], MatsOf(e, n))]
      [] e.scheme \in {"precomputed", "checkpoint"} ->
            LET s == State(e.given) IN
            [same_tensor |-> VClose(KruskalData(t.w, t.U), KruskalData(s.w, s.U)),
             same_factors |-> e.rescaled \/ (VClose(s.w, Ones(e.rank)) => \A n \in DOMAIN t.U : MClose(t.U[n], s.U[n]))]
      [] OTHER -> [scheme |-> FALSE]

\* data with singular values of very different sizes, whose left singular vectors are known
KnownOK(e) ==
    LET t == State(e.after)
        D == RowsAll(e.directions)
    IN IF ~(Len(t.U) = Len(D) /\ \A n \in DOMAIN D : Len(t.U[n]) = Len(D[n]) /\ NCols(t.U[n]) = NCols(D[n])) THEN [shapes |-> FALSE]
       ELSE [leading |-> \A n \in DOMAIN D : LET H == MM(MT(D[n]), t.U[n]) IN
                \A i, j \in 1..NCols(D[n]) : FNear(FAbs(H[i][j]), IF i = j THEN FOne ELSE FZero, FTiny(4)),
             unit_weights |-> VClose(t.w, Ones(Len(t.w)))]

PfOK(e) ==
    LET Xs == RowsAll(e.slices)
        A == Rows(e.after.A)  B == Rows(e.after.B)  C == Rows(e.after.C)  P == RowsAll(e.after.P)
        R == e.rank  K == Len(Xs)
        Summed == MSum(DOMAIN Xs, LAMBDA k : MMT(Xs[k], Xs[k]), [i \in 1..Len(Xs[1]) |-> [j \in 1..Len(Xs[1]) |-> FZero]])
    IN IF ~(/\ e.after.A.sh = <<Len(Xs[1]), R>> /\ e.after.B.sh = <<R, R>> /\ e.after.C.sh = <<K, R>>
            /\ Len(P) = K /\ \A k \in DOMAIN P : Len(P[k]) = NCols(Xs[k]) /\ NCols(P[k]) = R)
       THEN [shapes |-> FALSE]
       ELSE LET shared == [orthonormal |-> \A k \in DOMAIN P : OrthoCols(P[k], OrthoTol),
                           independent |-> e.independent]
            IN CASE e.scheme = "random" -> shared
                 [] e.scheme = "svd" ->
                        [leading |-> LeadingSpan(A, Summed, e.separator),
                         optimal_projections |-> \A k \in DOMAIN P : PolarOptimal(P[k], ProjectionTarget(Xs[k], A, B, C[k]))] @@ shared
                 [] e.scheme = "cp" ->
                        LET X == Arr(<<Len(Xs[1]), NCols(Xs[1]), K>>, PaddedData(Xs, Len(Xs[1]), NCols(Xs[1])))
                            W == MM(P[1], B)
                            U == <<A, W, C>>
                            H == KRSkip(U, 2)
                        IN [same_evolving_factor |-> \A k \in DOMAIN P : MClose(MM(P[k], B), W),
                            cp_solution |-> LsqOptimal(W, Gram(H), MM(Unfold(X, 2), H), FZero)] @@ shared
                 [] e.scheme \in {"precomputed", "checkpoint"} ->
                        [same |-> /\ SameMat(e.given.A, A) /\ SameMat(e.given.B, B) /\ SameMat(e.given.C, C)
                                  /\ Len(e.given.P) = K /\ \A k \in DOMAIN P : SameMat(e.given.P[k], P[k])]
                 [] OTHER -> [scheme |-> FALSE]

Verdict(e) ==
    CASE e.op = "start" -> IF Raised(e) THEN [no_error |-> FALSE] ELSE IF ~StateOK(e.after) THEN [numbers |-> FALSE] ELSE KruskalOK(e)
      [] e.op = "known_start" -> IF Raised(e) THEN [no_error |-> FALSE] ELSE IF ~StateOK(e.after) THEN [numbers |-> FALSE] ELSE KnownOK(e)
      [] e.op = "pf_start" -> IF Raised(e) THEN [no_error |-> FALSE]
                              ELSE IF ~(Valid(e.after.A) /\ Valid(e.after.B) /\ Valid(e.after.C) /\ AllMats(e.after.P)) THEN [numbers |-> FALSE] ELSE PfOK(e)
      [] e.op = "reject" -> [rejected_with_ValueError |-> e.exc = "ValueError"]
      [] OTHER -> [crash |-> FALSE]
Init == l = 1 /\ st = 0
Next == /\ l <= Len(Trace)
        /\ Report(l, Verdict(Trace[l]))
        /\ Finished(l)
        /\ l' = l + 1
        /\ st' = 0
===============================================================================
