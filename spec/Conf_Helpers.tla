------------------------------ MODULE Conf_Helpers ------------------------------
(* Conformance of the helper transformations (C27).  The state st is the component model that a sequence
   of helpers is applied to: weights w and factor matrices U.  Every helper returns the next one, which
   represents the same components in another scale, sign or order.                                      *)
EXTENDS TraceBase

UnitOrZero(A, N) == [i \in 1..Len(A) |-> [r \in 1..Len(N) |-> IF N[r][1] = 0 THEN FZero ELSE FDiv(A[i][r], N[r])]]
Pick(M, perm) == [i \in 1..Len(M) |-> [r \in 1..Len(perm) |-> M[i][perm[r]]]]
PickV(v, perm) == [r \in 1..Len(perm) |-> v[perm[r]]]
Same(as, Ms) == Len(as) = Len(Ms) /\ \A n \in DOMAIN Ms : SameMat(as[n], Ms[n])
Exactly(as, Ms) == Len(as) = Len(Ms) /\ \A n \in DOMAIN Ms : IsMat(as[n], Len(Ms[n]), NCols(Ms[n])) /\ Rows(as[n]) = Ms[n]
RowVec(a, v) == Valid(a) /\ a.sh = <<1, Len(v)>> /\ VClose(a.d, v)

Normalised(s) == [n \in DOMAIN s.U |-> UnitOrZero(s.U[n], ColNorms(s.U[n]))]
NormaliseOK(s, e) ==
    [no_error |-> ~Raised(e),
     unit_columns |-> Same(e.out, Normalised(s)),
     norms |-> Len(e.norms) = Len(s.U) /\ \A n \in DOMAIN s.U : RowVec(e.norms[n], ColNorms(s.U[n])),
     product_is_the_input |-> (Len(e.out) = Len(s.U) /\ Len(e.norms) = Len(s.U)) => \A n \in DOMAIN s.U :
         (IsMat(e.out[n], Len(s.U[n]), NCols(s.U[n])) /\ Len(e.norms[n].d) = NCols(s.U[n])) =>
             MClose(ColScale(Rows(e.out[n]), e.norms[n].d), s.U[n])]
PermuteOK(s, e) ==
    [no_error |-> ~Raised(e),
     columns |-> Exactly(e.out, [n \in DOMAIN s.U |-> Pick(s.U[n], e.perm)]),
     weights |-> ~e.weighted \/ (Valid(e.w) /\ Len(e.w.sh) = 1 /\ VClose(e.w.d, PickV(s.w, e.perm))),
     same_tensor |-> (~e.weighted \/ Len(e.perm) # Len(s.w) \/ Len(s.U) = 1 \/ ~AllMats(e.out) \/ ~Valid(e.w)) \/
                     VClose(KruskalData(e.w.d, RowsAll(e.out)), KruskalData(s.w, s.U))]

(* The best permutation a factor match score names puts the components of the second model in the order of
   the first: with the components of a permuted, sign-flipped and rescaled copy of the first this undoes it *)
UndoOK(s, e) ==
    [no_error |-> ~Raised(e),
     order_restored |-> AllMats(e.out) /\ Len(e.out) = Len(s.U) /\
         LET F == RowsAll(e.out) IN \A n \in DOMAIN F : Len(F[n]) = Len(s.U[n]) /\ NCols(F[n]) = Len(s.w) /\
             \A r \in 1..Len(s.w) : LET u == Col(F[n], r)  v == Col(s.U[n], r) IN
                 \* the columns are parallel: (u.v)^2 = |u|^2 |v|^2
                 LET uv == FSq(FDot(u, v))  b == FMul(SqNorm(u), SqNorm(v)) IN FNear(uv, b, RTol(7, b))]

(* A = V diag(S), the loadings of the leading principal directions of Y:  Y'Y A = A (A'A), A'A is diagonal
   and decreasing, and what is left of Y'Y has no larger direction                                        *)
LoadingsOK(e) ==
    LET Y == Rows(e.Y)  YtY == Gram(Y)  size == FAdd(FOne, MaxAbs(YtY))
        A == Rows(e.out)  D == Gram(A)  R == Len(D)
        tol == FMul(FTiny(7), FSq(size))
        small == D[R][R]
        rest == MSub(YtY, MMT(A, A))
    IN [no_error |-> ~Raised(e),
        size |-> IsMat(e.out, NCols(Y), e.rank),
        diagonal |-> IsMat(e.out, NCols(Y), e.rank) => \A i, j \in 1..R : i # j => FNear(D[i][j], FZero, tol),
        decreasing |-> IsMat(e.out, NCols(Y), e.rank) => \A i \in 1..(R - 1) : FLe(D[i + 1][i + 1], FAdd(D[i][i], tol)),
        directions |-> IsMat(e.out, NCols(Y), e.rank) => MNear(MM(YtY, A), MM(A, D), tol),
        leading |-> IsMat(e.out, NCols(Y), e.rank) => NearPSD(MSub(MScale(small, Ident(NCols(Y))), rest), tol)]

(* Iterating over a checkpoint file gives its checkpoints, and nothing else, in the order of iterations *)
CheckpointsOK(e) ==
    [no_error |-> ~Raised(e),
     in_order |-> e.labels = e.expected,
     contents |-> e.bits = e.expected_bits]

Verdict(e, s) ==
    CASE e.op = "given" -> [valid |-> Valid(e.w) /\ AllMats(e.U)]
      [] e.op = "normalise" -> IF Raised(e) THEN [no_error |-> FALSE] ELSE NormaliseOK(s, e)
      [] e.op = "permute" -> IF Raised(e) THEN [no_error |-> FALSE] ELSE PermuteOK(s, e)
      [] e.op = "undo" -> IF Raised(e) THEN [no_error |-> FALSE] ELSE UndoOK(s, e)
      [] e.op = "loadings" -> IF Raised(e) \/ ~Valid(e.out) \/ Len(e.out.sh) # 2 THEN [no_error |-> FALSE] ELSE LoadingsOK(e)
      [] e.op = "checkpoints" -> CheckpointsOK(e)
      [] OTHER -> [crash |-> FALSE]

RECURSIVE NormProd(_, _)
NormProd(Us, w) == IF Len(Us) = 0 THEN w ELSE NormProd(Tail(Us), FHad(w, ColNorms(Head(Us))))
Post(e, s) == CASE e.op = "given" -> [w |-> e.w.d, U |-> RowsAll(e.U)]
                [] e.op = "normalise" /\ ~Raised(e) /\ AllMats(e.out) -> [w |-> NormProd(s.U, s.w), U |-> RowsAll(e.out)]
                [] e.op = "permute" /\ ~Raised(e) /\ AllMats(e.out) -> [w |-> PickV(s.w, e.perm), U |-> RowsAll(e.out)]
                [] OTHER -> s

Init == l = 1 /\ st = [w |-> <<>>, U |-> <<>>]
Next == /\ l <= Len(Trace)
        /\ Report(l, Verdict(Trace[l], st))
        /\ Finished(l)
        /\ l' = l + 1
        /\ st' = Post(Trace[l], st)
===============================================================================
