------------------------------ MODULE Conf_Algebra ------------------------------
(* Conformance of the pure tensor algebra (C01, C03) and of the solvers (C04): every recorded call is
   compared with the definition in Tensor.tla, respectively with the certificate in Cert.tla. *)
EXTENDS TraceBase

\* C01 -------------------------------------------------------------------------------------------
KruskalOK(e) ==
    LET R == e.U[1].sh[2]
        w == IF e.weighted THEN e.w.d ELSE Ones(R)
        sh == [n \in 1..Len(e.U) |-> e.U[n].sh[1]]
    IN [no_error |-> ~Raised(e),
        shape |-> e.shape = sh,
        rank |-> e.rank = R,
        weights |-> SameVec(e.wout, w),
        entries |-> SameArr(e.out, sh, KruskalData(w, RowsAll(e.U)))]

\* C03 -------------------------------------------------------------------------------------------
Mode(e) == IF e.mode < 0 THEN e.mode + Len(e.X.sh) + 1 ELSE e.mode + 1     \* numpy counting to 1-based
SkipOf(e) == IF e.skip < 0 THEN e.skip + Len(e.U) + 1 ELSE e.skip + 1
Factors(e) == IF e.skips THEN Without(RowsAll(e.U), SkipOf(e)) ELSE RowsAll(e.U)
RECURSIVE FlatAll(_)
FlatAll(as) == IF Len(as) = 0 THEN <<>> ELSE Head(as).d \o FlatAll(Tail(as))

\* C04 -------------------------------------------------------------------------------------------
\* X A = B, X is p x n
RightOK(e, nonneg) ==
    LET A == Rows(e.A)  B == Rows(e.B)
        At == MT(A)
        AAt == MMT(A, A)  BAt == MMT(B, A)
    IN IF ~IsMat(e.out, Len(B), Len(A)) THEN [shape |-> FALSE]
       ELSE LET X == Rows(e.out) IN
            IF nonneg THEN [feasible |-> NonNegative(X), optimal |-> NnlsOptimal(X, AAt, BAt, e.lambda)]
            ELSE [optimal |-> LsqOptimal(X, AAt, BAt, e.lambda),
                  exact_if_consistent |-> (~e.consistent) \/ MNear(MM(X, A), B, RTol(7, FMax(MaxAbs(B), FMul(MaxAbs(X), MaxAbs(A)))))]
\* A X = B with X (n x q), orthonormal along the shorter side
OrthoOK(e, A, B, shape, Xt) ==   \* Xt is X^T (q x n)
    LET n == NCols(A)  q == NCols(B)
        Mt == MM(MT(B), A)       \* q x n
    IN IF n <= q
       THEN [orthonormal |-> OrthoCols(Xt, OrthoTol), optimal |-> PolarOptimal(Xt, Mt)]
       ELSE [orthonormal |-> OrthoCols(MT(Xt), OrthoTol), optimal |-> TRUE]

Verdict(e) ==
    CASE e.op = "construct" -> IF Raised(e) \/ ~AllMats(e.U) THEN [no_error |-> FALSE] ELSE KruskalOK(e)
      [] e.op = "reject" -> [rejected_with_ValueError |-> e.exc = "ValueError"]
      [] e.op = "unfold" -> IF Raised(e) THEN [no_error |-> FALSE] ELSE [definition |-> SameMat(e.out, Unfold(e.X, Mode(e)))]
      [] e.op = "fold" -> IF Raised(e) THEN [no_error |-> FALSE]
                          ELSE LET m == IF e.mode < 0 THEN e.mode + Len(e.shape) + 1 ELSE e.mode + 1
                               IN [definition |-> SameArr(e.out, e.shape, FoldData(Rows(e.M), m, e.shape))]
      [] e.op = "fold_unfold" -> [inverse |-> ~Raised(e) /\ e.out.sh = e.X.sh /\ e.out.d = e.X.d]
      [] e.op = "khatri_rao" -> IF Raised(e) THEN [no_error |-> FALSE] ELSE [definition |-> SameMat(e.out, KR(Factors(e)))]
      [] e.op = "kron" -> IF Raised(e) THEN [no_error |-> FALSE] ELSE [definition |-> SameMat(e.out, KronAll(RowsAll(e.U)))]
      [] e.op = "kron_vectors" -> IF Raised(e) THEN [no_error |-> FALSE]
                          ELSE [definition |-> SameVec(e.out, Flat(Kron2(<<e.u.d>>, <<e.v.d>>)))]
      [] e.op = "mttkrp" -> IF Raised(e) THEN [no_error |-> FALSE]
                          ELSE [definition |-> SameMat(e.out, MTTKRP(e.X, RowsAll(e.U), Mode(e)))]
      [] e.op = "flatten" -> IF Raised(e) THEN [no_error |-> FALSE] ELSE [definition |-> SameVec(e.out, FlatAll(e.U))]
      [] e.op = "unflatten" -> IF Raised(e) THEN [no_error |-> FALSE]
                          ELSE [inverse |-> Len(e.out) = Len(e.U) /\ \A i \in DOMAIN e.U : e.out[i].sh = e.U[i].sh /\ e.out[i].d = e.U[i].d]
      [] e.op = "rightsolve" -> IF Raised(e) THEN [no_error |-> FALSE] ELSE RightOK(e, FALSE)
      [] e.op = "rightsolve_single" ->       \* to single precision
            IF Raised(e) THEN [no_error |-> FALSE]
            ELSE IF ~IsMat(e.out, e.B.sh[1], e.A.sh[1]) THEN [shape |-> FALSE]
            ELSE [optimal |-> LET A == Rows(e.A)  X == Rows(e.out)
                                  size == FAdd(FOne, FMul(MaxAbs(X), MaxAbs(A)))
                              IN MNear(MMT(MM(X, A), A), MMT(Rows(e.B), A), FMul(FTiny(4), FMul(FMin(size, FInt(200)), FAdd(FOne, MaxAbs(A)))))]
      [] e.op = "unique" ->       \* full rank, consistent, condition at most 10^10: there is one solution
            IF Raised(e) THEN [no_error |-> FALSE]
            ELSE IF ~IsMat(e.out, e.X0.sh[1], e.X0.sh[2]) THEN [shape |-> FALSE]
            ELSE [exact_solution |-> MNear(Rows(e.out), Rows(e.X0), FMul(FTiny(3), FAdd(FOne, MaxAbs(Rows(e.X0)))))]
      [] e.op = "non_negative_rightsolve" -> IF Raised(e) THEN [no_error |-> FALSE] ELSE RightOK(e, TRUE)
      [] e.op = "orthogonal_solve" ->
            IF Raised(e) THEN [no_error |-> FALSE]
            ELSE IF ~IsMat(e.out, e.A.sh[2], e.B.sh[2]) THEN [shape |-> FALSE]
            ELSE OrthoOK(e, Rows(e.A), Rows(e.B), 0, MT(Rows(e.out)))
      [] e.op = "orthogonal_rightsolve" ->   \* X A = B is A^T X^T = B^T
            IF Raised(e) THEN [no_error |-> FALSE]
            ELSE IF ~IsMat(e.out, e.B.sh[1], e.A.sh[1]) THEN [shape |-> FALSE]
            ELSE OrthoOK(e, MT(Rows(e.A)), MT(Rows(e.B)), 0, Rows(e.out))
      [] OTHER -> [crash |-> FALSE]

Init == l = 1 /\ st = 0
Next == /\ l <= Len(Trace)
        /\ Report(l, Verdict(Trace[l]))
        /\ Finished(l)
        /\ l' = l + 1
        /\ st' = 0
===============================================================================
