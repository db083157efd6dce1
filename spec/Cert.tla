---------------------------------- MODULE Cert ----------------------------------
(* Optimality certificates: conditions on a returned solution that hold exactly when it is optimal.  All
   problems are convex (or, for orthonormality, settled by the polar decomposition), so a certificate
   decides optimality without solving anything.  MC_Algebra.tla checks the certificates against brute
   force over small integer problems.

   The problem is: minimise |X A - B|^2 + lambda |X|^2 over X (p x n), for A (n x m) and B (p x m), where
   AAt = A A^T and BAt = B A^T are all that is needed.  size bounds the terms of the gradient.          *)
EXTENDS Tensor

Gradient(X, AAt, BAt, lambda) == MSub(MAdd(MM(X, AAt), MScale(lambda, X)), BAt)
GradTol(X, AAt, BAt, lambda) ==      \* the last term covers the 16 decimals that AAt is known to
    FAdd(RTol(8, FAdd(FMul(MaxAbs(X), FAdd(FMul(FInt(Len(AAt)), MaxAbs(AAt)), lambda)), MaxAbs(BAt))),
         FMul(FTiny(13), MaxAbs(X)))

\* unconstrained: the gradient vanishes
LsqOptimal(X, AAt, BAt, lambda) ==
    FLe(MaxAbs(Gradient(X, AAt, BAt, lambda)), GradTol(X, AAt, BAt, lambda))
\* non-negative: X >= 0, gradient >= 0, complementary (Karush-Kuhn-Tucker)
NonNegative(X) == \A i \in 1..Len(X) : \A j \in 1..Len(X[i]) : FLe(FZero, X[i][j])
NnlsOptimal(X, AAt, BAt, lambda) ==
    LET G == Gradient(X, AAt, BAt, lambda)
        tol == GradTol(X, AAt, BAt, lambda)
        ctol == FMul(tol, FAdd(FOne, MaxAbs(X)))
    IN /\ NonNegative(X)
       /\ \A i \in 1..Len(X) : \A j \in 1..Len(X[i]) :
            FLe(FNeg(tol), G[i][j]) /\ FLe(FAbs(FMul(X[i][j], G[i][j])), ctol)
\* X with orthonormal columns maximises <X, M> (which is what least squares asks for, |X A| being
\* constant) exactly when H = X^T M is symmetric positive semidefinite and M = X H
PolarOptimal(X, M) ==
    LET H == MM(MT(X), M)
        tol == RTol(8, MaxAbs(M))
    IN NearPSD(H, tol) /\ MNear(MM(X, H), M, tol)
OrthoTol == FTiny(8)

LsqLoss(X, A, B) == FrobSq(MSub(MM(X, A), B))
===============================================================================
