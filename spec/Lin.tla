---------------------------------- MODULE Lin ----------------------------------
(* Vectors are tuples of numbers (see Fx); a matrix is the tuple of its rows. *)
EXTENDS Fx

NRows(M) == Len(M)
NCols(M) == IF Len(M) = 0 THEN 0 ELSE Len(M[1])
MT(M) == FForce([j \in 1..NCols(M) |-> [i \in 1..Len(M) |-> M[i][j]]])
Col(M, j) == [i \in 1..Len(M) |-> M[i][j]]
ColM(M, j) == [i \in 1..Len(M) |-> <<M[i][j]>>]
MMT(A, B) == FForce([i \in 1..Len(A) |-> [j \in 1..Len(B) |-> FDot(A[i], B[j])]])     \* A B^T
MM(A, B) == MMT(A, MT(B))
Gram(A) == LET At == MT(A) IN MMT(At, At)                                        \* A^T A
MAdd(A, B) == FForce([i \in 1..Len(A) |-> FVAdd(A[i], B[i])])
MSub(A, B) == FForce([i \in 1..Len(A) |-> FVSub(A[i], B[i])])
MHad(A, B) == [i \in 1..Len(A) |-> FHad(A[i], B[i])]
MScale(c, A) == [i \in 1..Len(A) |-> FVScale(c, A[i])]
ColScale(A, w) == FForce([i \in 1..Len(A) |-> FHad(A[i], w)])                           \* A diag(w)
Ident(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN FOne ELSE FZero]]
Ones(n) == [i \in 1..n |-> FOne]
MaxAbs(A) == FMaxAbs([i \in 1..Len(A) |-> FMaxAbs(A[i])])
SqNorm(v) == FDot(v, v)
FrobSq(A) == FSum([i \in 1..Len(A) |-> FDot(A[i], A[i])])
Frob(A) == FSqrt(FrobSq(A))
Trace1(A) == FSum([i \in 1..Len(A) |-> A[i][i]])
\* squares of small numbers would lose their digits, so these are multiplied by 10^7 first
VNorm(v) == IF FLe(FTiny(2), FMaxAbs(v)) THEN FSqrt(SqNorm(v))
            ELSE FDiv(FSqrt(SqNorm([i \in DOMAIN v |-> FMul(FInt(10000000), v[i])])), FInt(10000000))
ColNorms(A) == LET At == MT(A) IN [j \in 1..Len(At) |-> VNorm(At[j])]
RECURSIVE Stack(_)
Stack(Ms) == IF Len(Ms) = 0 THEN <<>> ELSE Head(Ms) \o Stack(Tail(Ms))          \* on top of each other
Beside(A, B) == [i \in 1..Len(A) |-> A[i] \o B[i]]

(* ---- comparisons within a tolerance ---- *)
FNear(x, y, tol) == FLe(FAbs(FSub(x, y)), tol)
VNear(u, v, tol) == Len(u) = Len(v) /\ FLe(FMaxAbs(FVSub(u, v)), tol)
MNear(A, B, tol) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : VNear(A[i], B[i], tol)
\* relative to the size of the expected value (never tighter than a tolerance for size one)
RTol(k, size) == FMul(FTiny(k), FAdd(FOne, FMul(FInt(4), size)))
FClose(x, y) == FNear(x, y, RTol(9, FAbs(y)))
VClose(u, v) == VNear(u, v, RTol(9, FMaxAbs(v)))
MClose(A, B) == MNear(A, B, RTol(9, MaxAbs(B)))

(* ---- definiteness by elimination ---- *)
Schur(M) == LET n == Len(M) IN
    FForce([i \in 1..(n - 1) |-> LET f == FDiv(M[i + 1][1], M[1][1]) IN
        [j \in 1..(n - 1) |-> FSub(M[i + 1][j + 1], FMul(f, M[1][j + 1]))]])
RECURSIVE PosDef(_)
PosDef(M) == Len(M) = 0 \/ (FLt(FZero, M[1][1]) /\ PosDef(Schur(M)))
\* symmetric positive semidefinite up to eps
NearSym(M, eps) == \A i, j \in 1..Len(M) : i < j => FNear(M[i][j], M[j][i], eps)
NearPSD(M, eps) == /\ NearSym(M, eps)
                   /\ PosDef([i \in 1..Len(M) |-> [j \in 1..Len(M) |->
                         LET s == FDiv(FAdd(M[i][j], M[j][i]), FInt(2)) IN IF i = j THEN FAdd(s, eps) ELSE s]])
OrthoCols(M, eps) == MNear(Gram(M), Ident(NCols(M)), eps)

(* ---- solution of S Z = B for a symmetric positive definite S (Gauss without pivoting) ---- *)
RECURSIVE SolvePD(_, _)
SolvePD(S, B) ==
    IF Len(S) = 0 THEN <<>>
    ELSE LET n == Len(S)
             fac == FForce([i \in 1..(n - 1) |-> FDiv(S[i + 1][1], S[1][1])])
             B2 == FForce([i \in 1..(n - 1) |-> FVSub(B[i + 1], FVScale(fac[i], B[1]))])
             rest == SolvePD(Schur(S), B2)
             RECURSIVE Elim(_, _)
             Elim(j, row) == IF j > n THEN row ELSE Elim(j + 1, FVSub(row, FVScale(S[1][j], rest[j - 1])))
             top == Elim(2, B[1])
         IN <<FForce([k \in 1..Len(top) |-> FDiv(top[k], S[1][1])])>> \o rest
===============================================================================
