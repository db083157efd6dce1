---------------------------------- MODULE Metrics ----------------------------------
(* What the scores and diagnostics mean: factor match scores (a maximum over assignments of estimated to
   true components), sign scores, core consistency, leverage and the other ratios.                      *)
EXTENDS Cert, FiniteSets

RECURSIVE FProd(_)
FProd(v) == IF Len(v) = 0 THEN FOne ELSE FMul(v[1], FProd(Tail(v)))
Range(f) == {f[x] : x \in DOMAIN f}
Min2(x, y) == FMin(x, y)

(* ---- factor match scores ---- *)
Unit(A) == LET N == ColNorms(A) IN FForce([i \in 1..Len(A) |-> [r \in 1..Len(N) |-> FDiv(A[i][r], N[r])]])
\* |cosines| of all pairs of columns
AbsCos(A, B) == LET G == MM(MT(Unit(A)), Unit(B)) IN FForce([r \in 1..Len(G) |-> [s \in 1..Len(G[r]) |-> FAbs(G[r][s])]])
\* size of each component: the product of its column norms
RECURSIVE Sizes2(_, _)
Sizes2(Us, w) == IF Len(Us) = 0 THEN [r \in DOMAIN w |-> FAbs(w[r])] ELSE Sizes2(Tail(Us), FHad(w, ColNorms(Head(Us))))
WeightTerm(x, y) == FSub(FOne, FDiv(FAbs(FSub(x, y)), FMax(x, y)))
\* similarity of true component r and estimated component s
RECURSIVE HadAll(_, _)
HadAll(Ms, k) == IF k = 1 THEN Ms[1] ELSE MHad(HadAll(Ms, k - 1), Ms[k])
Similarity(Us, Vs, w, v, counted) ==
    LET C == FForce(HadAll([n \in DOMAIN Us |-> AbsCos(Us[n], Vs[n])], Len(Us)))
        a == Sizes2(Us, w)  b == Sizes2(Vs, v)
    IN IF ~counted THEN C
       ELSE FForce([r \in DOMAIN C |-> [s \in DOMAIN C[r] |-> FMul(C[r][s], WeightTerm(a[r], b[s]))]])
\* all ways to give each true component a different estimated one
Assignments(R, E) == {p \in [1..R -> 1..E] : \A i, j \in 1..R : i # j => p[i] # p[j]}
Scores(S, p) == [r \in DOMAIN S |-> S[r][p[r]]]
RECURSIVE MinOf(_)
MinOf(v) == IF Len(v) = 1 THEN v[1] ELSE FMin(v[1], MinOf(Tail(v)))
Reduce(v, how) == IF how = "min" THEN MinOf(v) ELSE FDiv(FSum(v), FInt(Len(v)))
BestScore(S, how) ==
    LET all == {Reduce(Scores(S, p), how) : p \in Assignments(Len(S), Len(S[1]))}
    IN CHOOSE x \in all : \A y \in all : FLe(y, x)
\* the same for more components, one at a time: the best score of the first r true components when they are given
\* the estimated components in A (MC_Algebra compares the two)
RECURSIVE BestOf(_, _, _)
BestOf(S, r, how) ==
    LET sets == {A \in SUBSET (1..Len(S[1])) : Cardinality(A) = r}
        with(x, y) == IF how = "min" THEN FMin(x, y) ELSE FAdd(x, y)
    IN IF r = 1 THEN FForce([A \in sets |-> S[1][CHOOSE s \in A : TRUE]])
       ELSE LET before == BestOf(S, r - 1, how) IN
            FForce([A \in sets |-> LET all == {with(before[A \ {s}], S[r][s]) : s \in A} IN CHOOSE x \in all : \A y \in all : FLe(y, x)])
BestLayered(S, how) ==
    LET f == BestOf(S, Len(S), how)
        all == {f[A] : A \in DOMAIN f}
        best == CHOOSE x \in all : \A y \in all : FLe(y, x)
    IN IF how = "min" THEN best ELSE FDiv(best, FInt(Len(S)))
BestAssignment(S, how) == IF Len(S[1]) <= 5 THEN BestScore(S, how) ELSE BestLayered(S, how)

(* ---- signs ---- *)
SignedSq(x) == IF FSign(x) = -1 THEN FNeg(FSq(x)) ELSE FSq(x)
\* least-squares coefficients of the columns of M in the columns of F (of full column rank)
Coefficients(F, M) == SolvePD(Gram(F), MM(MT(F), M))
SignScores(F, M) == LET Z == Coefficients(F, M) IN [r \in 1..Len(Z) |-> FSum([j \in DOMAIN Z[r] |-> SignedSq(Z[r][j])])]

(* ---- diagnostics ---- *)
PInv(F) == SolvePD(Gram(F), MT(F))
\* least-squares core of a third-order tensor, as data of an R x R x R tensor
Core(X, A, B, C) ==
    LET R == NCols(A)
        one == FoldData(MM(PInv(A), Unfold(X, 1)), 1, <<R, X.sh[2], X.sh[3]>>)
        two == FoldData(MM(PInv(B), Unfold(Arr(<<R, X.sh[2], X.sh[3]>>, one), 2)), 2, <<R, R, X.sh[3]>>)
    IN FoldData(MM(PInv(C), Unfold(Arr(<<R, R, X.sh[3]>>, two), 3)), 3, <<R, R, R>>)
Superdiagonal(R) == [q \in 1..(R * R * R) |-> LET i == (q - 1) \div (R * R)  j == ((q - 1) \div R) % R  k == (q - 1) % R
                                              IN IF i = j /\ j = k THEN FOne ELSE FZero]
\* scale is shared evenly by the modes; root[r] is the cube root of the size of component r
CoreConsistency(X, A, B, C, root, normalized) ==
    LET F(M) == ColScale(Unit(M), root)
        G == FForce(Core(X, F(A), F(B), F(C)))
        R == NCols(A)
        dist == SqNorm(FVSub(G, Superdiagonal(R)))
        denom == IF normalized THEN SqNorm(G) ELSE FInt(R)
    IN [value |-> FMul(FInt(100), FSub(FOne, FDiv(dist, denom))), core |-> G]
Leverage(F) == LET H == MM(F, PInv(F)) IN [i \in 1..Len(F) |-> H[i][i]]
Degeneracy(Us) == HadAll([n \in DOMAIN Us |-> LET N == Unit(Us[n]) IN Gram(N)], Len(Us))
===============================================================================
