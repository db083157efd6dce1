----------------------------------- MODULE ALS -----------------------------------
(* What one alternating least squares iteration is: the modes are taken in order and each factor is
   replaced by an optimal one given the current others.  A model state is a record
     U  factor matrices,  w  weights,  V  own factors of the coupled matrices (none for plain CP),
   and a problem is a record
     X  the tensor (Arr),  Y  coupled matrices,  at  their modes,
     nn, orth  constraint of every mode,  ridge  penalty of every mode.
   The next state is characterised, not computed: Optimal holds for exactly the allowed results.       *)
EXTENDS Cert

NModes(p) == Len(p.X.sh)
CoupledTo(p, n) == {c \in DOMAIN p.at : p.at[c] = n}
RECURSIVE MSum(_, _, _)
\* M plus the sum of f(c) over the set S
MSum(S, f(_), M) == IF S = {} THEN M ELSE LET c == CHOOSE x \in S : TRUE IN MSum(S \ {c}, f, MAdd(M, f(c)))

\* factors while mode n is being updated: the modes before it are new already
Mixed(old, new, n) == FForce([k \in DOMAIN old |-> IF k < n THEN new[k] ELSE old[k]])

(* normal equations of mode n, for given other factors Us, weights w on the tensor, and own factors V *)
AAt(p, Us, w, V, n) == LET K == ColScale(KRSkip(Us, n), w)
                       IN MSum(CoupledTo(p, n), LAMBDA c : Gram(V[c]), Gram(K))
BAt(p, Us, w, V, n) == LET K == ColScale(KRSkip(Us, n), w)
                       IN MSum(CoupledTo(p, n), LAMBDA c : MM(p.Y[c], V[c]), MM(Unfold(p.X, n), K))

\* F is an optimal factor of mode n
Optimal(p, F, n, aat, bat) ==
    IF p.orth[n] THEN OrthoCols(F, OrthoTol) /\ PolarOptimal(F, bat)
    ELSE IF p.nn[n] THEN NnlsOptimal(F, aat, bat, p.ridge[n])
    ELSE LsqOptimal(F, aat, bat, p.ridge[n])
OwnOptimal(p, F, c, U) == IF p.nn[p.at[c]] THEN NnlsOptimal(F, Gram(U), MM(MT(p.Y[c]), U), FZero)
                          ELSE LsqOptimal(F, Gram(U), MM(MT(p.Y[c]), U), FZero)

(* The iteration from s to t.  Weights other than one are multiplied into the factor of one mode m first
   (there is a free choice of m): until that factor is replaced they count, afterwards they are gone.  The
   weights are on the tensor only, so the own factors of matrices coupled to m are divided by them.      *)
UnitWeights(s) == \A r \in DOMAIN s.w : s.w[r] = FOne
Unweigh(V, w) == [j \in DOMAIN V |-> [r \in DOMAIN w |-> IF w[r] = FZero THEN V[j][r] ELSE FDiv(V[j][r], w[r])]]
OwnBefore(p, s, m) == IF UnitWeights(s) THEN s.V
    ELSE FForce([c \in DOMAIN s.V |-> IF p.at[c] = m THEN Unweigh(s.V[c], s.w) ELSE s.V[c]])
ModeOptimal(p, s, t, n, m) ==
    LET Us == Mixed(s.U, t.U, n)
        w == IF n < m THEN s.w ELSE Ones(Len(s.w))
        V == OwnBefore(p, s, m)
    IN Optimal(p, t.U[n], n, AAt(p, Us, w, V, n), BAt(p, Us, w, V, n))
Absorbers(s) == IF UnitWeights(s) THEN {1} ELSE DOMAIN s.U
IterationOptimal(p, s, t) ==
    \E m \in Absorbers(s) : \A n \in DOMAIN s.U : ModeOptimal(p, s, t, n, m)

(* ---- losses ---- *)
RECURSIVE RidgeTerms(_, _, _)
RidgeTerms(ridge, Us, n) == IF n = 0 THEN FZero
    ELSE FAdd(RidgeTerms(ridge, Us, n - 1), IF ridge[n] = FZero THEN FZero ELSE FMul(ridge[n], FrobSq(Us[n])))
TensorSSE(X, w, Us) == LET d == FVSub(X.d, KruskalData(w, Us)) IN SqNorm(d)
RECURSIVE CoupledSSE(_, _, _)
CoupledSSE(p, s, c) == IF c = 0 THEN FZero
    ELSE FAdd(CoupledSSE(p, s, c - 1), FrobSq(MSub(p.Y[c], MMT(s.U[p.at[c]], s.V[c]))))
SSEOf(p, s) == FAdd(TensorSSE(p.X, s.w, s.U), CoupledSSE(p, s, Len(p.at)))
LossOf(p, s) == FAdd(SSEOf(p, s), RidgeTerms(p.ridge, s.U, Len(s.U)))
RECURSIVE DataSq(_, _)
DataSq(p, c) == IF c = 0 THEN SqNorm(p.X.d) ELSE FAdd(DataSq(p, c - 1), FrobSq(p.Y[c]))
LossTol(p, loss) == RTol(9, FAdd(DataSq(p, Len(p.at)), loss))
NotRising(p, s, t) == LET a == LossOf(p, s) IN FLe(LossOf(p, t), FAdd(a, LossTol(p, a)))

Feasible(p, t) == \A n \in DOMAIN t.U : (p.orth[n] => OrthoCols(t.U[n], OrthoTol)) /\ (p.nn[n] => NonNegative(t.U[n]))

(* ---- the unconstrained iteration, computed (the minimiser is unique for positive definite systems) ---- *)
NewFactor(p, Us, n) ==
    LET K == KRSkip(Us, n)
        S == LET G == Gram(K) IN [i \in 1..Len(G) |-> [j \in 1..Len(G) |-> IF i = j THEN FAdd(G[i][j], p.ridge[n]) ELSE G[i][j]]]
    IN MT(SolvePD(S, MT(MM(Unfold(p.X, n), K))))
RECURSIVE Sweep(_, _, _)
Sweep(p, Us, n) == IF n > Len(Us) THEN Us ELSE Sweep(p, FForce([Us EXCEPT ![n] = NewFactor(p, Us, n)]), n + 1)
RECURSIVE Sweeps(_, _, _)
Sweeps(p, Us, k) == IF k = 0 THEN Us ELSE Sweeps(p, Sweep(p, Us, 1), k - 1)

(* ---- PARAFAC2: X is a list of slices; the state has A, B (blueprint), C and the projections P ---- *)
ProjectionTarget(Xk, A, B, ck) == MM(MT(Xk), MMT(ColScale(A, ck), B))
ProjectedData(Xs, P) ==     \* I x R x K, data in C order
    LET K == Len(Xs)  I == Len(Xs[1])  R == NCols(P[1])
        Z == FForce([k \in 1..K |-> MM(Xs[k], P[k])])
    IN Arr(<<I, R, K>>, FForce([q \in 1..(I * R * K) |->
         LET k == ((q - 1) % K) + 1  r == (((q - 1) \div K) % R) + 1  i == ((q - 1) \div (R * K)) + 1 IN Z[k][i][r]]))
RECURSIVE SlicesSSE(_, _, _, _, _, _)
SlicesSSE(Xs, A, B, C, P, k) == IF k = 0 THEN FZero
    ELSE FAdd(SlicesSSE(Xs, A, B, C, P, k - 1), FrobSq(MSub(Xs[k], SliceOf(A, MM(P[k], B), C[k]))))
RECURSIVE SlicesSq(_, _)
SlicesSq(Xs, k) == IF k = 0 THEN FZero ELSE FAdd(SlicesSq(Xs, k - 1), FrobSq(Xs[k]))
==================================================================================
