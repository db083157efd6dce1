------------------------------- MODULE MC_Algebra -------------------------------
(* The definitions and certificates that the conformance checks rest on, checked exhaustively on small
   integer instances: every state is one instance, every invariant a lemma.
   - unfolding and folding are inverse, the unfoldings of a Kruskal tensor are what the solvers use
   - a Kruskal tensor is the sum of its components and does not depend on their order, on pairs of signs
     and on where their scale is
   - what an optimality certificate accepts is not beaten by any point of a grid, and the solution found by
     elimination, respectively by trying every active set, is accepted
   - factor match scores do not change under permutations, signs and scale                               *)
EXTENDS Metrics, FiniteSets
VARIABLE t

N(x) == FInt(x)
NV(v) == [i \in DOMAIN v |-> FInt(v[i])]
NM(M) == [i \in DOMAIN M |-> NV(M[i])]
Half(x) == FDiv(FInt(x), FInt(2))
HM(M) == [i \in DOMAIN M |-> [j \in DOMAIN M[i] |-> Half(M[i][j])]]
Mats(n, m, S) == [1..n -> [1..m -> S]]

Shapes == {sh \in UNION {[1..k -> 1..3] : k \in 2..4} : Prod(sh) <= 18}
Counting(sh) == Arr(sh, [i \in 1..Prod(sh) |-> FInt(i)])

\* <<U_1, .., U_n>> with entries in S
Factors(sh, R, S) == IF Len(sh) = 2 THEN {<<a, b>> : a \in Mats(sh[1], R, S), b \in Mats(sh[2], R, S)}
                     ELSE {<<a, b, c>> : a \in Mats(sh[1], R, S), b \in Mats(sh[2], R, S), c \in Mats(sh[3], R, S)}

CONSTANT Wide
\* a first part of an instance, and the instances with that first part (two steps, so that the work is shared)
Parts == {"shape", "psd"} \X {<<>>}
    \cup {"kruskal"} \X {<<1, 1>>, <<-2, 1>>, <<0, 3>>}
    \cup {"solve"} \X Mats(1, 2, {-2, 1, 3})
    \cup {"polar"} \X [1..2 -> {-2, 0, 1, 3}]
    \cup {"score"} \X Mats(2, 2, {1, -3})
Instances(kind, part) ==
    CASE kind = "shape" -> [kind : {"shape"}, sh : Shapes]
      [] kind = "psd" -> [kind : {"psd"}, M : {<<<<a, b>>, <<b, c>>>> : a, b, c \in -2..3}]
      [] kind = "kruskal" -> [kind : {"kruskal"}, w : {part},
              U : Factors(<<2, 2>>, 2, {-1, 2}) \cup Factors(<<2, 1, 2>>, 1, {-1, 0, 2}) \cup Factors(<<1, 2, 1>>, 2, {-1, 3})]
      [] kind = "solve" -> [kind : {"solve"}, A : Mats(2, 2, IF Wide THEN {-1, 0, 2} ELSE {0, 2}) \cup {<<<<1, -1>>, <<-2, 2>>>>}, B : {part}, ridge : {0, 1}]
      [] kind = "polar" -> [kind : {"polar"}, M : {<<part, row>> : row \in [1..2 -> {-2, 0, 1, 3}]}]
      [] kind = "score" -> [kind : {"score"}, U : IF Wide THEN Factors(<<2, 2>>, 2, {-1, 2}) ELSE {<<a, <<<<1, 2>>, <<0, 3>>>>>> : a \in Mats(2, 2, {-1, 2})},
              V : {<<part, b>> : b \in {<<<<1, 2>>, <<2, -1>>>>, <<<<1, 1>>, <<0, 1>>>>}}]

(* ---- lemmas ---- *)
ShapeLemma == t.kind = "shape" =>
    LET a == Counting(t.sh) IN \A n \in DOMAIN t.sh :
        LET M == Unfold(a, n) IN
        /\ FoldData(M, n, t.sh) = a.d
        /\ Len(M) = t.sh[n] /\ NCols(M) * t.sh[n] = Prod(t.sh)
        /\ Cardinality({M[i][j] : i \in 1..Len(M), j \in 1..NCols(M)}) = Prod(t.sh)

Flip(U, n, r, c) == [U EXCEPT ![n] = [i \in DOMAIN @ |-> [@[i] EXCEPT ![r] = FMul(FInt(c), @)]]]
Shrink(w, r, c) == [w EXCEPT ![r] = FDiv(@, FInt(c))]
Swap(M) == [i \in DOMAIN M |-> [r \in DOMAIN M[i] |-> M[i][Len(M[i]) + 1 - r]]]
KruskalLemma == t.kind = "kruskal" =>
    LET U == [n \in DOMAIN t.U |-> NM(t.U[n])]
        R == NCols(U[1])
        w == [r \in 1..R |-> FInt(t.w[r])]
        d == KruskalData(w, U)
        sh == [n \in DOMAIN U |-> Len(U[n])]
    IN /\ \A n \in DOMAIN U : Unfold(Arr(sh, d), n) = MMT(ColScale(U[n], w), KRSkip(U, n))
       /\ d = (IF R = 1 THEN d ELSE FVAdd(KruskalData(<<w[1]>>, [n \in DOMAIN U |-> ColM(U[n], 1)]),
                                          KruskalData(<<w[2]>>, [n \in DOMAIN U |-> ColM(U[n], 2)])))
       /\ d = KruskalData([r \in 1..R |-> w[R + 1 - r]], [n \in DOMAIN U |-> Swap(U[n])])
       /\ \A m, n \in DOMAIN U : m # n => d = KruskalData(w, Flip(Flip(U, m, 1, -1), n, 1, -1))
       /\ \A n \in DOMAIN U : d = KruskalData(Shrink(w, 1, 2), Flip(U, n, 1, 2))
       /\ \A n \in DOMAIN U : MTTKRP(Arr(sh, d), U, n) = MM(ColScale(U[n], w), Gram(KRSkip(U, n)))

Grid == {<<Half(a), Half(b)>> : a, b \in -6..6}
Loss1(x, A, B, ridge) == FAdd(LsqLoss(<<x>>, A, B), FMul(ridge, SqNorm(x)))
\* every choice of which entries are free: the best feasible least-squares solution
Candidates(AAt, b, ridge) ==
    LET a == FAdd(AAt[1][1], ridge)  c == FAdd(AAt[2][2], ridge)
    IN {<<FZero, FZero>>}
       \cup (IF a = FZero THEN {} ELSE {<<FDiv(b[1], a), FZero>>})
       \cup (IF c = FZero THEN {} ELSE {<<FZero, FDiv(b[2], c)>>})
       \cup LET S == MAdd(AAt, MScale(ridge, Ident(2))) IN
            IF FSub(FMul(S[1][1], S[2][2]), FMul(S[1][2], S[2][1])) = FZero THEN {}
            ELSE {LET Z == SolvePD(S, <<<<b[1]>>, <<b[2]>>>>) IN <<Z[1][1], Z[2][1]>>}
SolveLemma == t.kind = "solve" =>
    LET A == NM(t.A)  B == NM(t.B)  ridge == FInt(t.ridge)
        AAt == MMT(A, A)  BAt == MMT(B, A)
        S == MAdd(AAt, MScale(ridge, Ident(2)))
        tiny == FTiny(6)
        loss == FForce([x \in Grid |-> Loss1(x, A, B, ridge)])
        nn == {x \in Grid : NonNegative(<<x>>)}
    IN /\ \A x \in {z \in Grid : LsqOptimal(<<z>>, AAt, BAt, ridge)} :
              \A y \in Grid : FLe(loss[x], FAdd(loss[y], tiny))
       /\ \A x \in {z \in nn : NnlsOptimal(<<z>>, AAt, BAt, ridge)} :
              \A y \in nn : FLe(loss[x], FAdd(loss[y], tiny))
       /\ PosDef(S) => LsqOptimal(MT(SolvePD(S, MT(BAt))), AAt, BAt, ridge)
       /\ LET feasible == {x \in Candidates(AAt, BAt[1], ridge) : NonNegative(<<x>>)}
          IN \E x \in feasible : NnlsOptimal(<<x>>, AAt, BAt, ridge)

Frac(a) == FDiv(FInt(a), FInt(5))
Rotations == {<<<<Frac(c[1]), Frac(-c[2])>>, <<Frac(c[2]), Frac(c[1])>>>> : c \in {<<5, 0>>, <<-5, 0>>, <<0, 5>>, <<0, -5>>, <<3, 4>>, <<4, 3>>, <<-3, 4>>, <<3, -4>>}}
Orthogonal == Rotations \cup {ColScale(Q, <<FOne, FNeg(FOne)>>) : Q \in Rotations}
Inner(X, M) == FSum([i \in 1..Len(X) |-> FDot(X[i], M[i])])
PolarLemma == t.kind = "polar" =>
    LET M == NM(t.M) IN
    \A X \in Orthogonal :
        /\ OrthoCols(X, OrthoTol)
        /\ PolarOptimal(X, M) => \A Y \in Orthogonal : FLe(Inner(Y, M), FAdd(Inner(X, M), FTiny(6)))
        \* the polar factor of X S is X for every positive semidefinite S
        /\ LET S == Gram(M) IN PolarOptimal(X, MM(X, S))

PsdLemma == t.kind = "psd" =>
    LET a == t.M[1][1]  b == t.M[1][2]  c == t.M[2][2]
    IN NearPSD(NM(t.M), FTiny(8)) <=> (a >= 0 /\ c >= 0 /\ a * c - b * b >= 0)

Permuted(V) == [n \in DOMAIN V |-> Swap(V[n])]
ScoreLemma == t.kind = "score" =>
    LET U == [n \in DOMAIN t.U |-> NM(t.U[n])]
        V == [n \in DOMAIN t.V |-> NM(t.V[n])]
        one == Ones(2)
        score(P, Q, w, v, counted, how) == BestScore(Similarity(P, Q, w, v, counted), how)
        same(x, y) == FNear(x, y, FTiny(10))
    IN \A how \in {"min", "mean"} : \A counted \in BOOLEAN :
        LET s == score(U, V, one, one, counted, how) IN
        /\ FLe(FNeg(FTiny(10)), s) /\ FLe(s, FAdd(FOne, FTiny(10)))
        /\ same(s, score(V, U, one, one, counted, how))
        /\ same(s, score(U, Permuted(V), one, one, counted, how))
        /\ same(s, score(U, Flip(V, 1, 2, -1), one, one, counted, how))
        /\ same(s, score(U, Flip(V, 2, 1, 4), one, Shrink(one, 1, 4), counted, how))
        /\ (~counted => same(s, score(U, Flip(V, 2, 1, 4), one, one, counted, how)))
        /\ same(score(U, Permuted(U), one, one, counted, how), FOne)
        /\ LET C == Similarity(U, V, one, one, counted)
               T == FForce([r \in 1..3 |-> [q \in 1..4 |-> FMul(C[1 + ((r + q) % 2)][1 + (q % 2)], FDiv(FOne, FInt(1 + ((3*r + 5*q) % 7))))]])
           IN same(s, BestLayered(C, how)) /\ same(BestScore(T, how), BestLayered(T, how))

Init == t = [kind |-> "root"]
Next == \/ t.kind = "root" /\ \E p \in Parts : t' = [kind |-> "part", of |-> p]
        \/ t.kind = "part" /\ t' \in Instances(t.of[1], t.of[2])
===============================================================================
