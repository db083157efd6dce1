--------------------------------- MODULE Tensor ---------------------------------
(* Arrays as recorded from the implementation: [ok, sh, d] with the shape sh and the entries d in C order
   (the last index varies fastest); ok is FALSE when an entry was not a finite number.  Modes are counted
   from 1.  Everything the library computes with tensors is defined here by its textbook definition.   *)
EXTENDS Lin

RECURSIVE Prod(_)
Prod(s) == IF Len(s) = 0 THEN 1 ELSE s[1] * Prod(Tail(s))
RECURSIVE ISum(_)
ISum(s) == IF Len(s) = 0 THEN 0 ELSE s[1] + ISum(Tail(s))
Without(s, n) == SubSeq(s, 1, n - 1) \o SubSeq(s, n + 1, Len(s))

Arr(sh, d) == [ok |-> TRUE, sh |-> sh, d |-> d]
Valid(a) == a.ok /\ Len(a.d) = Prod(a.sh)
IsMat(a, n, m) == Valid(a) /\ a.sh = <<n, m>>
Rows(a) == LET m == a.sh[2] IN FForce([i \in 1..a.sh[1] |-> SubSeq(a.d, (i - 1) * m + 1, i * m)])
RECURSIVE Flat(_)
Flat(M) == IF Len(M) = 0 THEN <<>>
           ELSE IF Len(M) = 1 THEN M[1]
           ELSE LET h == Len(M) \div 2 IN Flat(SubSeq(M, 1, h)) \o Flat(SubSeq(M, h + 1, Len(M)))
MatArr(M) == Arr(<<Len(M), NCols(M)>>, Flat(M))

\* entry (l, k, r) for mode n: l counts the indices before, r those after mode n
Unfold(a, n) ==
    LET L == Prod(SubSeq(a.sh, 1, n - 1))
        N == a.sh[n]
        R == Prod(SubSeq(a.sh, n + 1, Len(a.sh)))
    IN FForce([k \in 1..N |-> [c \in 1..(L * R) |->
           LET l == (c - 1) \div R  r == (c - 1) % R IN a.d[(l * N + k - 1) * R + r + 1]]])
\* the data (in C order) of the tensor with shape sh whose mode-n unfolding is M
FoldData(M, n, sh) ==
    LET N == sh[n]
        R == Prod(SubSeq(sh, n + 1, Len(sh)))
    IN [p \in 1..Prod(sh) |->
           LET r == (p - 1) % R  k == ((p - 1) \div R) % N  l == (p - 1) \div (R * N) IN M[k + 1][l * R + r + 1]]

KR2(A, B) == LET J == Len(B) IN FForce([p \in 1..(Len(A) * J) |-> FHad(A[((p - 1) \div J) + 1], B[((p - 1) % J) + 1])])
RECURSIVE KR(_)
KR(Us) == IF Len(Us) = 1 THEN Us[1] ELSE KR2(KR(SubSeq(Us, 1, Len(Us) - 1)), Us[Len(Us)])
KRSkip(Us, n) == KR(Without(Us, n))
Kron2(A, B) == LET p == Len(B)  q == NCols(B) IN
    [i \in 1..(Len(A) * p) |-> [j \in 1..(NCols(A) * q) |->
        FMul(A[((i - 1) \div p) + 1][((j - 1) \div q) + 1], B[((i - 1) % p) + 1][((j - 1) % q) + 1])]]
RECURSIVE KronAll(_)
KronAll(Ms) == IF Len(Ms) = 1 THEN Ms[1] ELSE Kron2(KronAll(SubSeq(Ms, 1, Len(Ms) - 1)), Ms[Len(Ms)])
MTTKRP(a, Us, n) == MM(Unfold(a, n), KRSkip(Us, n))

(* ---- what decompositions represent ---- *)
\* entry (i_1, .., i_n) is the sum over r of w_r U_1[i_1, r] .. U_n[i_n, r]
KruskalData(w, Us) == LET K == KR(Us) IN FForce([p \in 1..Len(K) |-> FDot(w, K[p])])
SliceOf(A, Bk, ck) == MMT(ColScale(A, ck), Bk)
\* zero padded stack of frontal slices, data of an I x max J_k x K tensor
PaddedData(slices, I, J) == LET K == Len(slices) IN
    [p \in 1..(I * J * K) |->
        LET k == ((p - 1) % K) + 1  j == (((p - 1) \div K) % J) + 1  i == ((p - 1) \div (J * K)) + 1
        IN IF j <= NCols(slices[k]) THEN slices[k][i][j] ELSE FZero]

(* ---- comparisons of a recorded array with an expected one ---- *)
SameArr(a, sh, d) == Valid(a) /\ a.sh = sh /\ VClose(a.d, d)
SameMat(a, M) == Valid(a) /\ a.sh = <<Len(M), NCols(M)>> /\ MClose(Rows(a), M)
SameNum(a, x) == Valid(a) /\ a.sh = <<>> /\ FClose(a.d[1], x)
SameVec(a, v) == Valid(a) /\ a.sh = <<Len(v)>> /\ VClose(a.d, v)
Num(a) == a.d[1]
AllValid(as) == \A i \in DOMAIN as : Valid(as[i])
AllMats(as) == \A i \in DOMAIN as : Valid(as[i]) /\ Len(as[i].sh) = 2
RowsAll(as) == FForce([i \in DOMAIN as |-> Rows(as[i])])
===============================================================================
