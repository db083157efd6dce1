---------------------------------- MODULE Losses ----------------------------------
(* Sums of squared errors of the three kinds of models, and how well rounding lets them be known.
   A problem p holds the data, a state t the decomposition (ALS.tla); for PARAFAC2 t.U is
   <<A, blueprint, C>> and t.V the projections.                                                       *)
EXTENDS ALS

SSE(p, t) == IF p.kind = "pf2" THEN SlicesSSE(p.slices, t.U[1], t.U[2], t.U[3], t.V, Len(p.slices)) ELSE SSEOf(p, t)
TensorSq(p) == IF p.kind = "pf2" THEN SlicesSq(p.slices, Len(p.slices)) ELSE SqNorm(p.X.d)
AllSq(p) == IF p.kind = "pf2" THEN TensorSq(p) ELSE DataSq(p, Len(p.at))
Elements(p) == IF p.kind = "pf2" THEN ISum([k \in DOMAIN p.slices |-> Len(p.slices[k]) * NCols(p.slices[k])])
               ELSE Len(p.X.d) + ISum([c \in DOMAIN p.at |-> Len(p.Y[c]) * NCols(p.Y[c])])
Penalty(p, t) == RidgeTerms(p.ridge, t.U, Len(t.U))

\* how well rounding lets a sum of squares of residuals be known, for data and model of squared norm `size`
SumTol(sse, size, n) == FAdd(FAdd(FMul(FTiny(9), sse), FMul(FTiny(11), FMul(FSqrt(size), FSqrt(sse)))),
                             FAdd(FMul(FTiny(15), n), FTiny(13)))
ModelSq(p, t) == FAdd(AllSq(p), SSE(p, t))
===================================================================================
