------------------------------ MODULE Conf_Measures ------------------------------
(* The measures a model reports (C11) and the views it gives of its decomposition (C26) against their
   definitions.  The state st is what the model is about: its kind, its data and its penalties; a `read`
   event carries the decomposition at that moment and the values that were read, either as properties or
   by a logger during an iteration, and a `views` event everything that shows the decomposition.          *)
EXTENDS TraceBase, Losses

Data(e) == FForce([kind |-> e.kind, X |-> e.X, Y |-> RowsAll(e.Y), at |-> e.at, ridge |-> e.ridge, slices |-> RowsAll(e.slices)])
StateOK(q) == Valid(q.w) /\ AllMats(q.U) /\ AllMats(q.V)
State(q) == [w |-> q.w.d, U |-> RowsAll(q.U), V |-> RowsAll(q.V)]

Fits(p, t) ==       \* the decomposition has the shape of the data
    IF p.kind = "pf2"
    THEN /\ Len(t.U) = 3 /\ Len(t.V) = Len(p.slices) /\ Len(t.U[1]) = Len(p.slices[1]) /\ Len(t.U[3]) = Len(p.slices)
         /\ \A k \in DOMAIN t.V : Len(t.V[k]) = NCols(p.slices[k]) /\ NCols(t.V[k]) = NCols(t.U[1])
    ELSE /\ Len(t.U) = NModes(p) /\ \A n \in DOMAIN t.U : Len(t.U[n]) = p.X.sh[n]
         /\ Len(t.V) = Len(p.at) /\ \A c \in DOMAIN t.V : Len(t.V[c]) = NCols(p.Y[c])
Near(a, x, tol) == Valid(a) /\ a.sh = <<>> /\ FNear(a.d[1], x, tol) /\ FLe(FZero, a.d[1])
RootTol(x, tol) == IF FLe(x, tol) THEN FSqrt(FMul(FInt(4), tol)) ELSE FAdd(FTiny(13), FDiv(tol, FSqrt(x)))

ReadOK(p, e) ==
    LET t == State(e.state)
        n == FInt(Elements(p))
        sse == SSE(p, t)
        size == FMul(FInt(4), ModelSq(p, t))
        tol == SumTol(sse, size, n)
        mse == FDiv(sse, n)
        mtol == FAdd(FDiv(tol, n), FTiny(14))
        loss == FAdd(sse, Penalty(p, t))
    IN IF ~Fits(p, t) THEN [model_fits_the_data |-> FALSE]
       ELSE [no_error |-> ~Raised(e),
             SSE |-> Has(e.vals, "SSE") => Near(e.vals.SSE, sse, tol),
             MSE |-> Has(e.vals, "MSE") => Near(e.vals.MSE, mse, mtol),
             RMSE |-> Has(e.vals, "RMSE") => Near(e.vals.RMSE, FSqrt(mse), RootTol(mse, mtol)),
             loss |-> Has(e.vals, "loss") => Near(e.vals.loss, loss, FAdd(tol, FMul(FTiny(9), loss))),
             explained_variance |-> (p.kind # "cmtf" /\ Has(e.vals, "explained_variance")) =>
                 LET x == e.vals.explained_variance IN
                 Valid(x) /\ x.sh = <<>> /\ FNear(x.d[1], FSub(FOne, FDiv(sse, TensorSq(p))), FAdd(FTiny(12), FDiv(tol, TensorSq(p)))),
             coupled_SSE |-> Has(e.vals, "coupled_factor_matrices_SSE") => Near(e.vals.coupled_factor_matrices_SSE, CoupledSSE(p, t, Len(p.at)), tol)]

\* tensors too large to be written down: the measures agree with each other
ManyOK(e) == LET v == e.vals  sse == v.SSE.d[1]  mse == v.MSE.d[1] IN
    [numbers |-> \A m \in {"SSE", "MSE", "RMSE", "loss"} : Valid(v[m]) /\ v[m].sh = <<>> /\ FLe(FZero, v[m].d[1]),
     MSE |-> Valid(v.SSE) /\ Valid(v.MSE) /\ FNear(FMul(mse, FInt(e.n)), sse, RTol(9, sse)),
     RMSE |-> Valid(v.RMSE) /\ Valid(v.MSE) /\ FNear(FMul(v.RMSE.d[1], v.RMSE.d[1]), mse, RTol(9, mse)),
     loss |-> Valid(v.SSE) /\ Valid(v.loss) /\ FNear(v.loss.d[1], sse, RTol(9, sse))]

(* ---- C26 ---- *)
EvolvingOf(t) == [k \in DOMAIN t.V |-> MM(t.V[k], t.U[2])]
Pf2ViewsOK(p, q, t, e) ==
    LET B == EvolvingOf(t)  K == Len(t.V)  I == Len(t.U[1])  R == NCols(t.U[1])
        k == e.at[1]  i == e.at[2]  j == e.at[3]
        P == [n \in 1..K |-> MM(p.slices[n], t.V[n])]
        AllB(as) == Len(as) = K /\ \A n \in DOMAIN as : SameMat(as[n], B[n])
    IN [reconstructed_slices |-> Len(e.reconstructed) = K /\ \A n \in 1..K :
                SameMat(e.reconstructed[n], SliceOf(t.U[1], B[n], t.U[3][n])),
        indexed |-> /\ Len(e.indexed) = K + 2 /\ e.indexed[1] = q.U[1] /\ e.indexed[K + 2] = q.U[3]
                    /\ \A n \in 1..K : SameMat(e.indexed[n + 1], B[n]),
        listed |-> AllB(e.listed), iterated |-> AllB(e.iterated), length |-> e.length = K, rank |-> e.rank = R,
        row |-> SameVec(e.row, B[k][i]), column |-> SameVec(e.column, Col(B[k], j)), entry |-> SameNum(e.entry, B[k][i][j]),
        diagonals |-> SameArr(e.diagonals, <<R, K, K>>, [x \in 1..(R * K * K) |->
                          LET a == (((x - 1) \div K) % K) + 1 IN
                          IF a = ((x - 1) % K) + 1 THEN t.U[3][a][((x - 1) \div (K * K)) + 1] ELSE FZero]),
        projected_data |-> /\ Valid(e.projected) /\ e.projected.sh = <<I, R, K>>
                           /\ VClose(e.projected.d, [x \in 1..(I * R * K) |->
                                  P[((x - 1) % K) + 1][((x - 1) \div (R * K)) + 1][(((x - 1) \div K) % R) + 1]])]
KruskalViewsOK(p, q, t, e) ==
    [reconstructed_tensor |-> Len(e.reconstructed) = 1 /\ SameArr(e.reconstructed[1], p.X.sh, KruskalData(t.w, t.U)),
     factors |-> e.factors = q.U, weights |-> e.weights = q.w, indexed |-> e.indexed = q.U, last |-> e.from_end = q.U[Len(q.U)],
     rank |-> e.rank = Len(t.w),
     shared_factors |-> (p.kind = "cmtf") => (e.shared = [c \in DOMAIN p.at |-> q.U[p.at[c]]]),
     matrices |-> (p.kind = "cmtf") => (/\ Len(e.matrices) = Len(p.at)
                                        /\ \A c \in DOMAIN p.at : SameMat(e.matrices[c], MMT(t.U[p.at[c]], t.V[c])))]
ViewsOK(p, e) == LET t == State(e.state) IN
    IF ~Fits(p, t) THEN [model_fits_the_data |-> FALSE]
    ELSE IF Raised(e) THEN [no_error |-> FALSE]
    ELSE IF p.kind = "pf2" THEN Pf2ViewsOK(p, e.state, t, e) ELSE KruskalViewsOK(p, e.state, t, e)
ReturnedOK(p, e) ==
    [no_error |-> ~Raised(e),
     decomposition |-> ~Raised(e) => (e.parts = (IF p.kind = "pf2" THEN e.state.U \o e.state.V ELSE e.state.U) /\ e.weights = e.state.w),
     pairs |-> (~Raised(e) /\ p.kind = "cmtf") => (e.pairs = [c \in DOMAIN p.at |-> <<e.state.U[p.at[c]], e.state.V[c]>>])]

Verdict(e, s) ==
    CASE e.op = "data" -> [valid |-> e.kind \in {"cp", "pf2", "cmtf"}]
      [] e.op = "read" -> IF ~StateOK(e.state) THEN [numbers |-> FALSE] ELSE ReadOK(s, e)
      [] e.op = "views" -> IF ~StateOK(e.state) THEN [numbers |-> FALSE] ELSE ViewsOK(s, e)
      [] e.op = "returned" -> ReturnedOK(s, e)
      [] e.op = "many" -> ManyOK(e)
      [] e.op = "call" -> [no_error |-> ~Raised(e)]
      [] OTHER -> [crash |-> FALSE]
Post(e, s) == IF e.op = "data" THEN Data(e) ELSE s
Init == l = 1 /\ st = 0
Next == /\ l <= Len(Trace)
        /\ Report(l, Verdict(Trace[l], st))
        /\ Finished(l)
        /\ l' = l + 1
        /\ st' = Post(Trace[l], st)
===============================================================================
