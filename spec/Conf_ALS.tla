-------------------------------- MODULE Conf_ALS --------------------------------
(* Conformance of the fitting algorithms (C07-C10): every iteration of the real code, recorded as the model
   state before and after it, must be a step allowed by ALS.tla.                                         *)
EXTENDS TraceBase, ALS

Problem(e) == [X |-> e.X, Y |-> RowsAll(e.Y), at |-> e.at, nn |-> e.nn, orth |-> e.orth, ridge |-> e.ridge]
StateOK(s) == Valid(s.w) /\ AllMats(s.U) /\ AllMats(s.V)
State(s) == [w |-> s.w.d, U |-> RowsAll(s.U), V |-> RowsAll(s.V)]
ShapesOK(p, t) == /\ Len(t.U) = NModes(p) /\ \A n \in DOMAIN t.U : Len(t.U[n]) = p.X.sh[n] /\ NCols(t.U[n]) = Len(t.w)
                  /\ Len(t.V) = Len(p.at) /\ \A c \in DOMAIN t.V : Len(t.V[c]) = NCols(p.Y[c]) /\ NCols(t.V[c]) = Len(t.w)

\* a penalty on some modes only is paid in the others, whose entries grow without bound; beyond this size
\* the 16 decimals that the events carry say nothing about optimality (the loss is still checked)
ModerateM(U) == FLe(MaxAbs(U), FInt(1000000))
Moderate(s) == \A n \in DOMAIN s.U : ModerateM(s.U[n])

\* one iteration of CP or CMTF
IterationOK(e) ==
    LET p == Problem(e)  s == State(e.before)  t == State(e.after)
    IN IF ~ShapesOK(p, t) THEN [shapes |-> FALSE]
       ELSE [optimal |-> (~e.certify) \/ ~Moderate(s) \/ ~Moderate(t) \/ IterationOptimal(p, s, t),
             last_mode_optimal |-> ~Moderate(t) \/ CoupledTo(p, NModes(p)) # {} \/ ModeOptimal(p, t, t, NModes(p), 1),
             own_factors_optimal |-> \A c \in DOMAIN p.at : ~ModerateM(t.U[p.at[c]]) \/ OwnOptimal(p, t.V[c], c, t.U[p.at[c]]),
             feasible |-> Feasible(p, t),
             unit_weights |-> UnitWeights(t),
             loss_never_rises |-> (~e.monotone) \/ NotRising(p, s, t)]
\* what a call returns compared with the state after its last iteration (CP: the same; CMTF: rescaled)
ReturnOK(e) ==
    LET p == Problem(e)  s == State(e.before)  t == State(e.after)
    IN IF ~ShapesOK(p, t) THEN [shapes |-> FALSE]
       ELSE [same_tensor |-> ~Moderate(s) \/ VClose(KruskalData(t.w, t.U), KruskalData(s.w, s.U)),
             same_matrices |-> ~Moderate(s) \/ \A c \in DOMAIN p.at : MClose(MMT(t.U[p.at[c]], t.V[c]), MMT(s.U[p.at[c]], s.V[c])),
             unit_columns |-> \A c \in DOMAIN p.at : LET U == t.U[p.at[c]] IN
                 \A r \in 1..NCols(U) : FNear(SqNorm(Col(U, r)), FOne, FTiny(8)) \/ MaxAbs(ColM(U, r)) = FZero,
             feasible |-> \A n \in DOMAIN t.U : p.nn[n] => NonNegative(t.U[n]),
             pairs |-> Len(e.pairs) = Len(p.at) /\ \A c \in DOMAIN e.pairs :
                 Len(e.pairs[c]) = 2 /\ SameMat(e.pairs[c][1], t.U[p.at[c]]) /\ SameMat(e.pairs[c][2], t.V[c]),
             reconstructions |-> Len(e.Yhat) = Len(p.at)
                 /\ \A c \in DOMAIN e.Yhat : SameMat(e.Yhat[c], MMT(t.U[p.at[c]], t.V[c]))]

\* PARAFAC2
PfStateOK(s) == Valid(s.A) /\ Valid(s.B) /\ Valid(s.C) /\ AllMats(s.P)
PfLoss(e, Xs, A, B, C, P) == FAdd(SlicesSSE(Xs, A, B, C, P, Len(Xs)), RidgeTerms(e.ridge, <<A, B, C>>, 3))
PfOK(e) ==
    LET Xs == RowsAll(e.slices)
        A == Rows(e.before.A)  B == Rows(e.before.B)  C == Rows(e.before.C)  P == RowsAll(e.before.P)
        A2 == Rows(e.after.A)  B2 == Rows(e.after.B)  C2 == Rows(e.after.C)  P2 == RowsAll(e.after.P)
        R == NCols(A)
    IN IF ~(/\ Len(P2) = Len(Xs) /\ \A k \in DOMAIN P2 : Len(P2[k]) = NCols(Xs[k]) /\ NCols(P2[k]) = R
            /\ e.after.A.sh = e.before.A.sh /\ e.after.B.sh = <<R, R>> /\ e.after.C.sh = e.before.C.sh)
       THEN [shapes |-> FALSE]
       ELSE LET p == [X |-> ProjectedData(Xs, P2), Y |-> <<>>, at |-> <<>>, nn |-> e.nn, orth |-> e.orth, ridge |-> e.ridge]
                s == [w |-> Ones(R), U |-> <<A, B, C>>, V |-> <<>>]
                t == [w |-> Ones(R), U |-> <<A2, B2, C2>>, V |-> <<>>]
                before == PfLoss(e, Xs, A, B, C, P)
                free == \A n \in 1..3 : ~e.nn[n] /\ ~e.orth[n]
            IN [orthonormal_projections |-> \A k \in DOMAIN P2 : OrthoCols(P2[k], OrthoTol),
                same_cross_product |-> \A k \in DOMAIN P2 : MNear(Gram(MM(P2[k], B2)), Gram(B2), RTol(8, FrobSq(B2))),
                projections_optimal |-> \A k \in DOMAIN P2 : PolarOptimal(P2[k], ProjectionTarget(Xs[k], A, B, C[k])),
                feasible |-> Feasible(p, t),
                last_factor_optimal |-> ModeOptimal(p, t, t, 3, 1),
                factors_optimal |-> e.inner # 1 \/ IterationOptimal(p, s, t),
                inner_iterations |-> (~e.compute) \/ ~free \/ e.inner = 1
                     \/ LET W == Sweeps(p, s.U, e.inner) IN \A n \in 1..3 : MNear(t.U[n], W[n], RTol(6, MaxAbs(W[n]))),
                loss_never_rises |-> FLe(PfLoss(e, Xs, A2, B2, C2, P2),
                     FAdd(before, RTol(9, FAdd(before, SlicesSq(Xs, Len(Xs))))))]

Verdict(e) ==
    CASE e.op = "iteration" -> IF ~StateOK(e.before) \/ ~StateOK(e.after) THEN [numbers |-> FALSE] ELSE IterationOK(e)
      [] e.op = "returned" -> IF ~StateOK(e.before) \/ ~StateOK(e.after) THEN [numbers |-> FALSE] ELSE ReturnOK(e)
      [] e.op = "pf_iteration" -> IF ~PfStateOK(e.before) \/ ~PfStateOK(e.after) THEN [numbers |-> FALSE] ELSE PfOK(e)
      [] e.op = "call" -> [no_error |-> ~Raised(e), iterations |-> Raised(e) \/ e.seen = e.wanted]
      [] e.op = "reject" -> [rejected_with_ValueError |-> e.exc = "ValueError"]
      [] OTHER -> [crash |-> FALSE]

Init == l = 1 /\ st = 0
Next == /\ l <= Len(Trace)
        /\ Report(l, Verdict(Trace[l]))
        /\ Finished(l)
        /\ l' = l + 1
        /\ st' = 0
===============================================================================
