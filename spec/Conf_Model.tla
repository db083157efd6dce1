------------------------------- MODULE Conf_Model -------------------------------
(* Conformance of the decomposition containers: histories of one Kruskal tensor (C02), evolving and
   PARAFAC2 tensors (C05), and generated data (C23).
   For C02 the abstract state st is the weighted sum itself: weights w and factor matrices U.          *)
EXTENDS TraceBase

UnitOrZero(A, N) ==     \* the columns of A scaled to unit length, zero columns left alone
    [i \in 1..Len(A) |-> [r \in 1..Len(N) |-> IF N[r][1] = 0 THEN FZero ELSE FDiv(A[i][r], N[r])]]
RECURSIVE NormProd(_, _)
NormProd(Us, w) == IF Len(Us) = 0 THEN w ELSE NormProd(Tail(Us), FHad(w, ColNorms(Head(Us))))

RecOK(e) == Valid(e.w) /\ Len(e.w.sh) = 1 /\ AllMats(e.U)
Rec(e) == [w |-> e.w.d, U |-> RowsAll(e.U)]
SameU(Us, Vs) == Len(Us) = Len(Vs) /\ \A n \in DOMAIN Us : MClose(Us[n], Vs[n])
Same(a, b) == Len(a.w) = Len(b.w) /\ VClose(a.w, b.w) /\ SameU(a.U, b.U)
Identical(a, b) == a.w = b.w /\ a.U = b.U
Sizes(s) == [n \in DOMAIN s.U |-> Len(s.U[n])]

Normalised(s, update) ==
    [w |-> IF update THEN NormProd(s.U, s.w) ELSE s.w,
     U |-> [n \in DOMAIN s.U |-> UnitOrZero(s.U[n], ColNorms(s.U[n]))]]
ComponentOf(s, r) == [w |-> <<s.w[r]>>, U |-> [n \in DOMAIN s.U |-> ColM(s.U[n], r)]]
\* a component with a zero column is the zero tensor whatever its other columns and its weight are
RECURSIVE VSum(_)
VSum(vs) == IF Len(vs) = 1 THEN vs[1] ELSE FVAdd(vs[1], VSum(Tail(vs)))

\* C05 -------------------------------------------------------------------------------------------
EvolvingOK(e) ==
    LET A == Rows(e.A)  C == Rows(e.C)
        Bs == IF e.kind = "parafac2" THEN [k \in DOMAIN e.P |-> MM(Rows(e.P[k]), Rows(e.B[1]))] ELSE RowsAll(e.B)
        K == Len(C)  I == Len(A)
        S == [k \in 1..K |-> SliceOf(A, Bs[k], C[k])]
        J == CHOOSE j \in {Len(Bs[k]) : k \in 1..K} : \A k \in 1..K : Len(Bs[k]) <= j
        same == \A k \in 1..K : Len(Bs[k]) = J
    IN [no_error |-> ~Raised(e),
        slices |-> Len(e.slices) = K /\ \A k \in DOMAIN e.slices : SameMat(e.slices[k], S[k]),
        single_slices |-> Len(e.single) = K /\ \A k \in DOMAIN e.single : SameMat(e.single[k], S[k]),
        evolving_factors |-> Len(e.Bk) = K /\ \A k \in DOMAIN e.Bk : SameMat(e.Bk[k], Bs[k]),
        from_the_end |-> Len(e.Bend) = K /\ \A k \in DOMAIN e.Bend : SameMat(e.Bend[k], Bs[k]),
        in_turn |-> Len(e.Bin) = K /\ \A k \in DOMAIN e.Bin : SameMat(e.Bin[k], Bs[k]),
        columns |-> LET R == NCols(A) IN \A i \in DOMAIN e.Bcol : SameArr(e.Bcol[i], <<Len(Bs[1 + (i - 1) \div R])>>,
                              [j \in DOMAIN Bs[1 + (i - 1) \div R] |-> Bs[1 + (i - 1) \div R][j][1 + ((i - 1) % R)]]),
        stacked |-> SameMat(e.unfolded, Stack(Bs)),
        factors |-> SameMat(e.Aout, A) /\ SameMat(e.Cout, C),
        listed_factors |-> \A f \in {e.factors[1], e.factors[2]} :
                              /\ Len(f) = K + 2 /\ SameMat(f[1], A) /\ SameMat(f[K + 2], C)
                              /\ \A k \in 1..K : SameMat(f[k + 1], Bs[k]),
        shape |-> e.shape = <<I, J, K>>,
        slice_shapes |-> e.slice_shapes = [k \in 1..K |-> <<I, Len(Bs[k])>>],
        num_elements |-> e.num_elements = ISum([k \in 1..K |-> I * Len(Bs[k])]),
        warns |-> (e.tensor_exc = "Warning") = (e.warning /\ ~same) /\ e.tensor_exc \in {"", "Warning"},
        tensor |-> (e.tensor_exc # "") \/ SameArr(e.tensor, <<I, J, K>>, PaddedData(S, I, J)),
        \* the flag is no one-time matter
        again |-> e.again_exc = e.tensor_exc /\ ((e.tensor_exc # "") \/ (Valid(e.again) /\ e.again.sh = e.tensor.sh /\ e.again.d = e.tensor.d))]
ComponentsOK(e) ==
    LET A == Rows(e.A)  C == Rows(e.C)
        Bs == [k \in DOMAIN e.P |-> MM(Rows(e.P[k]), Rows(e.B[1]))]
        R == NCols(A)
        S == [k \in DOMAIN Bs |-> SliceOf(A, Bs[k], C[k])]
        One(r) == [k \in DOMAIN Bs |-> SliceOf(ColM(A, r), ColM(Bs[k], r), <<C[k][r]>>)]
        J == CHOOSE j \in {Len(Bs[k]) : k \in DOMAIN Bs} : \A k \in DOMAIN Bs : Len(Bs[k]) <= j
        same == \A k \in DOMAIN Bs : Len(Bs[k]) = J
    IN [no_error |-> ~Raised(e),
        whole |-> /\ Len(e.whole) = R /\ Len(e.whole_exc) = R
                  /\ \A r \in DOMAIN e.whole : IF e.warning /\ ~same THEN e.whole_exc[r] = "Warning"
                        ELSE e.whole_exc[r] = "" /\ SameArr(e.whole[r], <<Len(A), J, Len(C)>>, PaddedData(One(r), Len(A), J)),
        count |-> Len(e.comps) = R,
        components |-> \A r \in DOMAIN e.comps : Len(e.comps[r]) = Len(Bs)
                            /\ \A k \in DOMAIN e.comps[r] : SameMat(e.comps[r][k], One(r)[k]),
        sum |-> Len(e.comps) = R /\ \A k \in DOMAIN Bs :
            (\A r \in 1..R : Len(e.comps[r]) = Len(Bs) /\ IsMat(e.comps[r][k], Len(S[k]), NCols(S[k]))) =>
            VClose(VSum([r \in 1..R |-> e.comps[r][k].d]), Flat(S[k]))]
ConvertOK(e) ==
    LET w == e.w.d  Us == RowsAll(e.U)
        sh == [n \in DOMAIN Us |-> Len(Us[n])]
    IN [no_error |-> ~Raised(e),
        same_tensor |-> SameArr(e.tensor, sh, KruskalData(w, Us)),
        slices |-> Len(e.slices) = sh[3] /\ \A k \in DOMAIN e.slices : SameMat(e.slices[k],
                        SliceOf(ColScale(Us[1], w), Us[2], Us[3][k]))]

\* C23 -------------------------------------------------------------------------------------------
UnitCols(M) == \A r \in 1..NCols(M) : FNear(SqNorm(Col(M, r)), FOne, FTiny(6))
KruskalGenOK(e) ==
    [no_error |-> ~Raised(e),
     shape |-> [n \in DOMAIN e.U |-> e.U[n].sh[1]] = e.sizes,
     rank |-> \A n \in DOMAIN e.U : e.U[n].sh[2] = e.rank,
     unit_columns |-> \A n \in DOMAIN e.U : UnitCols(Rows(e.U[n])),
     unit_weights |-> Valid(e.w) /\ e.w.d = Ones(e.rank),
     non_negative |-> ~e.nonneg \/ \A n \in DOMAIN e.U : NonNegative(Rows(e.U[n])),
     distinct |-> e.rank = 1 \/ \A n \in DOMAIN e.U : e.sizes[n] = 1 \/ Col(Rows(e.U[n]), 1) # Col(Rows(e.U[n]), 2)]
Parafac2GenOK(e) ==
    [no_error |-> ~Raised(e),
     shapes |-> /\ e.A.sh = <<e.sizes[1], e.rank>> /\ e.C.sh = <<e.sizes[3], e.rank>>
                /\ e.B.sh = <<e.rank, e.rank>>
                /\ [k \in DOMAIN e.P |-> e.P[k].sh] = [k \in 1..e.sizes[3] |-> <<e.widths[k], e.rank>>],
     orthonormal |-> \A k \in DOMAIN e.P : OrthoCols(Rows(e.P[k]), FTiny(9))]
DataGenOK(e) ==
    LET Us == RowsAll(e.U)
        R == NCols(Us[1])
        clean == KruskalData(Ones(R), Us)
        size == FSqrt(SqNorm(clean))
    IN [shape |-> Valid(e.T) /\ e.T.sh = e.sizes /\ Valid(e.noise) /\ e.noise.sh = e.sizes
                    /\ [n \in DOMAIN Us |-> Len(Us[n])] = e.sizes /\ \A n \in DOMAIN Us : NCols(Us[n]) = e.rank,
        unit_columns |-> \A n \in DOMAIN Us : UnitCols(Us[n]),
        non_negative |-> ~e.nonneg \/ \A n \in DOMAIN Us : NonNegative(Us[n]),
        noise_norm |-> FNear(FSqrt(SqNorm(e.noise.d)), size, RTol(8, size)),
        noise_level |-> Len(clean) = Len(e.T.d) => VNear(e.T.d, FVAdd(clean, FVScale(e.level, e.noise.d)), RTol(9, FAdd(FOne, e.level)))]
FactorsGenOK(e) ==
    [no_error |-> ~Raised(e),
     shapes |-> [n \in DOMAIN e.U |-> e.U[n].sh] = [n \in DOMAIN e.sizes |-> <<e.sizes[n], e.rank>>],
     unit_columns |-> \A n \in DOMAIN e.U : UnitCols(Rows(e.U[n])),
     non_negative |-> ~e.nonneg \/ \A n \in DOMAIN e.U : NonNegative(Rows(e.U[n]))]

Verdict(e, s) ==
    CASE e.op = "create" -> [state |-> ~Raised(e) /\ RecOK(e) /\ RecOK(e.given) /\ Identical(Rec(e), Rec(e.given))]
      [] e.op = "normalise" ->
            IF Raised(e) \/ ~RecOK(e) THEN [no_error |-> FALSE]
            ELSE [weights |-> VClose(Rec(e).w, Normalised(s, e.update).w),
                  unit_columns |-> SameU(Rec(e).U, Normalised(s, e.update).U),
                  same_tensor |-> (~e.update) \/ VClose(KruskalData(Rec(e).w, Rec(e).U), KruskalData(s.w, s.U)),
                  untouched_weights |-> e.update \/ Rec(e).w = s.w]
      [] e.op = "reset" -> IF Raised(e) \/ ~RecOK(e) THEN [no_error |-> FALSE]
            ELSE [weights |-> Rec(e).w = Ones(Len(s.w)), factors |-> Rec(e).U = s.U]
      [] e.op = "single" -> IF Raised(e) \/ ~RecOK(e) \/ ~RecOK(e.part) THEN [no_error |-> FALSE]
            ELSE [component |-> Identical(Rec(e.part), ComponentOf(s, e.component)),
                  rank |-> e.rank = 1,
                  unchanged |-> Identical(Rec(e), s)]
      [] e.op \in {"part_normalise", "part_keep"} ->      \* a component normalised as a tensor of its own
            IF Raised(e) \/ ~RecOK(e) \/ ~RecOK(e.part) THEN [no_error |-> FALSE]
            ELSE LET part == Normalised(ComponentOf(s, e.component), e.op = "part_normalise")
                 IN [weights |-> VClose(Rec(e.part).w, part.w),
                     unit_columns |-> SameU(Rec(e.part).U, part.U),
                     whole_unchanged |-> Identical(Rec(e), s)]
      [] e.op = "part_reset" -> IF Raised(e) \/ ~RecOK(e) \/ ~RecOK(e.part) THEN [no_error |-> FALSE]
            ELSE [weights |-> Rec(e.part).w = Ones(1),
                  factors |-> Rec(e.part).U = ComponentOf(s, e.component).U,
                  whole_unchanged |-> Identical(Rec(e), s)]
      [] e.op = "parts" -> IF Raised(e) \/ ~RecOK(e) THEN [no_error |-> FALSE]
            ELSE [unchanged |-> Identical(Rec(e), s),
                  sum |-> /\ Len(e.parts) = Len(s.w)
                          /\ \A r \in DOMAIN e.parts : Valid(e.parts[r]) /\ e.parts[r].sh = Sizes(s)
                          /\ VClose(VSum([r \in DOMAIN e.parts |-> e.parts[r].d]), KruskalData(s.w, s.U))]
      [] e.op = "tensor" -> IF Raised(e) \/ ~RecOK(e) THEN [no_error |-> FALSE]
            ELSE [entries |-> SameArr(e.out, Sizes(s), KruskalData(s.w, s.U)), unchanged |-> Identical(Rec(e), s)]
      [] e.op = "evolving" -> IF Raised(e) THEN [no_error |-> FALSE] ELSE EvolvingOK(e)
      [] e.op = "components" -> IF Raised(e) THEN [no_error |-> FALSE] ELSE ComponentsOK(e)
      [] e.op = "convert" -> IF Raised(e) THEN [no_error |-> FALSE] ELSE ConvertOK(e)
      [] e.op = "reject" -> [rejected_with_ValueError |-> e.exc = "ValueError"]
      [] e.op = "gen_kruskal" -> IF Raised(e) \/ ~AllMats(e.U) THEN [no_error |-> FALSE] ELSE KruskalGenOK(e)
      [] e.op = "gen_parafac2" -> IF Raised(e) \/ ~AllMats(e.P) \/ ~Valid(e.A) \/ ~Valid(e.B) \/ ~Valid(e.C) THEN [no_error |-> FALSE] ELSE Parafac2GenOK(e)
      [] e.op = "gen_data" -> IF Raised(e) \/ ~AllMats(e.U) THEN [no_error |-> FALSE] ELSE DataGenOK(e)
      [] e.op = "gen_factors" -> IF Raised(e) \/ ~AllMats(e.U) THEN [no_error |-> FALSE] ELSE FactorsGenOK(e)
      [] OTHER -> [crash |-> FALSE]

IsObject(e) == e.op \in {"create", "normalise", "reset", "single", "parts", "part_normalise", "part_keep", "part_reset", "tensor"}
Post(e, s) == IF IsObject(e) /\ ~Raised(e) THEN (IF RecOK(e) THEN Rec(e) ELSE s) ELSE s

Init == l = 1 /\ st = [w |-> <<>>, U |-> <<>>]
Next == /\ l <= Len(Trace)
        /\ Report(l, Verdict(Trace[l], st))
        /\ Finished(l)
        /\ l' = l + 1
        /\ st' = Post(Trace[l], st)
===============================================================================
