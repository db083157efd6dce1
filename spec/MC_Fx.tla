--------------------------------- MODULE MC_Fx ---------------------------------
(* Compares the pure TLA+ definitions of Fx with expected results that were printed by a run with the
   Java override (or the other way round): both runs print the same lines. *)
EXTENDS Fx, TLC
Xs == << <<0>>, <<1, 5>>, <<-1, 0, 0, 0, 0, 3>>, <<1, 9999, 9999, 9999, 9999>>, <<-1, 1234, 0, 77>>,
         <<1, 0, 0, 0, 5000, 1>>, <<1, 3333, 3333, 3333, 3333, 12, 9999, 1>>, <<-1, 1>> >>
D == 1..Len(Xs)
Line == << [i \in D |-> [j \in D |-> <<FAdd(Xs[i], Xs[j]), FSub(Xs[i], Xs[j]), FMul(Xs[i], Xs[j]), FLe(Xs[i], Xs[j]),
                 IF Xs[j][1] = 0 THEN 0 ELSE FDiv(Xs[i], Xs[j])>>]],
           [i \in D |-> <<FNeg(Xs[i]), FAbs(Xs[i]), FSqrt(FAbs(Xs[i])), FVScale(Xs[i], Xs)>>],
           FDot(Xs, Xs), FSum(Xs), FHad(Xs, Xs), FVAdd(Xs, Xs), FVSub(Xs, FHad(Xs, Xs)), FMaxAbs(Xs),
           [n \in {-1234567, -1, 0, 1, 9999, 10000, 2000000000} |-> FInt(n)], [k \in 0..16 |-> FTiny(k)] >>
\* algebraic laws, over all triples of the sample
Laws == \A i, j, k \in D :
          /\ FAdd(Xs[i], Xs[j]) = FAdd(Xs[j], Xs[i])
          /\ FAdd(FAdd(Xs[i], Xs[j]), Xs[k]) = FAdd(Xs[i], FAdd(Xs[j], Xs[k]))
          /\ FMul(Xs[i], Xs[j]) = FMul(Xs[j], Xs[i])
          /\ FSub(FAdd(Xs[i], Xs[j]), Xs[j]) = Xs[i]
          /\ (Xs[j][1] # 0 => FLe(FAbs(FSub(Xs[i], FMul(FDiv(Xs[i], Xs[j]), Xs[j]))), FAdd(FAbs(FMul(Xs[j],FTiny(16))), FTiny(16))))
ASSUME PrintT(Line)
ASSUME Laws
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
===============================================================================
