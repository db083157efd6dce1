--------------------------------- MODULE MC_ALS ---------------------------------
(* Alternating least squares itself, as a state machine: one transition replaces the factor of one mode.
   TLC runs it from every instance of a small scope and checks what the conformance specification relies
   on: the step relation of ALS.tla accepts what the algorithm does, it determines the step (updating all
   modes from the old factors, leaving one out or taking them in another order is only accepted when it
   leads to the same factors), and no update of a mode lets the loss rise.                              *)
EXTENDS ALS, TLC
CONSTANTS Rank2, Iterations
VARIABLES p, before, cur, mode, it

NV(v) == [i \in DOMAIN v |-> FInt(v[i])]
NM(M) == [i \in DOMAIN M |-> NV(M[i])]
Bits(n, k) == [i \in 1..k |-> (n \div (2^(i - 1))) % 2]
\* tensors with two different entries, chosen by the bits of a number
Tens(sh, code, lo, hi) == Arr(sh, [i \in 1..Prod(sh) |-> FInt(IF Bits(code, Prod(sh))[i] = 1 THEN hi ELSE lo)])
Start(sh, R, k) == [n \in DOMAIN sh |-> [i \in 1..sh[n] |-> [r \in 1..R |-> FInt(1 + ((i * (r + k) + n * r) % 3))]]]
Kinds == {"free", "ridge", "nn", "coupled", "weights"}

Problem(sh, code, kind) ==
    [X |-> Tens(sh, code, -1, 2),
     Y |-> IF kind = "coupled" THEN <<Rows(Tens(<<sh[1], 2>>, code + 5, 1, 3))>> ELSE <<>>,
     at |-> IF kind = "coupled" THEN <<1>> ELSE <<>>,
     nn |-> [n \in DOMAIN sh |-> kind = "nn" /\ n # 2],
     orth |-> [n \in DOMAIN sh |-> FALSE],
     ridge |-> [n \in DOMAIN sh |-> IF kind = "ridge" THEN FInt(n % 2) ELSE FZero]]

Spd(p0, n, aat) == [i \in DOMAIN aat |-> [j \in DOMAIN aat |-> IF i = j THEN FAdd(aat[i][j], p0.ridge[n]) ELSE aat[i][j]]]
\* the new factor of mode n; with one component the best non-negative one is the positive part
Solve(p0, S, b, nonneg) ==
    LET F == MT(SolvePD(S, MT(b))) IN
    IF nonneg THEN [i \in DOMAIN F |-> [r \in DOMAIN F[i] |-> FMax(FZero, F[i][r])]] ELSE F
\* weights are multiplied into the first mode before it is updated
Absorbed(s) == [s EXCEPT !.U = [@ EXCEPT ![1] = ColScale(@, s.w)], !.w = Ones(Len(s.w)),
                         !.V = [c \in DOMAIN @ |-> IF p.at[c] = 1 THEN Unweigh(@[c], s.w) ELSE @[c]]]
Aat(s, n) == AAt(p, s.U, s.w, s.V, n)
Solvable(s, n) == PosDef(Spd(p, n, MSub(Aat(s, n), MScale(FTiny(3), Ident(Len(s.w))))))
UpdateMode(s, n) == FForce([s EXCEPT !.U = [@ EXCEPT ![n] = Solve(p, Spd(p, n, Aat(s, n)), BAt(p, s.U, s.w, s.V, n), p.nn[n])]])
UpdateOwn(s) == [s EXCEPT !.V = [c \in DOMAIN @ |-> LET U == s.U[p.at[c]] IN Solve(p, Gram(U), MM(MT(p.Y[c]), U), p.nn[p.at[c]])]]
OwnSolvable(s) == \A c \in DOMAIN p.at : PosDef(MSub(Gram(s.U[p.at[c]]), MScale(FTiny(3), Ident(Len(s.w)))))

Scope == {<<sh, R, code, kind, k>> \in {<<2, 2>>, <<2, 2, 2>>} \X (IF Rank2 THEN {1, 2} ELSE {1}) \X (0..255) \X Kinds \X {0, 1} :
             /\ code < 2^Prod(sh) /\ (Prod(sh) = 8 => code % (IF Rank2 THEN 2 ELSE 17) = 1)
             /\ (kind = "nn" => R = 1)}
Init == \E c \in Scope :
    /\ p = FForce(Problem(c[1], c[3], c[4]))
    /\ cur = FForce([U |-> Start(c[1], c[2], c[5]),
                     w |-> IF c[4] = "weights" THEN [r \in 1..c[2] |-> FInt(3 - r)] ELSE Ones(c[2]),
                     V |-> IF c[4] = "coupled" THEN <<Rows(Tens(<<2, c[2]>>, 2 * c[5] + 1, 1, 2))>> ELSE <<>>])
    /\ before = cur /\ mode = 1 /\ it = 0
Next == /\ it < Iterations
        /\ LET s == IF mode = 1 THEN FForce(Absorbed(cur)) ELSE cur IN
           /\ Solvable(s, mode) = TRUE
           /\ LET t == UpdateMode(s, mode)  last == mode = Len(cur.U) IN
              /\ (last => OwnSolvable(t)) = TRUE
              /\ cur' = (IF last THEN FForce(UpdateOwn(t)) ELSE t)
              /\ before' = (IF mode = 1 THEN cur ELSE before)
              /\ mode' = (IF last THEN 1 ELSE mode + 1)
              /\ it' = (IF last THEN it + 1 ELSE it)
        /\ UNCHANGED p

Done == mode = 1 /\ it > 0
StepIsAllowed == Done => /\ IterationOptimal(p, before, cur)
                         /\ ModeOptimal(p, cur, cur, NModes(p), 1) \/ CoupledTo(p, NModes(p)) # {}
                         /\ \A c \in DOMAIN p.at : OwnOptimal(p, cur.V[c], c, cur.U[p.at[c]])
                         /\ Feasible(p, cur) /\ UnitWeights(cur)
\* every single update, not only every iteration
LossNeverRises == [][NotRising(p, [cur EXCEPT !.U = IF mode = 1 THEN Absorbed(cur).U ELSE @,
                                              !.V = IF mode = 1 THEN Absorbed(cur).V ELSE @,
                                              !.w = IF mode = 1 THEN Absorbed(cur).w ELSE @], cur')]_cur
SameFactors(a, b) == \A n \in DOMAIN a.U : MNear(a.U[n], b.U[n], RTol(4, MaxAbs(b.U[n])))
FromOld == LET s == FForce(Absorbed(before)) IN [s EXCEPT !.U = [n \in DOMAIN @ |-> UpdateMode(s, n).U[n]]]
LeftOut(n) == [cur EXCEPT !.U = [@ EXCEPT ![n] = Absorbed(before).U[n]]]
Backwards == LET RECURSIVE B(_, _)
                 B(s, n) == IF n = 0 \/ ~Solvable(s, n) THEN s ELSE B(UpdateMode(s, n), n - 1)
             IN B(FForce(Absorbed(before)), Len(before.U))
AllSolvable(s) == \A n \in DOMAIN s.U : Solvable(s, n)
Wrong == {LeftOut(n) : n \in DOMAIN cur.U}
         \cup (IF AllSolvable(FForce(Absorbed(before))) THEN {FromOld} ELSE {})
         \cup (IF AllSolvable(FForce(Absorbed(before))) /\ AllSolvable(cur) /\ Len(cur.w) = 1 THEN {Backwards} ELSE {})
StepIsDetermined == (Done /\ it = 1 /\ UnitWeights(before)) =>
    \A t \in Wrong : IterationOptimal(p, before, t) => SameFactors(t, cur)
===============================================================================
