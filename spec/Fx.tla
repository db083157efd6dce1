---------------------------------- MODULE Fx ----------------------------------
(* Exact fixed-point arithmetic with 16 decimals on integers of any size.

   A number is a tuple <<sign, limb_1, limb_2, ...>>: sign is -1, 0 or 1, the limbs are the base-10^4
   digits (least significant first, no leading zeros) of the absolute value times 10^16.
   Zero is <<0>>.  Sums are exact; products, quotients and roots are truncated to 16 decimals, and a
   dot product is truncated only once.

   Everything here is ordinary TLA+, which TLC can evaluate.  For speed, java/Fx.java overrides the
   operators marked (J) by the same function on java.math.BigInteger; MC_Fx.tla compares the two.     *)
EXTENDS Integers, Sequences

BASE == 10000
SCALELIMBS == 4           \* 10^16 = BASE^4

LOCAL Max(a, b) == IF a > b THEN a ELSE b
LOCAL Dig(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

(* ---- natural numbers as little-endian digit sequences ---- *)
RECURSIVE Trim(_)
Trim(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN Trim(SubSeq(m, 1, Len(m) - 1)) ELSE m

RECURSIVE NCmpAt(_, _, _)
NCmpAt(a, b, i) == IF i = 0 THEN 0
                   ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE NCmpAt(a, b, i - 1)
NCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE NCmpAt(a, b, Len(a))

RECURSIVE NAddC(_, _, _, _, _)
NAddC(a, b, i, c, acc) ==
    IF i > Max(Len(a), Len(b)) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
    ELSE LET s == Dig(a, i) + Dig(b, i) + c IN NAddC(a, b, i + 1, s \div BASE, Append(acc, s % BASE))
NAdd(a, b) == NAddC(a, b, 1, 0, <<>>)

RECURSIVE NSubC(_, _, _, _, _)          \* a >= b
NSubC(a, b, i, c, acc) ==
    IF i > Len(a) THEN Trim(acc)
    ELSE LET s == a[i] - Dig(b, i) - c
         IN NSubC(a, b, i + 1, IF s < 0 THEN 1 ELSE 0, Append(acc, IF s < 0 THEN s + BASE ELSE s))
NSub(a, b) == NSubC(a, b, 1, 0, <<>>)

RECURSIVE NMul1C(_, _, _, _, _)         \* times one digit
NMul1C(a, d, i, c, acc) ==
    IF i > Len(a) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
    ELSE LET s == a[i] * d + c IN NMul1C(a, d, i + 1, s \div BASE, Append(acc, s % BASE))
NMul1(a, d) == IF d = 0 THEN <<>> ELSE NMul1C(a, d, 1, 0, <<>>)

RECURSIVE NMul(_, _)
NMul(a, b) == IF b = <<>> \/ a = <<>> THEN <<>>
              ELSE LET rest == NMul(a, Tail(b))
                       lo == NMul1(a, Head(b))
                   IN Trim(NAdd(lo, IF rest = <<>> THEN <<>> ELSE <<0>> \o rest))

NShiftUp(a, k) == IF a = <<>> THEN <<>> ELSE [i \in 1..(Len(a) + k) |-> IF i <= k THEN 0 ELSE a[i - k]]
NShiftDown(a, k) == IF Len(a) <= k THEN <<>> ELSE SubSeq(a, k + 1, Len(a))

RECURSIVE NDigit(_, _, _, _)            \* largest d in lo..hi with d*b <= a
NDigit(a, b, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2
         IN IF NCmp(NMul1(b, mid), a) <= 0 THEN NDigit(a, b, mid, hi) ELSE NDigit(a, b, lo, mid - 1)
RECURSIVE NDivC(_, _, _, _, _)
NDivC(a, b, i, rem, acc) ==
    IF i = 0 THEN Trim(acc)
    ELSE LET r == Trim(<<a[i]>> \o rem)
             d == NDigit(r, b, 0, BASE - 1)
         IN NDivC(a, b, i - 1, NSub(r, NMul1(b, d)), <<d>> \o acc)
NDiv(a, b) == NDivC(a, b, Len(a), <<>>, <<>>)

RECURSIVE NSqrtC(_, _, _)               \* largest x with x*x <= a, digit by digit
NSqrtC(a, i, acc) ==
    IF i = 0 THEN Trim(acc)
    ELSE LET ok(d) == LET x == Trim([acc EXCEPT ![i] = d]) IN NCmp(NMul(x, x), a) <= 0
             RECURSIVE S(_, _)
             S(lo, hi) == IF lo = hi THEN lo
                          ELSE LET mid == (lo + hi + 1) \div 2 IN IF ok(mid) THEN S(mid, hi) ELSE S(lo, mid - 1)
         IN NSqrtC(a, i - 1, [acc EXCEPT ![i] = S(0, BASE - 1)])
NSqrt(a) == LET n == (Len(a) + 1) \div 2 IN NSqrtC(a, n, [i \in 1..n |-> 0])

(* ---- signed numbers ---- *)
Mk(s, m) == IF m = <<>> THEN <<0>> ELSE <<s>> \o m
Mag(x) == Tail(x)

FZero == <<0>>
FAdd(x, y) == (*J*)
    IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x
    ELSE IF x[1] = y[1] THEN Mk(x[1], NAdd(Mag(x), Mag(y)))
    ELSE IF NCmp(Mag(x), Mag(y)) >= 0 THEN Mk(x[1], NSub(Mag(x), Mag(y)))
    ELSE Mk(y[1], NSub(Mag(y), Mag(x)))
FNeg(x) == (*J*) IF x[1] = 0 THEN x ELSE <<-x[1]>> \o Mag(x)
FSub(x, y) == (*J*) FAdd(x, FNeg(y))
FAbs(x) == (*J*) IF x[1] = -1 THEN FNeg(x) ELSE x
FMul(x, y) == (*J*) Mk(x[1] * y[1], NShiftDown(NMul(Mag(x), Mag(y)), SCALELIMBS))
FDiv(x, y) == (*J*) Mk(x[1] * y[1], NDiv(NShiftUp(Mag(x), SCALELIMBS), Mag(y)))
FSqrt(x) == (*J*) Mk(1, NSqrt(NShiftUp(Mag(x), SCALELIMBS)))
FLe(x, y) == (*J*) FSub(x, y)[1] <= 0

RECURSIVE ExactDot(_, _, _)             \* sum of products, not rescaled
ExactDot(u, v, n) ==
    IF n = 0 THEN <<0>>
    ELSE FAdd(ExactDot(u, v, n - 1), Mk(u[n][1] * v[n][1], NMul(Mag(u[n]), Mag(v[n]))))
FDot(u, v) == (*J*) LET d == ExactDot(u, v, Len(u)) IN Mk(d[1], NShiftDown(Mag(d), SCALELIMBS))
FSum(u) == (*J*) LET RECURSIVE S(_)
                     S(n) == IF n = 0 THEN <<0>> ELSE FAdd(S(n - 1), u[n])
                 IN S(Len(u))
FHad(u, v) == (*J*) [i \in 1..Len(u) |-> FMul(u[i], v[i])]
FVAdd(u, v) == (*J*) [i \in 1..Len(u) |-> FAdd(u[i], v[i])]
FVSub(u, v) == (*J*) [i \in 1..Len(u) |-> FSub(u[i], v[i])]
FVScale(c, u) == (*J*) [i \in 1..Len(u) |-> FMul(c, u[i])]
\* the largest absolute value of a vector
FMaxAbs(u) == (*J*) LET RECURSIVE S(_)
                        S(n) == IF n = 0 THEN <<0>> ELSE LET r == S(n - 1) IN IF FLe(FAbs(u[n]), r) THEN r ELSE FAbs(u[n])
                    IN S(Len(u))
FInt(n) == (*J*) \* an integer with |n| < 2^31 - 1 as a number
    LET RECURSIVE D(_)
        D(k) == IF k = 0 THEN <<>> ELSE <<k % BASE>> \o D(k \div BASE)
    IN IF n = 0 THEN <<0>> ELSE Mk(IF n < 0 THEN -1 ELSE 1, <<0, 0, 0, 0>> \o D(IF n < 0 THEN -n ELSE n))

(* ---- derived ---- *)
FOne == FInt(1)
FLt(x, y) == ~FLe(y, x)
FMax(x, y) == IF FLe(x, y) THEN y ELSE x
FMin(x, y) == IF FLe(x, y) THEN x ELSE y
FSq(x) == FMul(x, x)
FSign(x) == x[1]
\* 10^-k for k = 0..16
FTiny(k) == Mk(1, LET limb == (16 - k) \div 4
                      P == <<1, 10, 100, 1000>>
                  IN [i \in 1..(limb + 1) |-> IF i <= limb THEN 0 ELSE P[((16 - k) % 4) + 1]])
FForce(x) == (*J*) \* x itself; the Java version evaluates every part of x now instead of on demand
    x
===============================================================================
