------------------------------- MODULE Kernels -------------------------------
(* Spectral kernels: K(k, x, lm) is the response of kernel k (a record with   *)
(* its name and parameters) at x >= 0, on a spectrum [0, lm].                *)
EXTENDS Mat

RECURSIVE Horner(_, _, _)
Horner(c, x, i) == IF i = Len(c) THEN c[i] ELSE c[i] + FMul(x, Horner(c, x, i + 1))
Poly(c, x) == IF c = <<>> THEN 0 ELSE Horner(c, x, 1)

(* Smooth step of the exponential window: 0 below 0, 1 above 1.              *)
SmoothStep(y, slope) ==
  IF y <= 0 THEN 0 ELSE IF y >= S THEN S
  ELSE LET a == IF y < 20000 THEN 50 * slope ELSE FDiv(slope, y)
           b == IF S - y < 20000 THEN 50 * slope ELSE FDiv(slope, S - y)
           d == a - b
       IN IF d > 15 * S THEN 0 ELSE IF d < -15 * S THEN S
          ELSE IF d >= 0 THEN LET e == FExp(-d) IN FDiv(e, S + e)
          ELSE FDiv(S, S + FExp(d))

MeyerV(x) == LET x4 == FSq(FSq(x)) IN FMul(x4, Poly(<<35 * S, -84 * S, 70 * S, -20 * S>>, x))
MeyerScaling(x) ==
  IF 3 * x < TWO THEN S
  ELSE IF 3 * x < 4 * S THEN FCos(FMul(HALFPI, MeyerV((3 * x) \div 2 - S)))
  ELSE 0
MeyerWavelet(x) ==
  IF 3 * x < TWO THEN 0
  ELSE IF 3 * x < 4 * S THEN FSin(FMul(HALFPI, MeyerV((3 * x) \div 2 - S)))
  ELSE IF 3 * x < 8 * S THEN FCos(FMul(HALFPI, MeyerV((3 * x) \div 4 - S)))
  ELSE 0

TightH(x) == FSq(FSin(FMul(HALFPI, x)))
TightScaling(x) ==
  IF x < 250000 THEN S
  ELSE IF x < HALF THEN FSqrt(S - FSq(TightH(4 * x - S))) ELSE 0
TightWavelet(x) ==
  IF x < 250000 THEN 0
  ELSE IF x < HALF THEN TightH(4 * x - S)
  ELSE IF x < S THEN FSqrt(S - FSq(TightH(2 * x - S))) ELSE 0

HalfCos(x, w) ==
  IF x < 0 \/ x > w THEN 0
  ELSE HALF + FCos(FMul(PI2, FDiv(x, w) - HALF)) \div 2

IterWindow(x) ==
  IF x < -HALF \/ x > HALF THEN 0
  ELSE FSin(FMul(HALFPI, FSq(FCos(FMul(PI, x)))))

HeldLow(y, a) ==
  IF y < a THEN S
  ELSE IF y < 2 * a
  THEN FSin(FMul(PI2, Poly(<<-S, 24 * S, -144 * S, 256 * S>>, FDiv(y, 8 * a))))
  ELSE 0
SimoncelliLow(y, a) ==
  IF y < a THEN S
  ELSE IF y < 2 * a THEN FCos(FMul(HALFPI, FDiv(FLog(FDiv(y, a)), LN2)))
  ELSE 0
PapadakisLow(y, a) ==
  IF y < a THEN S
  ELSE IF 3 * y < 5 * a
  THEN FSqrt((S - FSin(FDiv(3 * FMul(HALFPI, y), a))) \div 2)
  ELSE 0
RECURSIVE Iterate(_, _)
Iterate(v, n) == IF n <= 0 THEN v ELSE Iterate(FSin(FMul(HALFPI, v)), n - 1)
RegularLow(y, degree) ==
  IF degree = 0 THEN FSin(FMul(HALFPI, y) \div 2)
  ELSE FSin(FMul(HALFPI, S + Iterate(FSin(FMul(HALFPI, y - S)), degree - 2)) \div 2)

(* Power law, cubic spline between 1 and 2 with matching derivatives, inverse *)
(* square decay.                                                             *)
SplineBand(x) ==
  IF x <= S THEN FSq(x)
  ELSE IF x < TWO THEN LET t == x - S IN S + 2 * t - 3 * FSq(t) + FMul(t, FSq(t))
  ELSE FSq(FDiv(TWO, x))
SplineMax == 1384900      \* at 2 - 1/sqrt(3): 1 + 2t - 3t^2 + t^3, t = 1 - 1/sqrt(3)
ExpMinusFourth(x) == IF x > 2100000 THEN 0 ELSE FExp(-FSq(FSq(x)))

Complement(low) == FSqrt(Max2(0, S - FSq(low)))
BandLow(x, k, lm) == k.max = "none" \/ FDiv(x, lm) <= k.bmax
BandHigh(x, k, lm) == k.min = "none" \/ FDiv(x, lm) >= k.bmin

K(k, x, lm) ==
  CASE k.name = "poly" -> Poly(k.c, x)
    [] k.name = "scaled poly" -> Poly(k.c, FDiv(x, k.unit))
    [] k.name = "exp" -> FMul(k.b, FExp(-FMul(k.a, x)))
    [] k.name = "rational" -> FDiv(S, S + FMul(k.a, x))
    [] k.name = "cos" -> FCos(FMul(k.a, x))
    [] k.name = "heat" -> FDiv(Min2(S, FExp(-FMul(k.scale, FDiv(x, lm)))), k.norm)
    [] k.name = "wave" ->
         FCos(FMul(k.time, FAcos(S - FMul(FSq(k.speed), FDiv(x, lm)) \div 2)))
    [] k.name = "rectangular" -> IF BandLow(x, k, lm) /\ BandHigh(x, k, lm) THEN S ELSE 0
    [] k.name = "expwin" ->
         FMul(IF k.max = "none" THEN S ELSE SmoothStep(HALF - FDiv(x, lm) + k.bmax, k.slope),
              IF k.min = "none" THEN S ELSE SmoothStep(HALF + FDiv(x, lm) - k.bmin, k.slope))
    [] k.name = "hat low" ->
         FMul(441455, ExpMinusFourth(FDiv(FDiv(x, 400000), FDiv(lm, k.lp))))
    [] k.name = "hat band" ->
         LET y == FMul(k.scale, x)
         IN FMul(k.norm, IF y > 20 * S THEN 0 ELSE FMul(y, FExp(-y)))
    [] k.name = "meyer low" -> MeyerScaling(FMul(k.scale, x))
    [] k.name = "meyer band" -> MeyerWavelet(FMul(k.scale, x))
    [] k.name = "tight low" -> TightScaling(FMul(k.scale, x))
    [] k.name = "tight band" -> TightWavelet(FMul(k.scale, x))
    [] k.name = "half cosine" ->
         LET w == (3 * lm) \div (k.nf - 2) IN HalfCos(x - (w \div 3) * (k.i - 2), w)
    [] k.name = "itersine" ->
         \* overlap is an integer; i from 1
         LET sc == (lm \div (k.nf - k.overlap + 1)) * k.overlap
         IN FMul(IterWindow(FDiv(x, sc) - ((2 * k.i - k.overlap) * HALF) \div k.overlap),
                 FSqrt(TWO \div k.overlap))
    [] k.name = "held low" -> HeldLow(FDiv(2 * x, lm), k.a)
    [] k.name = "held high" -> Complement(HeldLow(FDiv(2 * x, lm), k.a))
    [] k.name = "simoncelli low" -> SimoncelliLow(FDiv(2 * x, lm), k.a)
    [] k.name = "simoncelli high" -> Complement(SimoncelliLow(FDiv(2 * x, lm), k.a))
    [] k.name = "papadakis low" -> PapadakisLow(FDiv(2 * x, lm), k.a)
    [] k.name = "papadakis high" -> Complement(PapadakisLow(FDiv(2 * x, lm), k.a))
    [] k.name = "regular low" -> RegularLow(FDiv(2 * x, lm), k.degree)
    [] k.name = "regular high" -> Complement(RegularLow(FDiv(2 * x, lm), k.degree))
    [] k.name = "spline low" ->
         FMul(SplineMax, ExpMinusFourth(FDiv(FDiv(x, 600000), FDiv(lm, k.lp))))
    [] k.name = "spline band" -> SplineBand(FMul(k.scale, x))

(* Geometrically spaced scales from 2/lmin down to 1/lmax.                   *)
LogScale(lm, lp, i, n) ==     \* i-th (from 0) of n scales, lmin = lm / lp
  LET hi == FLog(FDiv(2 * lp, lm))  lo == FLog(FDiv(S, lm))
  IN IF n = 1 THEN FDiv(2 * lp, lm) ELSE FExp(hi - ((hi - lo) \div (n - 1)) * i)
=============================================================================
