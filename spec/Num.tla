-------------------------------- MODULE Num --------------------------------
(* Fixed-point real numbers, in units of 10^-6, within TLC's 32-bit integers.*)
(* Every number recorded from the implementation is rounded to this unit.    *)
(* A product or quotient must stay below 2000 in magnitude, and factors      *)
(* below 1000; callers check the magnitude of recorded values beforehand     *)
(* (Bounded in Mat.tla), so that every verdict is total.                     *)
EXTENDS Integers, Sequences, SequencesExt, TLC

S == 1000000                    \* one
TWO == 2000000
HALF == 500000
PI == 3141593
PI2 == 6283185
HALFPI == 1570796
LN2 == 693147

Abs(a) == IF a < 0 THEN -a ELSE a
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Sgn(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0

(* Values standing for "not a finite number of usable size" (see enc.py).    *)
WF(a) == a <= 2000000000 /\ a >= -2000000000

PMul(a, b) ==
  LET a1 == a \div 1000  a0 == a % 1000
      b1 == b \div 1000  b0 == b % 1000
  IN a1 * b1 + (a1 * b0 + a0 * b1 + (a0 * b0) \div 1000 + 500) \div 1000

FMul(a, b) ==
  IF a = 0 \/ b = 0 THEN 0
  ELSE IF a > 0 THEN IF b > 0 THEN PMul(a, b) ELSE -PMul(a, -b)
       ELSE IF b > 0 THEN -PMul(-a, b) ELSE PMul(-a, -b)

FSq(a) == FMul(a, a)

(* a and b positive. *)
RECURSIVE PDiv(_, _)
PDiv(a, b) ==
  IF b > 200000000 THEN PDiv(a \div 16, b \div 16)
  ELSE IF b <= 2000000
  THEN LET r0 == a % b
           x1 == r0 * 1000   r1 == x1 % b
           x2 == r1 * 1000   r2 == x2 % b
       IN (a \div b) * S + (x1 \div b) * 1000 + (x2 \div b) + (IF 2 * r2 >= b THEN 1 ELSE 0)
  ELSE LET r0 == a % b
           x1 == r0 * 10  r1 == x1 % b
           x2 == r1 * 10  r2 == x2 % b
           x3 == r2 * 10  r3 == x3 % b
           x4 == r3 * 10  r4 == x4 % b
           x5 == r4 * 10  r5 == x5 % b
           x6 == r5 * 10  r6 == x6 % b
       IN (a \div b) * S + (x1 \div b) * 100000 + (x2 \div b) * 10000
          + (x3 \div b) * 1000 + (x4 \div b) * 100 + (x5 \div b) * 10
          + (x6 \div b) + (IF 2 * r6 >= b THEN 1 ELSE 0)

FDiv(a, b) ==
  IF a = 0 THEN 0
  ELSE IF a > 0 THEN IF b > 0 THEN PDiv(a, b) ELSE -PDiv(a, -b)
       ELSE IF b > 0 THEN -PDiv(-a, b) ELSE PDiv(-a, -b)

(* Newton's iteration from above. *)
RECURSIVE SqrtIter(_, _, _)
SqrtIter(a, x, n) ==
  IF n = 0 THEN x
  ELSE LET y == (x + FDiv(a, x)) \div 2
       IN IF y >= x THEN x ELSE SqrtIter(a, y, n - 1)
FSqrt(a) == IF a <= 0 THEN 0 ELSE SqrtIter(a, IF a > S THEN (a + S) \div 2 ELSE S, 40)

RECURSIVE TaylorExp(_, _, _)
TaylorExp(r, term, k) ==   \* sum of r^j/j! for j >= k, given term = r^(k-1)/(k-1)!
  IF k > 14 \/ term = 0 THEN 0
  ELSE LET t == FMul(term, r) \div k IN t + TaylorExp(r, t, k + 1)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
FExp(x) ==                 \* x below 7
  IF x < -15 * S THEN 0
  ELSE LET n == x \div LN2
           r == x - n * LN2           \* in [0, ln 2)
           e == S + TaylorExp(r, S, 1)
       IN IF n >= 0 THEN e * Pow2(n) ELSE (e + Pow2(-n - 1)) \div Pow2(-n)

RECURSIVE TaylorSin(_, _, _)
TaylorSin(x2, term, k) ==
  IF k > 17 \/ term = 0 THEN 0
  ELSE LET t == -(FMul(term, x2) \div (k * (k + 1))) IN t + TaylorSin(x2, t, k + 2)
SinSmall(x) == x + TaylorSin(FMul(x, x), x, 2)          \* x in [-pi/2, pi/2]
FSin(x) ==
  LET y == x % PI2                                        \* in [0, 2 pi)
  IN IF y <= HALFPI THEN SinSmall(y)
     ELSE IF y <= PI + HALFPI THEN SinSmall(PI - y)
     ELSE SinSmall(y - PI2)
FCos(x) == FSin(x + HALFPI)

RECURSIVE AtanhSeries(_, _, _)
AtanhSeries(z2, pow, k) ==
  IF k > 25 \/ pow = 0 THEN 0
  ELSE pow \div k + AtanhSeries(z2, FMul(pow, z2), k + 2)
RECURSIVE FLog(_)
FLog(x) ==                                               \* x > 0
  IF x > 1414214 THEN LN2 + FLog(x \div 2)
  ELSE IF x < 707107 THEN FLog(2 * x) - LN2
  ELSE LET z == FDiv(x - S, x + S) IN 2 * AtanhSeries(FMul(z, z), z, 1)

RECURSIVE AtanSeries(_, _, _)
AtanSeries(z2, pow, k) ==
  IF k > 25 \/ pow = 0 THEN 0
  ELSE pow \div k - AtanSeries(z2, FMul(pow, z2), k + 2)
RECURSIVE FAtanPos(_)
FAtanPos(x) ==                                           \* x >= 0
  IF x > 400000 THEN 2 * FAtanPos(FDiv(x, S + FSqrt(S + FMul(x, x))))
  ELSE AtanSeries(FMul(x, x), x, 1)
FAcos(x) ==                                              \* x in [-1, 1]
  IF x >= S THEN 0 ELSE IF x <= -S THEN PI
  ELSE IF x >= 0 THEN 2 * FAtanPos(FSqrt(FDiv(S - x, S + x)))
       ELSE PI - 2 * FAtanPos(FSqrt(FDiv(S + x, S - x)))

RECURSIVE FPow(_, _)
FPow(x, n) == IF n = 0 THEN S ELSE IF n = 1 THEN x ELSE FMul(x, FPow(x, n - 1))

Close(a, b, tol) == LET d == a - b IN d <= tol /\ d >= -tol

(* Total comparison of a recorded value with an expected one (the expected   *)
(* one being of moderate size).                                              *)
Eq(rec, exp, tol) == WF(rec) /\ Close(rec, exp, tol)
=============================================================================
