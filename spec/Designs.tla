------------------------------- MODULE Designs -------------------------------
(* The filter bank of each design: the sequence of its kernels, given the     *)
(* documented parameters d and the largest eigenvalue lm.                    *)
EXTENDS Kernels
RECURSIVE Pow2Int(_)
Pow2Int(n) == IF n = 0 THEN 1 ELSE 2 * Pow2Int(n - 1)

Bcast(s, n) == IF Len(s) = n THEN s ELSE [i \in 1..n |-> s[1]]
LogScales(lm, lp, n) == [i \in 1..n |-> LogScale(lm, lp, i - 1, n)]
ScalesOr(d, default) == IF d.scales = <<>> THEN default ELSE d.scales
SqrtSumSq(vs) == FSqrt(FoldLeft(LAMBDA acc, v : acc + FSq(v), 0, vs))

Bank(d, lm, e) ==
  CASE d.design = "heat" ->
         [i \in 1..Len(d.scales) |->
            [name |-> "heat", scale |-> d.scales[i],
             norm |-> IF d.normalize
                      THEN SqrtSumSq([j \in DOMAIN e |->
                             K([name |-> "heat", scale |-> d.scales[i], norm |-> S], e[j], lm)])
                      ELSE S]]
    [] d.design = "wave" ->
         LET n == Max2(Len(d.times), Len(d.speeds))
             t == Bcast(d.times, n)  s == Bcast(d.speeds, n)
         IN [i \in 1..n |-> [name |-> "wave", time |-> t[i], speed |-> s[i]]]
    [] d.design \in {"rectangular", "expwin"} ->
         << [name |-> d.design, min |-> d.min, max |-> d.max, bmin |-> d.bmin, bmax |-> d.bmax,
             slope |-> d.slope] >>
    [] d.design = "hat" ->
         LET s == ScalesOr(d, LogScales(lm, d.lp, d.nf - 1))
         IN << [name |-> "hat low", lp |-> d.lp] >> \o
            [i \in 1..(d.nf - 1) |-> [name |-> "hat band", scale |-> s[i],
                                      norm |-> IF d.normalize THEN FSqrt(s[i]) ELSE S]]
    [] d.design = "abspline" ->
         LET s == ScalesOr(d, LogScales(lm, d.lp, d.nf - 1))
         IN << [name |-> "spline low", lp |-> d.lp] >> \o
            [i \in 1..(d.nf - 1) |-> [name |-> "spline band", scale |-> s[i]]]
    [] d.design = "meyer" ->
         LET s == ScalesOr(d, [i \in 1..(d.nf - 1) |-> FDiv(FDiv(4 * S, 3 * S) * Pow2Int(d.nf - 1 - i), lm)])
         IN << [name |-> "meyer low", scale |-> s[1]] >> \o
            [i \in 1..(d.nf - 1) |-> [name |-> "meyer band", scale |-> s[i]]]
    [] d.design = "tight" ->
         LET s == ScalesOr(d, [i \in 1..(d.nf - 1) |-> FDiv(HALF * Pow2Int(d.nf - 1 - i), lm)])
         IN << [name |-> "tight low", scale |-> s[1]] >> \o
            [i \in 1..(d.nf - 1) |-> [name |-> "tight band", scale |-> s[i]]]
    [] d.design = "half cosine" ->
         [i \in 1..d.nf |-> [name |-> "half cosine", nf |-> d.nf, i |-> i - 1]]
    [] d.design = "itersine" ->
         [i \in 1..d.nf |-> [name |-> "itersine", nf |-> d.nf, i |-> i, overlap |-> d.overlap]]
    [] d.design \in {"held", "simoncelli", "papadakis"} ->
         << [name |-> d.design \o " low", a |-> d.a], [name |-> d.design \o " high", a |-> d.a] >>
    [] d.design = "regular" ->
         << [name |-> "regular low", degree |-> d.degree], [name |-> "regular high", degree |-> d.degree] >>
    [] OTHER -> <<>>

(* The sum of squared responses of the designs that are tight frames with    *)
(* these parameters (0: not documented as tight).                            *)
TightBound(d) ==
  CASE d.design \in {"held", "simoncelli", "papadakis", "regular"} -> S
    [] d.design \in {"meyer", "tight"} /\ d.scales = <<>> -> S
    [] d.design = "itersine" /\ d.overlap % 2 = 0 -> S
    [] d.design = "half cosine" -> 1125000
    [] OTHER -> 0
=============================================================================
