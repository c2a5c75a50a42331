----------------------------- MODULE ChebyshevMC -----------------------------
(* Laws of the expansions, over degrees, orders, quadratures and points:      *)
(* polynomials are reproduced, more quadrature changes nothing, the damped    *)
(* expansion of a band stays between zero and one.                           *)
EXTENDS Chebyshev
CONSTANT MAXM
VARIABLES deg, m, q, phase
LM == 3 * S
Coef == <<300000, -500000, 200000, 400000, -300000>>
Ker == [name |-> "scaled poly", c |-> SubSeq(Coef, 1, deg + 1), unit |-> LM]
Points == {0, 100000, 750000, 1500000, 2200000, 3000000}
Init == deg \in 0..4 /\ m \in 1..MAXM /\ q \in 1..(MAXM + 3) /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED <<deg, m, q>>
Spec == Init /\ [][Next]_<<deg, m, q, phase>>
Reproduced ==
  deg <= m /\ q > m => LET c == Coeffs(Ker, LM, m, q)
             IN /\ \A x \in Points : Close(Expansion(c, x, LM), K(Ker, x, LM), 60)
                /\ \A k \in 1..(m + 1) : k > deg + 1 => Abs(c[k]) <= 30
Damped ==
  deg = 0 /\ q = 1 =>
  \A A \in {-S, -500000, 100000}, B \in {200000, 700000, S} :
    LET b == BandCoeffs(A, B, m)
        c == [k \in 1..(m + 1) |-> FMul(b[k], Jackson(k - 1, m))]
    IN \A x \in Points : LET v == Expansion(c, x, LM) IN v >= -200 /\ v <= S + 200
=============================================================================
