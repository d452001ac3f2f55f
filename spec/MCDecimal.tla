------------------------------ MODULE MCDecimal ------------------------------
(***************************************************************************)
(* The decimal relations checked by brute force on a small format: for     *)
(* every finite number v > 0 all decimals D * 10^k with D < 1000 are       *)
(* enumerated with TLC's own integers, scaled by 10^4 * 2^S.               *)
(***************************************************************************)
EXTENDS Decimal, FiniteSets, TLC

CONSTANT P_, W_
f == [name |-> "toy", p |-> P_, w |-> W_, x |-> FALSE, n |-> 1]

VARIABLES eb, sig
vars == << eb, sig >>
Init == eb = 0 /\ sig = 1
\* successor in the order of the numbers
Next == \/ /\ sig < P2(f.p) - 1 /\ (eb > 0 \/ sig < P2(f.p - 1) - 1)
           /\ sig' = sig + 1 /\ UNCHANGED eb
        \/ /\ ~ (sig < P2(f.p) - 1 /\ (eb > 0 \/ sig < P2(f.p - 1) - 1))
           /\ eb < MaxExp(f) - 1
           /\ eb' = eb + 1 /\ sig' = P2(f.p - 1)
Spec == Init /\ [][Next]_vars

r == [k |-> "fin", s |-> 0, eb |-> eb, sig |-> FromInt(sig)]
q == QMin(f) + Max2(eb, 1) - 1
S == 2 - QMin(f)                  \* quarter units are integers
RECURSIVE Ten(_)
Ten(n) == IF n = 0 THEN 1 ELSE 10 * Ten(n - 1)
KMin == -4
KMax == 1
\* scaled values: integer multiples of 2^-S * 10^-4
Unit == P2(q - 2 + S) * Ten(4)                \* a quarter of an ulp
LoQ  == IF sig = P2(f.p - 1) /\ eb > 1 THEN 4 * sig - 1 ELSE 4 * sig - 2
Lo   == LoQ * Unit
Hi   == (4 * sig + 2) * Unit
Val  == 4 * sig * Unit
Dec(D, k) == D * Ten(4 + k) * P2(S)
Inside(D, k) == LET t == Dec(D, k) IN IF sig % 2 = 0 THEN t >= Lo /\ t <= Hi ELSE t > Lo /\ t < Hi
Dist(t) == IF t > Val THEN t - Val ELSE Val - t

Ds(n) == Ten(n - 1)..(Ten(n) - 1)
Digits3 == 2
Cand(n) == {<< D, k >> \in Ds(n) \X (KMin..KMax) : Inside(D, k)}
Best == LET n == CHOOSE n \in 1..Digits3 : Cand(n) # {} /\ \A j \in 1..(n - 1) : Cand(j) = {}
            C == Cand(n)
            m == CHOOSE m \in {Dist(Dec(c[1], c[2])) : c \in C} : \A c \in C : m <= Dist(Dec(c[1], c[2]))
        IN {c \in C : Dist(Dec(c[1], c[2])) = m}

\* the relation holds of exactly the brute-force answers
ShortestOK ==
  LET B == Best IN
  \A D \in 1..(Ten(Digits3) + 20), k \in KMin..KMax :
    (<< D, k >> \in B) <=> IsShortest(f, r, FromInt(D), k)
\* exact decimals
ExactOK ==
  LET x == NFin(0, r.sig, q)
  IN IsExact(f, x) <=> (\E b \in Best : Dec(b[1], b[2]) = Val)
\* rounding to a multiple of 10^k: exactly the nearest, ties to even
RoundOK ==
  \A k \in KMin..KMax :
    LET mid == Val \div Dec(1, k)
        ok  == {D \in ((IF mid > 20 THEN mid - 20 ELSE 0)..(mid + 20)) : RoundsTo(FromInt(D), k, r.sig, q)}
    IN /\ Cardinality(ok) = 1
       /\ \A D \in ok : \A d \in {D - 1, D + 1} :
            \/ Dist(Dec(D, k)) < Dist(Dec(d, k))
            \/ Dist(Dec(D, k)) = Dist(Dec(d, k)) /\ D % 2 = 0
\* rounding to n significant digits
DigitsOK_ ==
  \A n \in 1..2 :
    LET ok == {<< D, k >> \in Ds(n) \X (KMin..KMax) : RoundsToDigits(FromInt(D), k, n, r.sig, q)}
        \* values with n digits whose last one is above the finest grid
        near == Val >= Dec(Ten(n - 1), KMin) /\ Val < Dec(Ten(n) - 1, KMax)
        m == CHOOSE m \in {Dist(Dec(D, k)) : D \in Ds(n), k \in KMin..KMax} :
               \A D \in Ds(n), k \in KMin..KMax : m <= Dist(Dec(D, k))
    IN near => /\ Cardinality(ok) = 1
               /\ \A c \in ok : Dist(Dec(c[1], c[2])) = m
=============================================================================
