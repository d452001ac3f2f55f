------------------------------- MODULE Nearest -------------------------------
(***************************************************************************)
(* What "the nearest representable number, ties to even" means, said       *)
(* without an algorithm, to check the algorithm EncodeParts against.       *)
(***************************************************************************)
EXTENDS DoubleDouble

\* -1, 0, 1 as |x - a| is less than, equal to, greater than |x - b|
CmpDist(x, a, b) ==
  LET da == Abs(AddFin(x, Neg(a), 0))
      db == Abs(AddFin(x, Neg(b), 0))
  IN CmpNum(da, db)

\* all finite non-negative numbers of a (small) format, with their parts
Finite(f) == {[k |-> "fin", s |-> 0, eb |-> eb, sig |-> FromInt(sig)] :
                eb \in 0..0, sig \in 0..(P2(f.p - 1) - 1)}
             \cup {[k |-> "fin", s |-> 0, eb |-> eb, sig |-> FromInt(sig)] :
                eb \in 1..(MaxExp(f) - 1), sig \in P2(f.p - 1)..(P2(f.p) - 1)}

\* the first number too large to round to a finite one:
\* half a unit above the largest finite number
Threshold(f) == NFin(0, Sub(Pow2Big(f.p + 1), One), QMin(f) + MaxExp(f) - 3)

\* parts r are the nearest to x > 0 among all numbers of small format f
NearestOf(f, x, r) ==
  IF CmpNum(x, Threshold(f)) >= 0 THEN r.k = "inf"
  ELSE /\ r.k = "fin"
       /\ \A v \in Finite(f) :
            LET c == CmpDist(x, PartsValue(f, r), PartsValue(f, v))
            IN \/ c < 0
               \/ c = 0 /\ ((v.sig = r.sig /\ v.eb = r.eb) \/ ~ IsOdd(r.sig))

\* the same for any format, looking only at the two neighbours of r
AboveOf(f, r) == NFin(r.s, Add(r.sig, One), QMin(f) + Max2(r.eb, 1) - 1)
BelowOf(f, r) ==
  IF r.sig = << >> THEN NFin(1 - r.s, One, QMin(f))
  ELSE IF r.sig = Pow2Big(f.p - 1) /\ r.eb > 1
       THEN NFin(r.s, Sub(Shl(r.sig, 1), One), QMin(f) + r.eb - 2)
       ELSE NFin(r.s, Sub(r.sig, One), QMin(f) + Max2(r.eb, 1) - 1)
NearestLocally(f, x, r) ==
  IF CmpNum(Abs(x), Threshold(f)) >= 0 THEN r.k = "inf" /\ r.s = x.s
  ELSE /\ r.k = "fin" /\ r.s = x.s
       /\ r.eb \in 0..(MaxExp(f) - 1)
       /\ IF r.eb = 0 THEN BitLen(r.sig) < f.p ELSE BitLen(r.sig) = f.p
       /\ LET v == PartsValue(f, r)
              a == CmpDist(x, v, AboveOf(f, r))
              b == CmpDist(x, v, BelowOf(f, r))
          IN /\ a < 0 \/ (a = 0 /\ ~ IsOdd(r.sig))
             /\ b < 0 \/ (b = 0 /\ ~ IsOdd(r.sig))
=============================================================================
