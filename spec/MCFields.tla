------------------------------ MODULE MCFields ------------------------------
(***************************************************************************)
(* The 16-bit formats exhaustively: a walk over all non-negative encodings *)
(* that are not NaN.  The specification's Decode is pinned down without    *)
(* reference to its formula: zero decodes to zero, consecutive encodings   *)
(* differ by the unit in the last place of the lower one, infinity follows *)
(* the largest finite number, and the sign bit negates.  Between each two  *)
(* consecutive numbers Encode switches from one to the other exactly in    *)
(* the middle, where the even encoding wins.                               *)
(***************************************************************************)
EXTENDS Nearest, TLC

CONSTANT Names
VARIABLES name, i
vars == << name, i >>

f == Format(name)
InfEnc == MaxExp(f) * P2(f.p - 1)
Segment == 512
Init == name \in Names /\ i \in {j \in 0..(InfEnc - 1) : j % Segment = 0}
Next == /\ i + 1 < InfEnc
        /\ (i + 1) % Segment # 0
        /\ i' = i + 1 /\ UNCHANGED name
Spec == Init /\ [][Next]_vars

Enc(j) == << j >>
Num(j) == Decode(f, Enc(j))
\* the exponent field, and the unit in the last place it means
Field == i \div P2(f.p - 1)
Unit == NFin(0, One, QMin(f) + Max2(Field, 1) - 1)
Next_ == AddFin(Num(i), Unit, 0)                 \* the next number
Half_ == AddFin(Num(i), [Unit EXCEPT !.e = @ - 1], 0)
Tiny == NFin(0, One, Unit.e - 200)
After == AddFin(Half_, Tiny, 0)
Before == AddFin(Half_, Neg(Tiny), 0)

ZeroFirst == Num(0) = NZero(0)
Step == IF i + 1 = InfEnc THEN Num(i + 1) = NInf(0) /\ Next_ = NFin(0, One, Bias(f) + 1)
        ELSE Num(i + 1) = Next_
Signs == /\ Decode(f, Enc(i + 32768)) = Neg(Num(i))
         /\ Canonical(f, Enc(i))
Exact == Encode(f, Num(i)) = Enc(i) /\ Encode(f, Neg(Num(i))) = Enc(i + 32768)
Switch == /\ Encode(f, Before) = Enc(i)
          /\ Encode(f, After) = Enc(i + 1)
          /\ Encode(f, Half_) = Enc(IF i % 2 = 0 THEN i ELSE i + 1)
          /\ Encode(f, Neg(Before)) = Enc(i + 32768)
          /\ Encode(f, Neg(After)) = Enc(i + 1 + 32768)
          /\ Encode(f, Neg(Half_)) = Enc(32768 + IF i % 2 = 0 THEN i ELSE i + 1)
Fields == /\ ExpField(f, Enc(i)) = Field
          /\ FracField(f, Enc(i)) = FromInt(i % P2(f.p - 1))
          /\ SignField(Enc(i)) = 0 /\ SignField(Enc(i + 32768)) = 1
\* every encoding above infinity is NaN
NaNs == i = 0 => \A j \in (InfEnc + 1)..32767 :
          Decode(f, Enc(j)) = NNaN(0) /\ Decode(f, Enc(j + 32768)) = NNaN(1)
=============================================================================
