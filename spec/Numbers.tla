------------------------------ MODULE Numbers ------------------------------
(***************************************************************************)
(* The numbers all formats denote: extended dyadic rationals with signed   *)
(* zeros and infinities, plus Not-a-Number.  This is the abstract value of *)
(* a math/big.Float (which has no NaN) together with the "is NaN" flag the *)
(* library returns next to it.                                             *)
(*                                                                         *)
(*   [k |-> "zero", s |-> sign, m |-> << >>, e |-> 0]                      *)
(*   [k |-> "fin",  s |-> sign, m |-> odd BigNat, e |-> Int]               *)
(*        denotes (-1)^s * m * 2^e; m odd makes the representation unique  *)
(*   [k |-> "inf",  s |-> sign, ...]      [k |-> "nan", s |-> sign, ...]   *)
(***************************************************************************)
EXTENDS BigNat

NZero(s) == [k |-> "zero", s |-> s, m |-> << >>, e |-> 0]
NInf(s)  == [k |-> "inf",  s |-> s, m |-> << >>, e |-> 0]
NNaN(s)  == [k |-> "nan",  s |-> s, m |-> << >>, e |-> 0]
\* (-1)^s * m * 2^e for any m, normalized
NFin(s, m, e) ==
  IF m = << >> THEN NZero(s)
  ELSE LET t == TrailingZeros(m)
       IN [k |-> "fin", s |-> s, m |-> Shr(m, t), e |-> e + t]

IsNumber(x) ==
  /\ x.k \in {"zero", "fin", "inf", "nan"}
  /\ x.s \in {0, 1}
  /\ IF x.k = "fin" THEN IsBigNat(x.m) /\ IsOdd(x.m)
                    ELSE x.m = << >> /\ x.e = 0

Neg(x) == [x EXCEPT !.s = 1 - x.s]
Abs(x) == [x EXCEPT !.s = 0]

\* position of the most significant bit: 2^Msb(x) <= |x| < 2^(Msb(x)+1)
Msb(x) == BitLen(x.m) + x.e - 1

\* |m1 * 2^e1| compared with |m2 * 2^e2|, both non-zero
CmpMag(m1, e1, m2, e2) ==
  LET t1 == BitLen(m1) + e1
      t2 == BitLen(m2) + e2
  IN IF t1 < t2 THEN -1 ELSE IF t1 > t2 THEN 1
     ELSE IF e1 = e2 THEN Cmp(m1, m2)
     ELSE IF e1 > e2 THEN Cmp(Shl(m1, e1 - e2), m2)
     ELSE Cmp(m1, Shl(m2, e2 - e1))

Rank(x) == IF x.k = "zero" THEN 0
           ELSE IF x.s = 1 THEN (IF x.k = "inf" THEN -2 ELSE -1)
           ELSE (IF x.k = "inf" THEN 2 ELSE 1)

\* order of the extended reals: -1, 0, 1 (x, y not NaN; -0 = +0)
CmpNum(x, y) ==
  LET rx == Rank(x)
      ry == Rank(y)
  IN IF rx < ry THEN -1 ELSE IF rx > ry THEN 1
     ELSE IF x.k # "fin" THEN 0
     ELSE LET c == CmpMag(x.m, x.e, y.m, y.e) IN IF x.s = 1 THEN -c ELSE c

\* exact sum of finite numbers; an exact cancellation gives zero with sign z
AddFin(x, y, z) ==
  IF x.k = "zero" /\ y.k = "zero" THEN NZero(IF x.s = y.s THEN x.s ELSE z)
  ELSE IF x.k = "zero" THEN y
  ELSE IF y.k = "zero" THEN x
  ELSE LET e  == Min2(x.e, y.e)
           mx == Shl(x.m, x.e - e)
           my == Shl(y.m, y.e - e)
       IN IF x.s = y.s THEN NFin(x.s, Add(mx, my), e)
          ELSE LET c == Cmp(mx, my)
               IN IF c = 0 THEN NZero(z)
                  ELSE IF c > 0 THEN NFin(x.s, Sub(mx, my), e)
                  ELSE NFin(y.s, Sub(my, mx), e)

\* number of significant bits a finite number needs
MinPrec(x) == BitLen(x.m)
=============================================================================
