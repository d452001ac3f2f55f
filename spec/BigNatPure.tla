------------------------------- MODULE BigNatPure -------------------------------
(***************************************************************************)
(* Arbitrary-precision naturals.  TLC's integers are 32-bit, while the     *)
(* formats specified here have up to 128-bit encodings and the exact       *)
(* values behind them (double-double sums, decimal expansions) need a few  *)
(* thousand bits, so magnitudes are little-endian sequences of base-2^16   *)
(* limbs.  A BigNat is canonical when its last (most significant) limb is  *)
(* not 0; zero is << >>.  All operators take and return canonical values   *)
(* unless they say otherwise.  No intermediate result exceeds 2^31-1.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Base == 65536
Zero == << >>
One  == <<1>>

\* 2^i for small i (table: TLC evaluates it once)
Pow2 == << 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192,
           16384, 32768, 65536, 131072, 262144, 524288, 1048576 >>
P2(i) == Pow2[i + 1]

\* TLC represents [i \in 1..n |-> e] lazily; concatenation forces it.
Force(f) == f \o << >>

RECURSIVE Norm(_)
Norm(a) == IF a = << >> THEN a
           ELSE IF a[Len(a)] # 0 THEN a
           ELSE Norm(SubSeq(a, 1, Len(a) - 1))

IsBigNat(a) == /\ \A i \in 1..Len(a) : a[i] \in 0..(Base - 1)
               /\ a # << >> => a[Len(a)] # 0

Limb(a, i) == IF i >= 1 /\ i <= Len(a) THEN a[i] ELSE 0

\* Conversion from and to TLC's (non-negative, 32-bit) integers
FromInt(n) == IF n = 0 THEN << >>
              ELSE IF n < Base THEN << n >>
              ELSE << n % Base, n \div Base >>      \* n < 2^31 < Base^2
ToInt(a) == IF a = << >> THEN 0
            ELSE IF Len(a) = 1 THEN a[1]
            ELSE a[1] + Base * a[2]                 \* only for a < 2^31

\* number of bits of a limb / of a BigNat
LimbLen(n) ==
  IF n >= 256
  THEN IF n >= 4096
       THEN IF n >= 16384 THEN (IF n >= 32768 THEN 16 ELSE 15)
                          ELSE (IF n >= 8192  THEN 14 ELSE 13)
       ELSE IF n >= 1024  THEN (IF n >= 2048  THEN 12 ELSE 11)
                          ELSE (IF n >= 512   THEN 10 ELSE 9)
  ELSE IF n >= 16
       THEN IF n >= 64    THEN (IF n >= 128   THEN 8 ELSE 7)
                          ELSE (IF n >= 32    THEN 6 ELSE 5)
       ELSE IF n >= 4     THEN (IF n >= 8     THEN 4 ELSE 3)
                          ELSE n - (IF n = 3 THEN 1 ELSE 0)
BitLen(a) == IF a = << >> THEN 0 ELSE 16 * (Len(a) - 1) + LimbLen(a[Len(a)])

\* bit i (counted from 0)
Bit(a, i) == (Limb(a, 1 + (i \div 16)) \div P2(i % 16)) % 2
IsOdd(a) == a # << >> /\ a[1] % 2 = 1

\* comparison: -1, 0, 1
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF a[i] < b[i] THEN -1
                    ELSE IF a[i] > b[i] THEN 1
                    ELSE CmpFrom(a, b, i - 1)
Cmp(a, b) == IF Len(a) < Len(b) THEN -1
             ELSE IF Len(a) > Len(b) THEN 1
             ELSE IF a = b THEN 0
             ELSE CmpFrom(a, b, Len(a))
Max2(i, j) == IF i >= j THEN i ELSE j
Min2(i, j) == IF i <= j THEN i ELSE j

RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(a, b, i, carry, acc) ==
  IF i > Len(a) /\ i > Len(b)
  THEN IF carry = 0 THEN acc ELSE Append(acc, carry)
  ELSE LET t == Limb(a, i) + Limb(b, i) + carry
       IN AddFrom(a, b, i + 1, t \div Base, Append(acc, t % Base))
Add(a, b) == IF a = << >> THEN b ELSE IF b = << >> THEN a
             ELSE AddFrom(a, b, 1, 0, << >>)

RECURSIVE SubFrom(_, _, _, _, _)
SubFrom(a, b, i, borrow, acc) ==
  IF i > Len(a) THEN acc
  ELSE LET t == a[i] - Limb(b, i) - borrow
       IN IF t < 0 THEN SubFrom(a, b, i + 1, 1, Append(acc, t + Base))
                   ELSE SubFrom(a, b, i + 1, 0, Append(acc, t))
\* a - b, for a >= b
Sub(a, b) == IF b = << >> THEN a ELSE Norm(SubFrom(a, b, 1, 0, << >>))

RECURSIVE MulFrom(_, _, _, _, _)
MulFrom(a, n, i, carry, acc) ==
  IF i > Len(a) THEN IF carry = 0 THEN acc ELSE Append(acc, carry)
  ELSE LET t == a[i] * n + carry
       IN MulFrom(a, n, i + 1, t \div Base, Append(acc, t % Base))
\* a * n + c for 0 <= n, c < 2^15
MulAdd(a, n, c) == IF n = 0 THEN FromInt(c) ELSE Norm(MulFrom(a, n, 1, c, << >>))

\* quotient and remainder by a small 1 <= n < 2^15
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(a, n, i, rem, acc) ==
  IF i = 0 THEN [q |-> Norm(acc), r |-> rem]
  ELSE LET t == rem * Base + a[i]
       IN DivFrom(a, n, i - 1, t % n, << t \div n >> \o acc)
DivMod(a, n) == DivFrom(a, n, Len(a), 0, << >>)

\* a * 2^k
Shl(a, k) ==
  IF a = << >> \/ k = 0 THEN a
  ELSE LET q == k \div 16
           r == k % 16
           z == Force([i \in 1..q |-> 0])
       IN IF r = 0 THEN z \o a
          ELSE LET lo == P2(r)
                   hi == P2(16 - r)
                   n  == Len(a)
                   top == a[n] \div hi
                   body == Force([i \in 1..n |->
                              (a[i] % hi) * lo + (IF i = 1 THEN 0 ELSE a[i-1] \div hi)])
               IN IF top = 0 THEN z \o body ELSE Append(z \o body, top)

\* floor(a / 2^k)
Shr(a, k) ==
  LET q == k \div 16
      r == k % 16
      n == Len(a) - q
  IN IF n <= 0 THEN << >>
     ELSE IF r = 0 THEN SubSeq(a, q + 1, Len(a))
     ELSE LET lo == P2(r)
              hi == P2(16 - r)
              body == Force([i \in 1..n |->
                         (a[i + q] \div lo)
                         + (IF i = n THEN 0 ELSE (a[i + q + 1] % lo) * hi)])
          IN Norm(body)

\* are the k low bits of a all zero?
LowZero(a, k) ==
  LET q == Min2(k \div 16, Len(a))
  IN /\ \A i \in 1..q : a[i] = 0
     /\ Limb(a, (k \div 16) + 1) % P2(k % 16) = 0

\* number of trailing zero bits of a # 0
RECURSIVE LimbTz(_)
LimbTz(n) == IF n % 2 = 1 THEN 0 ELSE 1 + LimbTz(n \div 2)
RECURSIVE TzFrom(_, _)
TzFrom(a, i) == IF a[i] = 0 THEN TzFrom(a, i + 1) ELSE 16 * (i - 1) + LimbTz(a[i])
TrailingZeros(a) == TzFrom(a, 1)

\* a / 2^k rounded to an integer, ties to even
RoundShr(a, k) ==
  IF k <= 0 THEN Shl(a, -k)
  ELSE IF k > BitLen(a) + 1 THEN << >>
  ELSE LET q    == Shr(a, k)
           half == Bit(a, k - 1) = 1
           rest == ~ LowZero(a, k - 1)
       IN IF half /\ (rest \/ IsOdd(q)) THEN Add(q, One) ELSE q

\* 2^k
Pow2Big(k) == Shl(One, k)

\* general product, one factor consumed bytewise
RECURSIVE MulBytes(_, _, _, _)
MulBytes(a, b, i, acc) ==
  IF i = 0 THEN acc
  ELSE LET hi == b[i] \div 256
           lo == b[i] % 256
           t1 == Add(MulAdd(acc, 256, 0), MulAdd(a, hi, 0))
           t2 == Add(MulAdd(t1, 256, 0), MulAdd(a, lo, 0))
       IN MulBytes(a, b, i - 1, t2)
Mul(a, b) == IF a = << >> \/ b = << >> THEN << >>
             ELSE IF Len(a) >= Len(b) THEN MulBytes(a, b, Len(b), << >>)
             ELSE MulBytes(b, a, Len(a), << >>)

\* a * 10^k,  a * 5^k
RECURSIVE MulPow10(_, _)
MulPow10(a, k) == IF k >= 4 THEN MulPow10(MulAdd(a, 10000, 0), k - 4)
                  ELSE IF k = 3 THEN MulAdd(a, 1000, 0)
                  ELSE IF k = 2 THEN MulAdd(a, 100, 0)
                  ELSE IF k = 1 THEN MulAdd(a, 10, 0)
                  ELSE a
RECURSIVE MulPow5(_, _)
MulPow5(a, k) == IF k >= 6 THEN MulPow5(MulAdd(a, 15625, 0), k - 6)
                 ELSE IF k >= 1 THEN MulPow5(MulAdd(a, 5, 0), k - 1)
                 ELSE a

\* quotient and remainder of a by b # 0, one bit of a at a time
RECURSIVE DivBits(_, _, _, _, _)
DivBits(a, b, i, q, r) ==
  IF i < 0 THEN [q |-> q, r |-> r]
  ELSE LET t == Add(Shl(r, 1), IF Bit(a, i) = 1 THEN One ELSE << >>)
           c == Cmp(t, b) >= 0
       IN DivBits(a, b, i - 1, Add(Shl(q, 1), IF c THEN One ELSE << >>),
                  IF c THEN Sub(t, b) ELSE t)
DivBig(a, b) == DivBits(a, b, BitLen(a) - 1, << >>, << >>)

\* value of a sequence of digits in base n < 2^15, most significant first
RECURSIVE FromDigitsAcc(_, _, _, _)
FromDigitsAcc(ds, n, i, acc) ==
  IF i > Len(ds) THEN acc ELSE FromDigitsAcc(ds, n, i + 1, MulAdd(acc, n, ds[i]))
FromDigits(ds, n) == FromDigitsAcc(ds, n, 1, << >>)

\* digits of a in base n < 2^15, most significant first (none for 0)
RECURSIVE ToDigitsAcc(_, _, _)
ToDigitsAcc(a, n, acc) ==
  IF a = << >> THEN acc ELSE LET d == DivMod(a, n) IN ToDigitsAcc(d.q, n, << d.r >> \o acc)
ToDigits(a, n) == ToDigitsAcc(a, n, << >>)
=============================================================================
