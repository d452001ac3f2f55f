------------------------------ MODULE MCBigNat ------------------------------
(***************************************************************************)
(* BigNat against TLC's own integers on small operands, against algebraic  *)
(* identities on large ones, and -- when the Java override of BigNat is on *)
(* the class path -- against BigNatPure, the same definitions under a name *)
(* that has no override.                                                   *)
(***************************************************************************)
EXTENDS BigNat, TLC

Pure == INSTANCE BigNatPure

Small == {0, 1, 2, 3, 7, 8, 255, 256, 999, 1000, 16383, 32767, 32768, 65535, 65536, 65537, 99999,
          131071, 131072, 1048576, 16777215, 16777216, 268435455, 536870912}
Rnd(a, n) == [j \in 1..n |-> (a * (7919 * j + 104729 \div (j + 1)) + 31 * j * j) % 65536] \o << >>
Big == {Pure!FromInt(n) : n \in Small}
       \cup {Pure!Shl(<< 1 >>, k) : k \in {15, 16, 17, 31, 32, 63, 64, 112, 113, 200}}
       \cup {Pure!Sub(Pure!Shl(<< 1 >>, k), << 1 >>) : k \in {16, 32, 33, 63, 64, 65, 113, 128, 160}}
       \cup {Pure!Add(Pure!Shl(<< 1 >>, k), << 1 >>) : k \in {16, 48, 64, 127}}
       \cup {Pure!Norm(Rnd(a, n)) : a \in {1, 3, 11}, n \in {2, 4, 5, 8, 13}}
Shifts == {0, 1, 2, 15, 16, 17, 31, 32, 47, 48, 63, 64, 100, 113, 130, 260}
Smalls == {1, 2, 3, 10, 100, 255, 1000, 10000, 15625, 32767}

VARIABLES a, b
vars == << a, b >>
Init == a \in Big /\ b = << >>
Next == b = << >> /\ b' \in Big /\ UNCHANGED a      \* spread over TLC's workers
\* division bit by bit is slow: not for every pair of large operands
DivPair == b # << >> /\ (Len(a) <= 4 \/ Len(b) \in {1, 4})
Spec == Init /\ [][Next]_vars

Canon == IsBigNat(a) /\ IsBigNat(b)
Binary ==
  /\ Add(a, b) = Pure!Add(a, b)
  /\ Cmp(a, b) = Pure!Cmp(a, b)
  /\ Mul(a, b) = Pure!Mul(a, b)
  /\ DivPair => DivBig(a, b) = Pure!DivBig(a, b)
  /\ (Pure!Cmp(a, b) >= 0) => Sub(a, b) = Pure!Sub(a, b)
Unary == (b = a) =>
  /\ BitLen(a) = Pure!BitLen(a)
  /\ a # << >> => TrailingZeros(a) = Pure!TrailingZeros(a)
  /\ \A k \in Shifts : /\ Shl(a, k) = Pure!Shl(a, k)
                       /\ Shr(a, k) = Pure!Shr(a, k)
                       /\ LowZero(a, k) = Pure!LowZero(a, k)
                       /\ RoundShr(a, k) = Pure!RoundShr(a, k)
                       /\ RoundShr(a, -k) = Pure!RoundShr(a, -k)
                       /\ Pow2Big(k) = Pure!Pow2Big(k)
                       /\ MulPow5(a, k) = Pure!MulPow5(a, k)
                       /\ MulPow10(a, k) = Pure!MulPow10(a, k)
  /\ \A n \in Smalls : /\ DivMod(a, n) = Pure!DivMod(a, n)
                       /\ MulAdd(a, n, 77) = Pure!MulAdd(a, n, 77)
                       /\ FromDigits(a, n) = Pure!FromDigits(a, n)
                       /\ n > 1 => ToDigits(a, n) = Pure!ToDigits(a, n)
\* the definitions themselves
Laws ==
  /\ Pure!Sub(Pure!Add(a, b), b) = a
  /\ Pure!Add(a, b) = Pure!Add(b, a)
  /\ Pure!Mul(a, b) = Pure!Mul(b, a)
  /\ Pure!Mul(a, Pure!Add(b, << 1 >>)) = Pure!Add(Pure!Mul(a, b), a)
  /\ DivPair => LET d == Pure!DivBig(a, b)
                  IN Pure!Add(Pure!Mul(d.q, b), d.r) = a /\ Pure!Cmp(d.r, b) < 0
  /\ Pure!Cmp(a, b) = -Pure!Cmp(b, a)
  /\ Pure!Cmp(Pure!Add(a, << 1 >>), a) = 1
  /\ Pure!IsBigNat(Pure!Add(a, b)) /\ Pure!IsBigNat(Pure!Mul(a, b))
LawsUnary == (b = a) =>
  /\ \A n \in Smalls : LET d == Pure!DivMod(a, n)
                       IN /\ d.r \in 0..(n - 1)
                          /\ n > 1 => Pure!FromDigits(Pure!ToDigits(a, n), n) = a
                          /\ Pure!MulAdd(d.q, n, 0) = Pure!Sub(a, Pure!FromInt(d.r))
  /\ \A k \in Shifts : /\ Pure!Shr(Pure!Shl(a, k), k) = a
                       /\ Pure!Shl(a, k) = Pure!Mul(a, Pure!Shl(<< 1 >>, k))
                       /\ LET h == Pure!Shl(Pure!Shr(a, k), k)
                          IN Pure!Cmp(h, a) <= 0 /\ Pure!Cmp(Pure!Sub(a, h), Pure!Shl(<< 1 >>, k)) < 0
                       /\ Pure!LowZero(a, k) = (Pure!Shl(Pure!Shr(a, k), k) = a)
SmallLaws == \A m, n \in {c \in Small : c < 40000} : (a = Pure!FromInt(m) /\ b = Pure!FromInt(n)) =>
  /\ Pure!ToInt(Pure!Add(a, b)) = m + n
  /\ m >= n => Pure!ToInt(Pure!Sub(a, b)) = m - n
  /\ Pure!ToInt(Pure!Mul(a, b)) = m * n
  /\ Pure!Cmp(a, b) = (IF m < n THEN -1 ELSE IF m > n THEN 1 ELSE 0)
  /\ Pure!ToInt(Pure!RoundShr(a, 1)) = (IF m % 4 = 3 THEN m \div 2 + 1 ELSE m \div 2)
=============================================================================
