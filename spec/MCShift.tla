------------------------------ MODULE MCShift ------------------------------
(***************************************************************************)
(* Design of exact decimal formatting: the arithmetic on a buffer of       *)
(* decimal digits that the library falls back on when 64-bit arithmetic    *)
(* does not do (type decimal in internal/strconv/decimal.go).  A decimal   *)
(* 0.d1d2..dnd * 10^dp is multiplied by a power of two in place, one digit *)
(* a step, at most MaxShift bits at a time, and then rounded.              *)
(*                                                                         *)
(* The model keeps the design and shrinks the sizes: Buf digits of buffer  *)
(* (the library: 800), MaxShift bits at a time (28 or 60) in words less    *)
(* than Word (2^32 or 2^64), decimals of at most N digits.  Checked:       *)
(*  - the word never overflows, the buffer is never left, a digit is never *)
(*    overwritten before it is read, and a shift to the left ends at index *)
(*    0: the table of the number of new digits is right (NewDigits);       *)
(*  - the result is the exact product as long as it fits; where it does    *)
(*    not it is cut there, and trunc says so;                              *)
(*  - rounding to any number of digits after one truncation is right.      *)
(***************************************************************************)
EXTENDS Decimal, TLC

CONSTANTS Buf, MaxShift, Word, N,
          ToLeft, ToRight,   \* the largest shifts
          Sticky      \* FALSE: a design that forgets that it cut digits off

VARIABLES m, s,             \* the number and the shift: the exact result is m * 2^s
          d, nd, dp, trunc, \* the decimal; digits of d beyond nd are leftovers
          k, todo,          \* bits of this pass, bits still to do
          r, w, n, grow,    \* read and write index, the word, the digits added
          lost,             \* "no", "now": in the last pass, "before"
          pc
vars == << m, s, d, nd, dp, trunc, k, todo, r, w, n, grow, lost, pc >>

RECURSIVE Ten(_), Pow5(_), DigitsOf(_), Len10(_), Less(_, _), TrimLen(_, _)
Ten(i)      == IF i = 0 THEN 1 ELSE 10 * Ten(i - 1)
Pow5(i)     == IF i = 0 THEN 1 ELSE 5 * Pow5(i - 1)
DigitsOf(x) == IF x = 0 THEN << >> ELSE Append(DigitsOf(x \div 10), x % 10)
Len10(x)    == IF x = 0 THEN 0 ELSE 1 + Len10(x \div 10)
\* digits a against b: a number with the leading digits a is less than one with b
Less(a, b)  == IF b = << >> THEN FALSE ELSE IF a = << >> THEN TRUE
               ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Less(Tail(a), Tail(b))
TrimLen(x, i) == IF i > 0 /\ x[i] = 0 THEN TrimLen(x, i - 1) ELSE i

\* the table: a shift by i bits adds as many digits as 2^i has, one fewer to a
\* number that begins with less than the digits of 5^i
Cutoff == [i \in 1..MaxShift |-> DigitsOf(Pow5(i))]
Delta  == [i \in 1..MaxShift |-> Len10(P2(i))]
NewDigits(i) == Delta[i] - (IF Less(SubSeq(d, 1, nd), Cutoff[i]) THEN 1 ELSE 0)

Init == /\ m \in {x \in 1..(Ten(N) - 1) : x % 10 # 0}
        /\ s \in -ToRight..ToLeft
        /\ d = LET x == DigitsOf(m) IN [i \in 1..Buf |-> IF i <= Len(x) THEN x[i] ELSE 7]
        /\ nd = Len10(m) /\ dp = Len10(m) /\ trunc = FALSE
        /\ k = 0 /\ todo = s /\ r = 0 /\ w = 0 /\ n = 0 /\ grow = 0
        /\ lost = "no" /\ pc = "pick"

Keep == UNCHANGED << m, s >>
Dig(i) == d[i + 1]
\* the digit x goes to index i of the buffer, or is cut off behind its end
Put(i, x) ==
  IF i < Buf
  THEN d' = [d EXCEPT ![i + 1] = x] /\ UNCHANGED << trunc, lost >>
  ELSE /\ UNCHANGED d
       /\ trunc' = (trunc \/ (Sticky /\ x # 0))
       /\ lost' = (IF x # 0 /\ lost = "no" THEN "now" ELSE lost)

Pick ==
  /\ pc = "pick"
  /\ LET j == Min2(MaxShift, Max2(todo, -todo))
     IN IF todo = 0
        THEN pc' = "done" /\ UNCHANGED << k, todo, r, w, n, grow, lost >>
        ELSE /\ k' = j /\ n' = 0
             /\ lost' = (IF lost = "now" THEN "before" ELSE lost)
             /\ IF todo > 0
                THEN /\ todo' = todo - j /\ grow' = NewDigits(j)
                     /\ r' = nd /\ w' = nd + NewDigits(j) /\ pc' = "left"
                ELSE todo' = todo + j /\ grow' = 0 /\ r' = 0 /\ w' = 0 /\ pc' = "lead"
  /\ UNCHANGED << d, nd, dp, trunc >> /\ Keep

\* to the left: from the last digit to the first, and on while the word lasts
Left ==
  /\ pc = "left"
  /\ IF r > 0 \/ n > 0
     THEN LET t == IF r > 0 THEN n + Dig(r - 1) * P2(k) ELSE n
          IN /\ r' = Max2(r - 1, 0) /\ w' = w - 1
             /\ Put(w - 1, t % 10) /\ n' = t \div 10
             /\ UNCHANGED << nd, dp, pc >>
     ELSE /\ nd' = TrimLen(d, Min2(nd + grow, Buf))
          /\ dp' = dp + grow
          /\ pc' = "pick" /\ UNCHANGED << d, trunc, lost, r, w, n >>
  /\ UNCHANGED << k, todo, grow >> /\ Keep

\* to the right: take digits until the first one of the result shows,
Lead ==
  /\ pc = "lead"
  /\ IF n >= P2(k)
     THEN dp' = dp - (r - 1) /\ pc' = "right" /\ UNCHANGED << r, n >>
     ELSE /\ n' = n * 10 + (IF r < nd THEN Dig(r) ELSE 0)
          /\ r' = r + 1 /\ UNCHANGED << dp, pc >>
  /\ UNCHANGED << d, nd, trunc, k, todo, w, grow, lost >> /\ Keep
\* take one, put one, and put the rest
Right ==
  /\ pc = "right"
  /\ IF r < nd
     THEN /\ Put(w, n \div P2(k)) /\ n' = ((n % P2(k)) * 10) + Dig(r)
          /\ r' = r + 1 /\ w' = w + 1 /\ UNCHANGED << nd, pc >>
     ELSE IF n > 0
     THEN /\ Put(w, n \div P2(k)) /\ n' = (n % P2(k)) * 10
          /\ w' = Min2(w + 1, Buf) /\ UNCHANGED << r, nd, pc >>
     ELSE nd' = TrimLen(d, w) /\ pc' = "pick" /\ UNCHANGED << d, trunc, lost, r, w, n >>
  /\ UNCHANGED << dp, k, todo, grow >> /\ Keep

Next == Pick \/ Left \/ Lead \/ Right
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
TypeOK == /\ nd \in 0..Buf /\ d \in [1..Buf -> 0..9]
          /\ pc \in {"pick", "left", "lead", "right", "done"}
NoOverflow == n < Word /\ (pc = "left" /\ r > 0 => n + Dig(r - 1) * P2(k) < Word)
\* writing never gets ahead of reading
InPlace == /\ pc = "left"  => w >= r /\ (r > 0 \/ n > 0 => w > 0)
           /\ pc = "right" /\ r < nd => w <= r
\* the first digit comes to index 0
NoGap == (pc = "left" /\ r = 0 /\ n = 0) => w = 0
Normal == (pc \in {"pick", "done"} /\ nd > 0) => Dig(0) # 0 /\ Dig(nd - 1) # 0

RECURSIVE Val(_, _)
Val(x, i) == IF i = 0 THEN << >> ELSE MulAdd(Val(x, i - 1), 10, x[i])
D == Val(d, nd)
Product ==   \* the exact result as [D, k]: D * 10^k
  IF s >= 0 THEN StripTens(Shl(FromInt(m), s), 0)
  ELSE LET t == TrailingZeros(FromInt(m))
       IN IF t >= -s THEN StripTens(Shr(FromInt(m), -s), 0)
          ELSE StripTens(MulPow5(FromInt(m), -s), s)

RECURSIVE DropDigits(_, _)
DropDigits(x, i) == IF i <= 0 THEN x ELSE DropDigits(DivMod(x, 10).q, i - 1)

Contract == pc = "done" =>
  LET p == Product
      l == NumDigits(p.D)
  IN /\ lost = "no" => D = p.D /\ dp - nd = p.k /\ ~ trunc
     /\ lost = "now" => /\ trunc /\ l > Buf /\ dp = l + p.k
                        /\ StripTens(DropDigits(p.D, l - Buf), 0).D = D
     /\ lost = "before" => trunc /\ CmpDec(D, dp - nd, FromInt(m), s) < 0

\* rounding to x digits, as the library does it
RoundsUp(x) == IF Dig(x) = 5 /\ x + 1 = nd THEN trunc \/ (x > 0 /\ Dig(x - 1) % 2 # 0)
               ELSE Dig(x) >= 5
RECURSIVE NotNine(_, _)
NotNine(x, i) == IF i = 0 \/ x[i] < 9 THEN i ELSE NotNine(x, i - 1)
Rounded(x) ==     \* [d, dp]
  IF RoundsUp(x)
  THEN LET i == NotNine(d, x)
       IN IF i = 0 THEN [d |-> << 1 >>, dp |-> dp + 1]
          ELSE [d |-> Append(SubSeq(d, 1, i - 1), d[i] + 1), dp |-> dp]
  ELSE [d |-> SubSeq(d, 1, TrimLen(d, x)), dp |-> dp]
RoundOK == (pc = "done" /\ lost # "before") =>
  \A x \in 0..(nd - 1) :
    LET v == Rounded(x)
        k10 == v.dp - Len(v.d)          \* units of the last digit kept
        j  == k10 - (dp - x)            \* the rounded value in units of digit x
    IN IF v.d = << >> THEN RoundsTo(<< >>, dp - x, FromInt(m), s)
       ELSE j >= 0 /\ RoundsTo(MulPow10(Val(v.d, Len(v.d)), j), dp - x, FromInt(m), s)

\* the integer part, rounded
IntegerOK == (pc = "done" /\ lost = "no") =>
  LET RECURSIVE Take(_)
      Take(i) == IF i <= 0 THEN << >> ELSE MulAdd(Take(i - 1), 10, IF i <= nd THEN d[i] ELSE 0)
      up == dp >= 0 /\ dp < nd /\ RoundsUp(dp)
      z  == Take(dp)
  IN RoundsTo(IF up THEN Add(z, One) ELSE z, 0, FromInt(m), s)

Ends == <>(pc = "done")
=============================================================================
