------------------------------- MODULE MCGrisu -------------------------------
(***************************************************************************)
(* Design of the fast decimal formatting (type extFloat in                 *)
(* internal/strconv/extfloat.go): digits are found with one multiplication *)
(* by a rounded power of ten in words of W bits, and an error bound        *)
(* decides whether they are certain; where they are not, the library does  *)
(* the exact arithmetic of MCShift and MCShortest.                         *)
(*                                                                         *)
(* The model shrinks the word (the library: 64 bits), the table of powers  *)
(* (every power instead of every eighth), the window of exponents and the  *)
(* format, and keeps everything else, one digit a step; where more than    *)
(* one power of ten fits it takes each.  Checked for every finite positive *)
(* number of a small format:                                               *)
(*  - certain digits are right: the shortest ones (IsShortest), or the     *)
(*    number rounded to n digits;                                          *)
(*  - no word overflows, but for the product with the multiplier, where    *)
(*    the comparison comes out as if it did not;                           *)
(*  - a digit is a digit, and the loops end.                               *)
(*                                                                         *)
(* Unit is the error assumed for a scaled number.  TLC refutes Unit = 0.   *)
(***************************************************************************)
EXTENDS Decimal, TLC

CONSTANTS Formats_,    \* set of 10 * p + w
          W,           \* bits of a word
          Window,      \* binary exponents of a scaled number: Window values
          Digits_,     \* numbers of digits asked for; 0: the shortest
          Unit

VARIABLES f, r, n,     \* format, parts of the number, digits wanted
          lo, md, up,  \* mantissas of the bounds and the number: * 2^ex
          ex, e10,     \* their exponent; the number was scaled by 10^-e10
          int, frac, pow, mult, left,   \* what is left of the number
          d, dp, num, den,
          cur, tgt, max, ulpD, ulpB,
          pc, sure
vars == << f, r, n, lo, md, up, ex, e10, int, frac, pow, mult, left, d, dp, num, den,
           cur, tgt, max, ulpD, ulpB, pc, sure >>

RECURSIVE Ten(_), DigitsOf(_), Bits(_)
Ten(i)      == IF i = 0 THEN 1 ELSE 10 * Ten(i - 1)
DigitsOf(x) == IF x = 0 THEN << >> ELSE Append(DigitsOf(x \div 10), x % 10)
Bits(x)     == IF x = 0 THEN 0 ELSE 1 + Bits(x \div 2)
M == P2(W)

ExpMin == -(W - 4)                \* ten times a fraction still fits
ExpMax == ExpMin + Window - 1

\* 10^k as [m, e]: m * 2^e, m of W bits, nearest
Scaled(k) ==
  LET \* 5^k, or 2^s / 5^-k with s large enough to be exact to the last bit that matters
      five == MulPow5(One, IF k < 0 THEN -k ELSE k)
      up0(q) == LET b == BitLen(q)
                    m0 == RoundShr(q, b - W)
                    c == BitLen(m0) > W
                IN [m |-> ToInt(IF c THEN Shr(m0, 1) ELSE m0), e |-> (b - W) + (IF c THEN 1 ELSE 0)]
  IN IF k >= 0 THEN LET x == up0(five) IN [m |-> x.m, e |-> x.e + k]
     ELSE LET s == 3 * W + BitLen(five)
              \* the quotient with a sticky last bit
              q == DivBig(Pow2Big(s), five)
              x == up0(Add(Shl(q.q, 1), IF q.r = << >> THEN << >> ELSE One))
          IN [m |-> x.m, e |-> (x.e - s - 1) + k]
KMax == 12
Power == [k \in -KMax..KMax |-> Scaled(k)]

\* product of two words, the upper half, rounded half up
Times(a, b) == (a * b + P2(W - 1)) \div M

FormatOf(g) == [name |-> "toy", p |-> g \div 10, w |-> g % 10, x |-> FALSE, n |-> 1]
Numbers_(g) ==
  {[eb |-> 0, sig |-> z] : z \in 1..(P2(g.p - 1) - 1)}
  \cup {[eb |-> eb, sig |-> z] : eb \in 1..(MaxExp(g) - 1), z \in P2(g.p - 1)..(P2(g.p) - 1)}
Q == QMin(f) + Max2(r.eb, 1) - 1             \* the number is sig * 2^Q
Int_ == Q <= 0 /\ r.sig % P2(-Q) = 0

Init == /\ f \in {FormatOf(g) : g \in Formats_}
        /\ r \in Numbers_(f)
        /\ n \in Digits_
        /\ lo = 0 /\ md = 0 /\ up = 0 /\ ex = 0 /\ e10 = 0
        /\ int = 0 /\ frac = 0 /\ pow = 0 /\ mult = 1 /\ left = 0
        /\ d = << >> /\ dp = 0 /\ num = 0 /\ den = 1
        /\ cur = 0 /\ tgt = 0 /\ max = 0 /\ ulpD = 0 /\ ulpB = 0
        /\ sure = FALSE
        /\ pc = (IF n = 0 THEN "bounds" ELSE "fixed")

Keep == UNCHANGED << f, r, n >>
Adj  == << cur, tgt, max, ulpD, ulpB >>
RECURSIVE TrimZ(_)
TrimZ(x) == IF x # << >> /\ x[Len(x)] = 0 THEN TrimZ(SubSeq(x, 1, Len(x) - 1)) ELSE x
NumDig(x) == Len(DigitsOf(x))

-----------------------------------------------------------------------------
(* shortest *)

Bounds ==
  /\ pc = "bounds"
  /\ IF Int_
     THEN LET x == DigitsOf(r.sig \div P2(-Q))
          IN /\ d' = TrimZ(x) /\ dp' = Len(x) /\ sure' = TRUE /\ pc' = "done"
             /\ UNCHANGED << lo, md, up, ex, e10, int, frac, left >>
     ELSE \E k \in -KMax..KMax :
          LET u0 == 2 * r.sig + 1
              sh == W - Bits(u0)
              l0 == IF r.sig = P2(f.p - 1) /\ r.eb > 1 THEN (4 * r.sig - 1) * P2(sh - 1)
                    ELSE (2 * r.sig - 1) * P2(sh)
              e  == (Q - 1) - sh
              z  == e + Power[k].e + W
          IN /\ z \in ExpMin..ExpMax
             /\ lo' = Times(l0, Power[k].m) - Unit
             /\ md' = Times(2 * r.sig * P2(sh), Power[k].m)
             /\ up' = Times(u0 * P2(sh), Power[k].m) + Unit
             /\ ex' = z /\ e10' = -k
             /\ int' = up' \div P2(-z) /\ frac' = up' % P2(-z)
             /\ left' = NumDig(int')
             /\ dp' = NumDig(int') - k
             /\ pc' = "int" /\ UNCHANGED << d, sure >>
  /\ UNCHANGED << pow, mult, num, den, Adj >> /\ Keep

allowance == up - lo
target    == up - md

Adjust(c, t, m, ud, ub) == /\ cur' = c /\ tgt' = t /\ max' = m /\ ulpD' = ud /\ ulpB' = ub
                           /\ pc' = (IF ud < 2 * ub THEN "done" ELSE "adjust")
IntDigits ==
  /\ pc = "int"
  /\ IF left = 0 THEN pc' = "frac" /\ UNCHANGED << d, int, left, Adj >>
     ELSE LET p10 == Ten(left - 1)
              rest == int % p10
          IN /\ d' = Append(d, int \div p10) /\ int' = rest /\ left' = left - 1
             /\ IF rest * P2(-ex) + frac < allowance
                THEN Adjust(rest * P2(-ex) + frac, target, allowance, p10 * P2(-ex), 2 * Unit)
                ELSE UNCHANGED << pc, Adj >>
  /\ UNCHANGED << lo, md, up, ex, e10, frac, pow, mult, dp, num, den, sure >> /\ Keep
FracDigits ==
  /\ pc = "frac"
  /\ LET x == 10 * frac
         m10 == (10 * mult) % M
     IN /\ d' = Append(d, x \div P2(-ex))
        /\ frac' = x % P2(-ex) /\ mult' = m10
        /\ IF frac' < (allowance * m10) % M
           THEN Adjust(frac', (target * m10) % M, (allowance * m10) % M, P2(-ex), (2 * m10 * Unit) % M)
           ELSE UNCHANGED << pc, Adj >>
  /\ UNCHANGED << lo, md, up, ex, e10, int, pow, left, dp, num, den, sure >> /\ Keep
\* towards the number, and only if certain
AdjustStep ==
  /\ pc = "adjust"
  /\ IF cur + ulpD \div 2 + ulpB < tgt
     THEN d' = [d EXCEPT ![Len(d)] = @ - 1] /\ cur' = cur + ulpD /\ UNCHANGED << pc, sure >>
     ELSE /\ sure' = ~ \/ cur + ulpD <= tgt + ulpD \div 2 + ulpB
                       \/ cur < ulpB
                       \/ cur > (max - ulpB) % M
          /\ pc' = "done" /\ UNCHANGED << d, cur >>
  /\ UNCHANGED << lo, md, up, ex, e10, int, frac, pow, mult, left, dp, num, den, tgt, max, ulpD, ulpB >> /\ Keep

-----------------------------------------------------------------------------
(* n digits *)

Fixed ==
  /\ pc = "fixed"
  /\ \E k \in -KMax..KMax :
       LET sh == W - Bits(r.sig)
           z  == (Q - sh) + Power[k].e + W
       IN /\ z \in ExpMin..ExpMax
          /\ md' = Times(r.sig * P2(sh), Power[k].m)
          /\ ex' = z /\ e10' = -k
          /\ int' = md' \div P2(-z) /\ frac' = md' % P2(-z)
          /\ LET c == NumDig(int')
                 cut == Max2(c - n, 0)
                 i == int' \div Ten(cut)
             IN /\ d' = DigitsOf(i) /\ dp' = c - k
                /\ den' = Ten(cut) /\ num' = int' % Ten(cut)
                /\ left' = n - Len(DigitsOf(i))
  /\ mult' = Unit                 \* the uncertainty
  /\ pc' = "more"
  /\ UNCHANGED << lo, up, pow, sure, Adj >> /\ Keep
More ==
  /\ pc = "more"
  /\ IF left > 0
     THEN LET x == 10 * frac
          IN IF 20 * mult > P2(-ex)
             THEN pc' = "done" /\ UNCHANGED << d, frac, mult, left >>
             ELSE /\ d' = Append(d, x \div P2(-ex)) /\ frac' = x % P2(-ex)
                  /\ mult' = 10 * mult /\ left' = left - 1 /\ UNCHANGED pc
     ELSE pc' = "round" /\ UNCHANGED << d, frac, mult, left >>
  /\ UNCHANGED << lo, md, up, ex, e10, int, pow, dp, num, den, sure, Adj >> /\ Keep
RECURSIVE NotNine(_, _)
NotNine(x, i) == IF i = 0 \/ x[i] < 9 THEN i ELSE NotNine(x, i - 1)
Rest == num * P2(-ex) + frac
Whole == den * P2(-ex)
RoundStep ==
  /\ pc = "round"
  /\ CASE 2 * (Rest + mult) < Whole -> sure' = TRUE /\ d' = TrimZ(d) /\ UNCHANGED dp
       [] ~ 2 * (Rest + mult) < Whole /\ 2 * (Rest - mult) > Whole ->
            LET i == NotNine(d, Len(d))
            IN /\ sure' = TRUE
               /\ IF i = 0 THEN d' = << 1 >> /\ dp' = dp + 1
                  ELSE d' = Append(SubSeq(d, 1, i - 1), d[i] + 1) /\ UNCHANGED dp
       [] OTHER -> UNCHANGED << sure, d, dp >>
  /\ pc' = "done"
  /\ UNCHANGED << lo, md, up, ex, e10, int, frac, pow, mult, left, num, den, Adj >> /\ Keep

Next == Bounds \/ IntDigits \/ FracDigits \/ AdjustStep \/ Fixed \/ More \/ RoundStep
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Parts == [k |-> "fin", s |-> 0, eb |-> r.eb, sig |-> FromInt(r.sig)]
IsDigits == \A i \in 1..Len(d) : d[i] \in 0..9
FirstDigit == (pc = "done" /\ sure) => d # << >> /\ d[1] # 0 /\ d[Len(d)] # 0
NoOverflow == /\ up < M /\ md < M /\ lo >= 0
              /\ pc \in {"frac", "more"} => 10 * frac < M
              /\ pc = "round" => 2 * (Rest + mult) < M
              /\ pc = "int" /\ left > 0 => (int % Ten(left - 1)) * P2(-ex) + frac < M
\* the two comparisons the library panics on
Panics == pc = "round" => Rest <= Whole /\ 2 * mult <= Whole
\* the product that may overflow: then the comparison is true anyway
Wraps == pc = "frac" => LET m10 == 10 * mult
                        IN ((10 * frac) % P2(-ex) < allowance * m10) = ((10 * frac) % P2(-ex) < (allowance * m10) % M)
\* the interval does not contain both 9 * 10^(k-1) and 10^k
Narrow == LET iv == Interval(f, Parts)
          IN \A k \in (dp - 1)..dp : ~ (InInterval(iv, << 9 >>, k - 1) /\ InInterval(iv, One, k))
ShortestOK == (pc = "done" /\ sure /\ n = 0) =>
  LET D == FromDigits(d, 10) IN IF Narrow THEN IsShortest(f, Parts, D, dp - Len(d))
                                ELSE InInterval(Interval(f, Parts), D, dp - Len(d))
FixedOK == (pc = "done" /\ sure /\ n > 0) =>
  /\ Len(d) <= n
  /\ RoundsToDigits(MulPow10(FromDigits(d, 10), n - Len(d)), dp - n, n, FromInt(r.sig), Q)
\* the power of ten exists
Scale == pc \in {"bounds", "fixed"} => ENABLED Next
Ends == <>(pc = "done")
=============================================================================
