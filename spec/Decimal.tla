------------------------------ MODULE Decimal ------------------------------
(***************************************************************************)
(* Decimal renderings of binary floating-point numbers, specified as       *)
(* relations between the exact value and the produced text.  Text is a     *)
(* sequence of character codes.                                            *)
(*                                                                         *)
(* A decimal is D * 10^k with D a BigNat.                                  *)
(***************************************************************************)
EXTENDS DoubleDouble

C0 == 48
CPlus == 43   CMinus == 45   CDot == 46   Ce == 101   CE == 69   Cp == 112
Cf == 102   Cg == 103   CG == 71   Cb == 98
IsDigit(c) == c >= 48 /\ c <= 57

\* D * 10^k  compared with  m * 2^e, both non-zero
CmpDec(D, k, m, e) ==
  IF k >= 0 THEN CmpMag(MulPow5(D, k), k, m, e)
            ELSE CmpMag(D, 0, MulPow5(m, -k), e - k)

-----------------------------------------------------------------------------
(* Rounding intervals: the decimals that read back as the same number.     *)

\* [lo, hi, q, incl]: bounds lo*2^q, hi*2^q and v = sig*2^q; incl = ends belong
Interval(f, r) ==   \* r = EncodeParts of a finite non-zero number, sig # 0
  LET q  == QMin(f) + Max2(r.eb, 1) - 1
      s4 == Shl(r.sig, 2)
      low == IF r.sig = Pow2Big(f.p - 1) /\ r.eb > 1 THEN Sub(s4, One)
             ELSE Sub(s4, << 2 >>)
  IN [lo |-> low, v |-> s4, hi |-> Add(s4, << 2 >>), q |-> q - 2,
      incl |-> ~ IsOdd(r.sig)]

InInterval(iv, D, k) ==
  /\ D # << >>
  /\ LET a == CmpDec(D, k, iv.lo, iv.q)
         b == CmpDec(D, k, iv.hi, iv.q)
     IN IF iv.incl THEN a >= 0 /\ b <= 0 ELSE a > 0 /\ b < 0

\* No decimal with fewer digits reads back: a multiple of 10^(k+1) inside the
\* interval would be one of the two multiples around D * 10^k, because
\* D * 10^k itself is inside and intervals are convex.
\* (A single digit cannot be shortened.)
NoShorter(iv, D, k) ==
  LET d == DivMod(D, 10)
  IN /\ d.r # 0
     /\ d.q # << >> => /\ ~ InInterval(iv, d.q, k + 1)
                       /\ ~ InInterval(iv, Add(d.q, One), k + 1)

\* |D*10^k - v| compared with |D2*10^k - v| where D2 = D + 1 (dir=1) or D - 1:
\* D is at least as near iff 2v is on D's side of (D + D2) * 10^k
NearerThan(iv, D, k, dir) ==
  LET two == MulAdd(D, 2, 0)
  IN IF dir = 1
     THEN CmpDec(Add(two, One), k, iv.v, iv.q + 1) >= 0
     ELSE CmpDec(Sub(two, One), k, iv.v, iv.q + 1) <= 0

IsShortest(f, r, D, k) ==
  LET iv == Interval(f, r)
  IN /\ InInterval(iv, D, k)
     /\ NoShorter(iv, D, k)
     /\ (~ InInterval(iv, Add(D, One), k)) \/ NearerThan(iv, D, k, 1)
     /\ IF D = One     \* the next one below with as many digits is 9 * 10^(k-1)
        THEN (~ InInterval(iv, << 9 >>, k - 1)) \/ CmpDec(<< 19 >>, k - 1, iv.v, iv.q + 1) <= 0
        ELSE (~ InInterval(iv, Sub(D, One), k)) \/ NearerThan(iv, D, k, -1)

\* exact decimal expansion of m * 2^e: D * 10^k with D not a multiple of 10
RECURSIVE StripTens(_, _)
StripTens(D, k) == LET d == DivMod(D, 10)
                   IN IF d.r = 0 THEN StripTens(d.q, k + 1) ELSE [D |-> D, k |-> k]
ExactDecimal(m, e) ==
  IF e >= 0 THEN StripTens(Shl(m, e), 0)
  ELSE [D |-> MulPow5(m, -e), k |-> e]       \* m odd: not a multiple of 10

(* "x is exactly representable and its shortest decimal denotes it exactly" *)
IsExact(f, x) ==
  CASE x.k \in {"zero", "inf"} -> TRUE
    [] OTHER ->
       LET r == EncodeParts(f, x)
       IN /\ r.k = "fin"
          /\ r.sig # << >>
          /\ CmpNum(PartsValue(f, r), x) = 0
          /\ LET d == ExactDecimal(x.m, x.e)
             IN NoShorter(Interval(f, r), d.D, d.k)

-----------------------------------------------------------------------------
(* Correctly rounded decimals                                              *)

\* D * 10^k is v = m*2^e rounded to a multiple of 10^k, ties to even
RoundsTo(D, k, m, e) ==
  LET two == MulAdd(D, 2, 0)
      c1  == CmpDec(Add(two, One), k, m, e + 1)
  IN /\ c1 > 0 \/ (c1 = 0 /\ ~ IsOdd(D))
     /\ D # << >> => LET c0 == CmpDec(Sub(two, One), k, m, e + 1)
                     IN c0 < 0 \/ (c0 = 0 /\ ~ IsOdd(D))

\* D * 10^k is v rounded to n significant digits: 10^(n-1) <= D < 10^n
Pow10Big(n) == MulPow10(One, n)
RoundsToDigits(D, k, n, m, e) ==
  /\ Cmp(D, Pow10Big(n - 1)) >= 0
  /\ Cmp(D, Pow10Big(n)) < 0
  /\ IF D # Pow10Big(n - 1) THEN RoundsTo(D, k, m, e)
     ELSE \* possibly carried from 99..9: either v >= D*10^k rounds down to it,
          \* or v < D*10^k rounds up to it on the ten times finer grid
          IF CmpDec(D, k, m, e) <= 0 THEN RoundsTo(D, k, m, e)
          ELSE RoundsTo(MulAdd(D, 10, 0), k - 1, m, e)

-----------------------------------------------------------------------------
(* Reading text                                                            *)

\* value of the digits of t[i..j], skipping dots
DigitsVal(t, i, j) ==
  LET ds == SelectSeq(SubSeq(t, i, j), LAMBDA ch : ch # CDot)
  IN FromDigits(Force([h \in 1..Len(ds) |-> ds[h] - C0]), 10)
RECURSIVE SmallVal(_, _, _, _)
SmallVal(t, i, j, acc) == IF i > j THEN acc
                          ELSE SmallVal(t, i + 1, j, 10 * acc + (t[i] - C0))
RECURSIVE FindFrom(_, _, _)
FindFrom(t, c, i) == IF i > Len(t) THEN 0 ELSE IF t[i] = c THEN i ELSE FindFrom(t, c, i + 1)

AllDigits(t, i, j) == \A h \in i..j : IsDigit(t[h])

NaNText    == << 78, 97, 78 >>
PInfText   == << 43, 73, 110, 102 >>
NInfText   == << 45, 73, 110, 102 >>

\* unsigned "d[.ddd]e±dd": [ok, D, k, frac, nd] ; x = exponent letter
ParseE(t, x) ==
  LET ep == FindFrom(t, x, 1)
      dp == FindFrom(t, CDot, 1)
      frac == IF dp = 0 THEN 0 ELSE ep - 1 - dp
      ok == /\ ep >= 2
            /\ IF dp = 0 THEN ep = 2 /\ IsDigit(t[1])
               ELSE dp = 2 /\ IsDigit(t[1]) /\ frac >= 1 /\ AllDigits(t, 3, ep - 1)
            /\ Len(t) >= ep + 3
            /\ t[ep + 1] \in {CPlus, CMinus}
            /\ AllDigits(t, ep + 2, Len(t))
            /\ Len(t) > ep + 3 => t[ep + 2] # C0   \* at least 2 digits, no padding
            /\ Len(t) <= ep + 5
  IN IF ~ ok THEN [ok |-> FALSE]
     ELSE LET ev == SmallVal(t, ep + 2, Len(t), 0)
              ex == IF t[ep + 1] = CMinus THEN -ev ELSE ev
          IN [ok |-> ~ (t[ep + 1] = CMinus /\ ev = 0), ex |-> ex,
              D |-> DigitsVal(t, 1, ep - 1), k |-> ex - frac,
              frac |-> frac, lead |-> t[1] - C0]

\* unsigned "ddd[.ddd]"
ParseF(t) ==
  LET dp == FindFrom(t, CDot, 1)
      ip == IF dp = 0 THEN Len(t) ELSE dp - 1
      frac == IF dp = 0 THEN 0 ELSE Len(t) - dp
      ok == /\ ip >= 1
            /\ AllDigits(t, 1, ip)
            /\ ip > 1 => t[1] # C0
            /\ dp # 0 => frac >= 1 /\ AllDigits(t, dp + 1, Len(t))
  IN IF ~ ok THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, D |-> DigitsVal(t, 1, Len(t)), k |-> -frac,
           frac |-> frac, lead |-> t[1] - C0, ip |-> ip]

\* number of decimal digits of D (D # 0), given an upper bound on it
RECURSIVE NumDigits(_)
NumDigits(D) == IF D = << >> THEN 0 ELSE 1 + NumDigits(DivMod(D, 10).q)

-----------------------------------------------------------------------------
(* What the text of a number must be.  v = [eb, sig] finite parts in f;    *)
(* fm = format letter code, prec = requested precision (-1: shortest).     *)

UpperE(fm) == IF fm \in {CE, CG} THEN CE ELSE Ce

ZeroText(fm, prec, t) ==
  CASE fm \in {Ce, CE} -> LET p == ParseE(t, fm)
                          IN p.ok /\ p.D = << >> /\ p.ex = 0 /\ p.frac = Max2(prec, 0)
    [] fm = Cf         -> LET p == ParseF(t)
                          IN p.ok /\ p.D = << >> /\ p.frac = Max2(prec, 0)
    [] OTHER           -> t = << C0 >>

DigitsOK(f, r, prec, D, k, n) ==
  LET m == r.sig
      e == QMin(f) + Max2(r.eb, 1) - 1
  IN IF prec < 0 THEN IsShortest(f, r, D, k) ELSE RoundsToDigits(D, k, n, m, e)

\* e-style
EText(f, r, fm, prec, t) ==
  LET p == ParseE(t, fm)
  IN /\ p.ok /\ p.lead # 0
     /\ IF prec < 0 THEN DigitsOK(f, r, prec, p.D, p.k, 0)
        ELSE p.frac = prec /\ DigitsOK(f, r, prec, p.D, p.k, prec + 1)

\* f-style
FText(f, r, prec, t) ==
  LET p == ParseF(t)
      e == QMin(f) + Max2(r.eb, 1) - 1
  IN /\ p.ok
     /\ IF prec < 0
        THEN /\ p.D # << >>
             /\ LET d == StripTens(p.D, p.k)
                IN /\ IsShortest(f, r, d.D, d.k)
                   /\ p.k < 0 => d.k = p.k       \* no superfluous fraction zeros
        ELSE p.frac = prec /\ RoundsTo(p.D, p.k, r.sig, e)

\* g-style: e-style for decimal exponents < -4 or >= the precision (6 when
\* shortest), f-style otherwise, trailing fraction zeros removed
GText(f, r, fm, prec, t) ==
  LET isE == FindFrom(t, UpperE(fm), 1) # 0
      p   == IF isE THEN ParseE(t, UpperE(fm)) ELSE ParseF(t)
      n   == IF prec = 0 THEN 1 ELSE prec
  IN /\ p.ok
     /\ p.D # << >>
     /\ LET d  == StripTens(p.D, p.k)
            nd == NumDigits(d.D)
            ex == nd + d.k - 1                   \* decimal exponent
            ep == IF prec < 0 THEN 6
                  ELSE IF n > nd /\ nd >= ex + 1 THEN nd ELSE n
        IN /\ isE <=> (ex < -4 \/ ex >= ep)
           /\ isE => p.lead # 0
           /\ p.frac = (IF isE THEN nd - 1 ELSE Max2(-d.k, 0))
           /\ IF prec < 0 THEN IsShortest(f, r, d.D, d.k)
              ELSE /\ nd <= n
                   /\ RoundsToDigits(MulPow10(d.D, n - nd), d.k - (n - nd), n,
                                     r.sig, QMin(f) + Max2(r.eb, 1) - 1)

\* binary exponent style: decimal integer significand, 'p', signed exponent
BText(f, r, t) ==
  LET pp == FindFrom(t, Cp, 1)
      e  == QMin(f) + Max2(r.eb, 1) - 1
  IN /\ pp >= 2 /\ Len(t) >= pp + 2
     /\ AllDigits(t, 1, pp - 1) /\ (pp > 2 => t[1] # C0)
     /\ t[pp + 1] \in {CPlus, CMinus}
     /\ AllDigits(t, pp + 2, Len(t)) /\ (Len(t) > pp + 2 => t[pp + 2] # C0)
     /\ DigitsVal(t, 1, pp - 1) = r.sig
     /\ LET ev == SmallVal(t, pp + 2, Len(t), 0)
        IN IF t[pp + 1] = CMinus THEN ev > 0 /\ e = -ev ELSE e = ev

\* any other letter is given back, marked as wrong
IsLetter(fm) == fm \in {Cb, Ce, CE, Cf, Cg, CG}
CPercent == 37

FloatText(f, x, fm, prec, t) ==
  IF x.k = "nan" THEN t = NaNText
  ELSE
  LET r == IF x.k = "fin" THEN EncodeParts(f, x)
           ELSE [k |-> x.k, s |-> x.s, eb |-> 0, sig |-> << >>]
      u == IF x.s = 1 THEN Tail(t) ELSE t
  IN IF r.k = "inf" THEN t = (IF x.s = 1 THEN NInfText ELSE PInfText)
     ELSE IF ~ IsLetter(fm) THEN t = << CPercent, fm >>
     ELSE /\ t # << >>
          /\ (x.s = 1) => t[1] = CMinus
          /\ CASE fm = Cb -> BText(f, [r EXCEPT !.eb = IF r.k = "zero" THEN 0 ELSE @], u)
               [] r.sig = << >> -> ZeroText(fm, prec, u)
               [] fm \in {Ce, CE} -> EText(f, r, fm, prec, u)
               [] fm = Cf -> FText(f, r, prec, u)
               [] fm \in {Cg, CG} -> GText(f, r, fm, prec, u)

-----------------------------------------------------------------------------
(* Integers in a base 2..36: lower-case digits, no leading zeros           *)
DigitOf(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 122 THEN c - 87 ELSE 99
IntText(neg, mag, b, t) ==
  /\ t # << >>
  /\ neg => t[1] = CMinus
  /\ LET u == IF neg THEN Tail(t) ELSE t
     IN /\ u # << >>
        /\ \A i \in 1..Len(u) : DigitOf(u[i]) < b
        /\ Len(u) > 1 => u[1] # C0
        /\ FromDigits(Force([i \in 1..Len(u) |-> DigitOf(u[i])]), b) = mag
=============================================================================
