------------------------------- MODULE Texts -------------------------------
(***************************************************************************)
(* The texts of numbers and the numbers of texts, constructed.  Decimal    *)
(* says which texts are right; here they are computed from the exact       *)
(* value, digit by digit, and decimals are read back by exact division.    *)
(* TextGen checks that both say the same, and uses the constructions to    *)
(* find arguments where formatting is hard.                                *)
(***************************************************************************)
EXTENDS Decimal

-----------------------------------------------------------------------------
(* From decimal to binary *)

\* (-1)^s * D * 10^k rounded to format f
ReadDecimal(f, s, D, k) ==
  IF D = << >> THEN NZero(s)
  ELSE IF k >= 0 THEN RoundTo(f, NFin(s, MulPow10(D, k), 0))
  ELSE LET d  == MulPow5(One, -k)
           sh == Max2(0, BitLen(d) + f.p + 4 - BitLen(D))
           qr == DivBig(Shl(D, sh), d)
           \* a final sticky bit stands for the rest of the quotient
           m  == Add(Shl(qr.q, 1), IF qr.r = << >> THEN << >> ELSE One)
       IN RoundTo(f, NFin(s, m, k - sh - 1))

-----------------------------------------------------------------------------
(* From binary to decimal; v = m * 2^e, m # 0 *)

\* v / 10^k = num / den
Ratio(m, e, k) ==
  LET t == e - k
      n0 == IF k < 0 THEN MulPow5(m, -k) ELSE m
      d0 == IF k > 0 THEN MulPow5(One, k) ELSE One
  IN [num |-> IF t > 0 THEN Shl(n0, t) ELSE n0,
      den |-> IF t < 0 THEN Shl(d0, -t) ELSE d0]
\* the multiple of 10^k below v, and the nearest (ties to even)
FloorDec(m, e, k) == LET r == Ratio(m, e, k) IN DivBig(r.num, r.den).q
RoundDec(m, e, k) ==
  LET r  == Ratio(m, e, k)
      qr == DivBig(r.num, r.den)
      c  == Cmp(Shl(qr.r, 1), r.den)
  IN IF c > 0 \/ (c = 0 /\ IsOdd(qr.q)) THEN Add(qr.q, One) ELSE qr.q

\* decimal exponent: 10^ex <= v < 10^(ex+1)
DecExp(m, e) ==
  LET g == ((BitLen(m) + e - 1) * 30103) \div 100000     \* at most one off
  IN IF CmpDec(One, g + 1, m, e) <= 0 THEN g + 1
     ELSE IF CmpDec(One, g, m, e) > 0 THEN g - 1 ELSE g

\* v rounded to n significant digits
RoundDigits(m, e, n) ==
  LET k == DecExp(m, e) - n + 1
      D == RoundDec(m, e, k)
  IN IF D = Pow10Big(n) THEN [D |-> Pow10Big(n - 1), k |-> k + 1] ELSE [D |-> D, k |-> k]

\* the shortest decimal in the rounding interval that is nearest to v:
\* only the two decimals around v can be, for any number of digits
RECURSIVE ShortestFrom(_, _, _, _)
ShortestFrom(iv, m, e, n) ==
  LET k  == DecExp(m, e) - n + 1
      lo == FloorDec(m, e, k)
      hi == Add(lo, One)
      a  == InInterval(iv, lo, k)
      b  == InInterval(iv, hi, k)
      D  == IF a /\ b THEN RoundDec(m, e, k) ELSE IF a THEN lo ELSE hi
  IN IF a \/ b THEN StripTens(D, k) ELSE ShortestFrom(iv, m, e, n + 1)
ShortestDec(f, r) ==
  LET q == QMin(f) + Max2(r.eb, 1) - 1 IN ShortestFrom(Interval(f, r), r.sig, q, 1)

-----------------------------------------------------------------------------
(* Layout *)

Rep(c, n)  == Force([i \in 1..n |-> c])
Chars(ds)  == Force([i \in 1..Len(ds) |-> IF ds[i] < 10 THEN C0 + ds[i] ELSE 87 + ds[i]])
SmallText(n) == IF n = 0 THEN << C0 >> ELSE Chars(ToDigits(FromInt(n), 10))
SignedExp(ex, min) ==
  LET u == SmallText(IF ex < 0 THEN -ex ELSE ex)
  IN << IF ex < 0 THEN CMinus ELSE CPlus >> \o Rep(C0, Max2(0, min - Len(u))) \o u

\* d.ddde±dd; ds = character codes of the digits
LayE(ds, ex, letter) ==
  << ds[1] >> \o (IF Len(ds) > 1 THEN << CDot >> \o Tail(ds) ELSE << >>)
              \o << letter >> \o SignedExp(ex, 2)
\* D * 10^k with max(-k, 0) digits after the point
LayF(D, k) ==
  LET frac == Max2(-k, 0)
      ds0 == Chars(ToDigits(MulPow10(D, Max2(k, 0)), 10))
      ds  == Rep(C0, Max2(0, frac + 1 - Len(ds0))) \o ds0
      ip  == Len(ds) - frac
  IN SubSeq(ds, 1, ip) \o (IF frac > 0 THEN << CDot >> \o SubSeq(ds, ip + 1, Len(ds)) ELSE << >>)

ExpOf(d) == NumDigits(d.D) + d.k - 1

\* text of a finite non-zero number given by its parts r in f (r.sig # 0)
FiniteText(f, r, fm, prec) ==
  LET m == r.sig
      e == QMin(f) + Max2(r.eb, 1) - 1
      short == ShortestDec(f, r)
  IN CASE fm = Cb -> Chars(ToDigits(m, 10)) \o << Cp >> \o SignedExp(e, 1)
       [] fm \in {Ce, CE} ->
            LET d == IF prec < 0 THEN short ELSE RoundDigits(m, e, prec + 1)
            IN LayE(Chars(ToDigits(d.D, 10)), ExpOf(d), fm)
       [] fm = Cf ->
            IF prec < 0 THEN LayF(short.D, short.k) ELSE LayF(RoundDec(m, e, -prec), -prec)
       [] fm \in {Cg, CG} ->
            LET n  == IF prec = 0 THEN 1 ELSE prec
                d0 == IF prec < 0 THEN short ELSE RoundDigits(m, e, n)
                d  == StripTens(d0.D, d0.k)
                nd == NumDigits(d.D)
                ex == ExpOf(d)
                ep == IF prec < 0 THEN 6 ELSE IF n > nd /\ nd >= ex + 1 THEN nd ELSE n
            IN IF ex < -4 \/ ex >= ep THEN LayE(Chars(ToDigits(d.D, 10)), ex, UpperE(fm))
               ELSE LayF(d.D, d.k)

ZeroTextOf(f, fm, prec) ==
  LET n == Max2(prec, 0)
  IN CASE fm = Cb -> << C0, Cp >> \o SignedExp(QMin(f), 1)
       [] fm \in {Ce, CE} -> LayE(Rep(C0, n + 1), 0, fm)
       [] fm = Cf -> << C0 >> \o (IF n > 0 THEN << CDot >> \o Rep(C0, n) ELSE << >>)
       [] OTHER -> << C0 >>

TextOf(f, x, fm, prec) ==
  IF x.k = "nan" THEN NaNText
  ELSE LET r == IF x.k = "fin" THEN EncodeParts(f, x)
                ELSE [k |-> x.k, s |-> x.s, eb |-> 0, sig |-> << >>]
       IN IF r.k = "inf" THEN (IF x.s = 1 THEN NInfText ELSE PInfText)
          ELSE IF ~ IsLetter(fm) THEN << CPercent, fm >>
          ELSE (IF x.s = 1 THEN << CMinus >> ELSE << >>)
               \o (IF r.sig = << >> THEN ZeroTextOf(f, fm, prec) ELSE FiniteText(f, r, fm, prec))

IntTextOf(neg, mag, b) ==
  (IF neg THEN << CMinus >> ELSE << >>)
  \o (IF mag = << >> THEN << C0 >> ELSE Chars(ToDigits(mag, b)))
=============================================================================
