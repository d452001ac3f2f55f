------------------------------- MODULE TextGen -------------------------------
(***************************************************************************)
(* Formatting calls whose results are hard to get right, found from the    *)
(* specification: numbers next to short decimals, numbers whose rounding   *)
(* interval ends at a short decimal, decimals half way between two of the  *)
(* requested precision, the places where the layout changes, and numbers   *)
(* that make the digit count of a binary shift change.  On every call the  *)
(* relations of Decimal are checked against the constructions of Texts.    *)
(***************************************************************************)
EXTENDS Calls, Texts, FiniteSets, TLC, Json

CONSTANTS Kinds,     \* strings "kind.size"; "int.0", "appint.0"
          Full,
          Phase      \* varies which of many equals the quick tier takes

Sizes == {16, 32, 64}
KindNames == {"pow", "dec", "edge", "tie", "thr", "wide", "spec", "over", "shift", "cut", "app", "isx", "int", "appint",
              "close", "half", "letter", "size", "base"}
KindOf(s) == CHOOSE k \in KindNames : \E n \in {"0", "16", "32", "64"} : s = k \o "." \o n
SizeOf(s) == CHOOSE n \in {0, 16, 32, 64} : \E k \in KindNames : s = k \o "." \o ToString(n)

\* of the members of an interval of integers the quick tier takes every d-th
Every(S, d) == IF Full THEN S ELSE {j \in S : (j + Phase) % d = 0}

-----------------------------------------------------------------------------
(* Numbers of a format *)

At(f, eb, sig) == NFin(0, sig, QMin(f) + Max2(eb, 1) - 1)
UlpExp(f, x)   == LET r == EncodeParts(f, x) IN QMin(f) + Max2(r.eb, 1) - 1
\* x of f and its neighbours
Near(f, x) ==
  IF x.k # "fin" THEN {}
  ELSE LET u == NFin(0, One, UlpExp(f, x))
       IN {y \in {x, RoundTo(f, AddFin(x, u, 0)), RoundTo(f, AddFin(x, Neg(u), 0)),
                  AddFin(x, Neg([u EXCEPT !.e = @ - 1]), 0)} :
             y.k = "fin" /\ y.s = 0 /\ Representable(f, y)}
Neighbours(f, S) == UNION {Near(f, x) : x \in S}

Ten(n) == Pow10Big(n)
Alt53(f) == Shr(<< 43690, 43690, 43690, 43690 >>, 64 - f.p)
\* decimals with few or telling digits
FewDigits(n) ==
  {FromInt(j) : j \in 1..9} \cup {FromInt(j) : j \in {12, 15, 25, 37, 99, 101, 199, 505, 625, 995, 999}}
  \cup UNION {{Sub(Ten(j), One), Add(Ten(j), One), FromDigits(SubSeq(<< 9, 0, 0, 7, 1, 9, 9, 2, 5, 4, 7, 4, 0, 9, 9, 3, 1 >>, 1, j), 10),
               FromDigits(SubSeq(<< 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 3, 4, 5, 6, 7 >>, 1, j), 10)} : j \in 1..n}
MaxDigits(f) == IF f = F16 THEN 5 ELSE IF f = F32 THEN 9 ELSE 17
DecRange(f) == IF f = F16 THEN (-12)..5 ELSE IF f = F32 THEN (-54)..39 ELSE (-341)..309

\* (2m+1) * 2^(q-1) = j * 2^t * 10^k: the two numbers around that boundary
EdgeJs(f, k) ==
  LET c == MulPow5(One, k)
      lo == DivBig(Pow2Big(f.p), c).q
      hi == DivBig(Sub(Pow2Big(f.p + 1), One), c).q
      base == {lo, Add(lo, << 1 >>), Add(lo, << 2 >>), Add(lo, << 3 >>), hi, IF hi = << >> THEN hi ELSE Sub(hi, One),
               Shr(Add(lo, hi), 1), Add(Shr(Add(lo, hi), 1), One)}
      ds  == {Ten(n) : n \in 1..16} \cup {MulAdd(Ten(n), 3, 0) : n \in 0..15} \cup {Sub(Ten(n), One) : n \in 1..16}
             \cup {Add(Ten(n), One) : n \in 1..16}
  IN {j \in base \cup ds : IsOdd(j) /\ BitLen(Mul(j, c)) = f.p + 1}
\* 2^t with which 10^k is about the size of a unit in the last place
UnitShift(k) == (k * 2322) \div 1000
Edge(f, k, t) ==
  LET q == k + t + 1
  IN IF q < QMin(f) \/ q > Bias(f) - f.p + 1 THEN {}
     ELSE UNION {LET h == Shr(MulPow5(j, k), 1)       \* 2m+1 = 2h+1
                 IN {NFin(0, h, q), NFin(0, Add(h, One), q)} : j \in EdgeJs(f, k)}

\* odd multiples of 2^-j: exactly half way between two decimals with j-1 places
TieMs(f) == {FromInt(m) : m \in {1, 3, 5, 7, 9, 11, 15, 19, 25, 75, 125, 199, 1999, 19999}}
            \cup {Sub(Pow2Big(f.p), One), Add(Pow2Big(f.p - 1), One), Sub(Pow2Big(f.p - 3), One)}
            \cup {Sub(MulAdd(Ten(i), 2, 0), One) : i \in 4..(MaxDigits(f) - 2)}

\* Multiples M*A/B that come close to an integer without being one, with M of n
\* bits: M is a small combination of denominators of convergents of A/B
RECURSIVE Denominators(_, _, _, _, _, _)
Denominators(a, b, q0, q1, n, acc) ==
  IF b = << >> THEN acc
  ELSE LET d == DivBig(a, b)
           q == Add(Mul(d.q, q1), q0)
       IN IF BitLen(q) > n THEN acc ELSE Denominators(b, d.r, q1, q, n, Append(acc, q))
Apart(a, b, M) == LET r == DivBig(Mul(M, a), b).r  IN IF Cmp(Shl(r, 1), b) <= 0 THEN r ELSE Sub(b, r)
RECURSIVE Nearest_(_, _)
Nearest_(S, c) ==     \* the c pairs << M, distance >> nearest
  IF c = 0 \/ S = {} THEN {}
  ELSE LET y == CHOOSE x \in S : \A z \in S : Cmp(x[2], z[2]) <= 0
       IN {y[1]} \cup Nearest_(S \ {y}, c - 1)
CloseMs(a, b, n, c, Good(_)) ==
  LET h  == Denominators(a, b, One, << >>, n, << >>)
      qs == {h[i] : i \in {j \in 1..Len(h) : j > Len(h) - 6 /\ h[j] # << >>}}
      lo == Pow2Big(n - 1)
      hi == Sub(Pow2Big(n), One)
      up(x, q) == LET d == DivBig(x, q) IN IF d.r = << >> THEN d.q ELSE Add(d.q, One)
      cs(q, o) == LET u == IF Cmp(lo, o) > 0 THEN up(Sub(lo, o), q) ELSE One
                  IN {u, Add(u, One), DivBig(Sub(hi, o), q).q}
      Ms == {M \in UNION {{Add(Mul(x, q), o) : x \in cs(q, o)} : q \in qs, o \in qs \cup {<< >>}} : BitLen(M) = n /\ Good(M)}
  IN Nearest_({<< M, Apart(a, b, M) >> : M \in Ms}, c)
\* 2^e / 10^k as a ratio
Scale(e, k) == [a |-> Shl(IF k < 0 THEN MulPow10(One, -k) ELSE One, Max2(e, 0)),
                b |-> Shl(IF k > 0 THEN MulPow10(One, k) ELSE One, Max2(-e, 0))]
\* the least k with 10^k >= 2^e, or one less
TenExp(e) == -(((-e) * 30103) \div 100000)
\* numbers with a boundary (2m+1)*2^(q-1) close to a multiple of 10^k
Close(f, eb, k, c) ==
  LET q  == QMin(f) + eb - 1
      r  == Scale(q - 1, k)
      hs == {Shr(M, 1) : M \in CloseMs(r.a, r.b, f.p + 1, c, IsOdd)}
  IN {x \in UNION {{NFin(0, h, q), NFin(0, Add(h, One), q)} : h \in hs} : Representable(f, x)}
\* numbers close to an odd multiple of 10^k/2, with the number of digits above
HalfPairs(f, eb, k, c) ==
  LET q  == QMin(f) + eb - 1
      r  == Scale(q + 1, k)
      odd(M) == LET d == DivBig(Mul(M, r.a), r.b)
                IN IsOdd(d.q) # (Cmp(Shl(d.r, 1), r.b) > 0)
      nd(M) == NumDigits(Shr(DivBig(Mul(M, r.a), r.b).q, 1))
  IN {<< NFin(0, M, q), nd(M) >> : M \in CloseMs(r.a, r.b, f.p, c, odd)}

-----------------------------------------------------------------------------
(* Calls *)

Enc64(x) == Encode(F64, x)
FF(x, fm, prec, n) == [op |-> "ff", i |-> Enc64(x), fm |-> fm, prec |-> prec, n |-> n]
Appended(c, pre, spare) == [op |-> "appf", pre |-> pre, spare |-> spare] @@ c
Signs(x, j) == IF j % 4 = 3 THEN Neg(x) ELSE x
Letter(j) == << Ce, Cg, Cf, CE, CG >>[1 + (j % 5)]
\* shortest texts of all members, letters and signs in turn
Shortest(S, j, n) == {FF(Signs(x, j + x.e), Letter(j + BitLen(x.m)), -1, n) : x \in S}
             \cup {FF(x, Ce, -1, n) : x \in S}

TieCalls(f, n, j) ==
  UNION {LET x  == NFin(0, m, -j)
             d  == ExactDecimal(x.m, x.e)
             nd == NumDigits(d.D)
         IN IF ~ Representable(f, x) THEN {}
            ELSE UNION {{FF(Signs(y, j), Cf, p, n) : p \in {q \in {j - 2, j - 1, j} : q >= 0}}
                        \cup {FF(Signs(y, j + 1), Ce, p, n) : p \in {q \in {nd - 3, nd - 2, nd - 1} : q >= 0}}
                        \cup {FF(y, Cg, p, n) : p \in {q \in {nd - 2, nd - 1, nd} : q >= 0}} : y \in Near(f, x)}
         : m \in TieMs(f)}
\* integers that end in 5 0..0
TieInts(f, n, i) ==
  UNION {LET x == NFin(0, MulPow10(MulAdd(o, 5, 0), i), 0)
         IN IF ~ Representable(f, x) THEN {}
            ELSE LET nd == NumDigits(o) + 1
                 IN {FF(y, Ce, p, n) : p \in {q \in {nd - 2, nd - 1} : q >= 0}, y \in Near(f, x)}
                    \cup {FF(x, CG, p, n) : p \in {q \in {nd - 1, nd} : q >= 0}}
         : o \in {FromInt(m) : m \in {1, 3, 5, 9, 11, 13, 19, 99, 197, 199}} \cup {Sub(Ten(k), One) : k \in 3..15}}

ThrNums(f, k) ==
  LET S == {ReadDecimal(f, 0, d[1], k - d[2]) :
              d \in {<< One, 0 >>, << << 95 >>, 2 >>, << FromInt(99), 2 >>, << FromInt(9995), 4 >>, << FromInt(999995), 6 >>,
                     << FromInt(94999), 5 >>, << FromInt(123456), 5 >>, << FromInt(1000005), 6 >>, << Sub(Ten(16), << 4 >>), 16 >>}}
  IN Neighbours(f, {ReadDecimal(f, 0, One, k)} \ {NZero(0), NInf(0)}) \cup {x \in S : x.k = "fin"}
ThrPrecs(k) == {p \in {0, 1, 2, k - 1, k, k + 1, k + 2, 5, 6, 7, 16, 17, 21, 22} : p >= 0}
ThrCalls(f, n, k) ==
  {FF(Signs(x, k), fm, p, n) : x \in ThrNums(f, k), p \in ThrPrecs(k) \cup {-1}, fm \in {Cg, CG}}
  \cup {FF(x, fm, p, n) : x \in ThrNums(f, k), p \in {0, 1, 5}, fm \in {Ce, Cf}}

WideNums(f) ==
  {At(f, 0, One), At(f, 0, << 3 >>), At(f, 0, Sub(Pow2Big(f.p - 1), One)), At(f, 1, Pow2Big(f.p - 1)),
   At(f, MaxExp(f) - 1, Sub(Pow2Big(f.p), One)), At(f, MaxExp(f) - 1, Pow2Big(f.p - 1)),
   ReadDecimal(f, 0, FromInt(33333), -5), ReadDecimal(f, 0, FromInt(31416), -4), NFin(0, One, 0), NFin(0, One, -1)}
WidePrecs == (0..24) \cup {30, 37, 45, 60, 100, 149, 150, 200, 308, 309, 310, 323, 324, 400, 765, 766, 767, 768, 799, 800, 801, 850, 1073, 1074, 1075, 1100}
             \cup {2048, 4097}   \* beyond any block of filling digits
WideCalls(f, n, p) ==
  {FF(Signs(x, p), fm, p, n) : x \in IF p > 1500 THEN {At(f, 0, Sub(Pow2Big(f.p - 1), One)), At(f, MaxExp(f) - 1, Pow2Big(f.p - 1)), NFin(0, << 3 >>, -1)}
                                    ELSE WideNums(f), fm \in {Ce, Cf, Cg}}

SpecNums == {NZero(0), NZero(1), NInf(0), NInf(1), NNaN(0), NNaN(1)}
SpecEnc(x) == IF x.k = "nan" THEN << 1, 0, 0, 32760 + 32768 * x.s - 8 >> ELSE Enc64(x)
SpecCalls(n, fm) == {[op |-> "ff", i |-> SpecEnc(x), fm |-> fm, prec |-> p, n |-> n] :
                       x \in SpecNums, p \in {-1, 0, 1, 2, 5, 17, 30, 400}}
\* numbers that are rounded to the size first
OverNums(f) ==
  {AddFin(At(f, eb, sig), NFin(s, d, QMin(f) + Max2(eb, 1) - 1 - 6), 0) :
     eb \in {0, 1, Bias(f), MaxExp(f) - 1},
     sig \in {Sub(Pow2Big(f.p - 1), One), Pow2Big(f.p - 1), Add(Pow2Big(f.p - 1), One), Sub(Pow2Big(f.p), One)},
     s \in {0, 1}, d \in {One, FromInt(31), FromInt(32), FromInt(33)}}
  \cup {NFin(0, One, j) : j \in {QMin(f) - 2, QMin(f) - 1, Bias(f), Bias(f) + 1}} \cup {NFin(0, << 3 >>, QMin(f) - 2), Neg(NFin(0, One, -1074)), NFin(1, One, 1023)}
OverCalls(f, n, j) == {FF(Signs(x, j), Letter(j + x.e), IF j = 0 THEN -1 ELSE j, n) :
                        x \in {y \in OverNums(f) : Representable(F64, y)}}
                      \cup {FF(x, Cb, j, n) : x \in {y \in OverNums(f) : Representable(F64, y)}}

\* 'f' renders sig * 2^q by exact shifts of the decimal, at most 60 places at a
\* time.  How many digits a shift by k adds depends on whether the digits so far
\* are below those of 5^k: numbers on both sides of that edge, the shift by k
\* being the (i+1)st of the rendering
CutoffSigs(f, k, i) ==
  LET c  == MulPow5(One, k)
      t0 == ((f.p + 60 * i - BitLen(c)) * 30103) \div 100000
      fit(t) == LET s == IF t < 0 THEN DivBig(c, MulPow10(Pow2Big(60 * i), -t)).q ELSE Shr(MulPow10(c, t), 60 * i)
                IN {u \in {s, Add(s, One)} \cup (IF s = << >> THEN {} ELSE {Sub(s, One)}) : BitLen(u) = f.p}
  IN UNION {fit(t) : t \in (t0 - 1)..(t0 + 2)}
CutCalls(f, n, k) ==
  LET is == {i \in 0..16 : 60 * i + k <= Bias(f) - f.p + 1}
  IN UNION {{FF(NFin(0, s, 60 * i + k), Cf, 0, n) : s \in CutoffSigs(f, k, i)} : i \in is}
\* the shifts themselves, left and right
ShiftCalls(f, n, k) ==
  IF k < QMin(f) \/ k > Bias(f) - f.p + 1 THEN {}
  ELSE {FF(NFin(0, s, k), Cf, p, n) : s \in {Pow2Big(f.p - 1), Sub(Pow2Big(f.p), One)},
                                      p \in {0} \cup (IF k < 0 THEN {-k, Max2(-k - 1, 0)} ELSE {})}
       \cup {FF(NFin(1, s, k), Ce, 20, n) : s \in {Add(Pow2Big(f.p - 1), One), Alt53(f)}}

\* close to a decision, at every exponent: shortest texts and given precisions
CloseCalls(f, n, eb) ==
  LET k == TenExp(QMin(f) + eb - 2)
  IN {FF(Signs(x, eb + BitLen(x.m)), IF x.m[1] % 4 = 1 THEN Cg ELSE Ce, -1, n) : x \in UNION {Close(f, eb, j, IF Full THEN 8 ELSE 5) : j \in k..(k + 2)}}
HalfCalls(f, n, eb) ==
  LET k == TenExp(QMin(f) + eb - 2)
  IN UNION {{IF y[1].m[1] % 4 = 1 THEN FF(y[1], Cg, y[2], n) ELSE FF(Signs(y[1], eb), Ce, y[2] - 1, n) :
               y \in {z \in HalfPairs(f, eb, j, IF Full THEN 8 ELSE 5) : z[2] > 0}} : j \in k..(k + 3)}

\* appending: destinations with just too little, just enough and more room
Pre(j) == [i \in 1..j |-> << 0, 255, 43, 48, 110, 45, 57, 7 >>[1 + ((i - 1) % 8)]]
AppCalls(f, n, j) ==
  UNION {LET t == TextOf(f, x, fm, p)
             m == Len(t)
         IN {Appended(FF(x, fm, p, n), Pre(j), sp) :
               sp \in {s \in {0, 1, m - 1, m, m + 1, m + 24} : s >= 0} \cup (IF j = 0 THEN {-1} ELSE {})}   \* -1: nil
         : x \in WideNums(f) \cup {NZero(1), NInf(1)}, fm \in {Ce, Cf, Cg, Cb}, p \in {-1, 0, 3, 17}}

IsxNums(f, n, e) ==
  LET cs == {FromInt(c) : c \in {1, 3, 5, 7, 9, 25, 125, 625, 999, 1001, 2047, 2049, 99999}}
            \cup {Sub(Pow2Big(f.p), One), Add(Pow2Big(f.p), One), Sub(Pow2Big(f.p - 1), One)}
      x(c) == NFin(0, c, e)
  IN {x(c) : c \in cs} \cup {AddFin(x(c), NFin(0, One, e - 70), 0) : c \in cs}
     \cup UNION {{NFin(0, MulPow10(d, e), 0), NFin(1, Add(MulPow10(d, e), One), 0)} :
                   d \in IF e \in 0..40 THEN {One, << 3 >>, FromInt(17), FromInt(6554), Sub(Ten(5), One)} ELSE {}}
IsxCalls(f, n, e) == {[op |-> "isx", n |-> n, x |-> Signs(x, e), xp |-> MinPrec(x) + (e % 3), xm |-> 0, xa |-> 0] :
                        x \in {y \in IsxNums(f, n, e) : y.k = "fin"}}

\* outside the domain: letters, precisions, sizes and bases that do not exist
LetterNums == {NZero(0), NZero(1), NInf(1), NFin(0, One, 0), NFin(1, << 3 >>, -1), NFin(0, FromInt(12345), 40),
               NFin(1, Sub(Pow2Big(24), One), -60), ReadDecimal(F64, 0, FromInt(33333), -5)}
LetterCalls(n, fm) ==
  IF IsLetter(fm)
  THEN {FF(x, fm, p, n) : x \in LetterNums, p \in {-2, -3, -5, -17, -25, -1000, -2147483647}}
  ELSE UNION {LET c == FF(x, fm, p, n) IN {c, Appended(c, Pre(p + 2), p + 1)} :
                x \in LetterNums, p \in {-1, 0, 1, 2, 3}}
       \cup {[op |-> "ff", i |-> SpecEnc(NNaN(1)), fm |-> fm, prec |-> p, n |-> n] : p \in {-1, 6}}
NoSizes == ((-70)..140 \cup {160, 256, 256 + 16, 256 + 32, 256 + 64, 65536 + 64}) \ Sizes
SizeCalls(n) ==
  UNION {LET c == [op |-> "ff", i |-> SpecEnc(x), fm |-> fm, prec |-> p, n |-> n]
         IN {c, Appended(c, Pre(5), 30 * (p + 1))} :
           x \in SpecNums \cup {NFin(1, << 3 >>, -1)}, fm \in {Cb, Cg, 113}, p \in {-1, 2}}
NoBases == ((-40)..110 \cup {128, 256, 256 + 2, 256 + 10, 256 + 16, 65536 + 10}) \ (2..36)
BaseCalls(b) ==
  LET ms == {<< >>, One, FromInt(9), FromInt(10), FromInt(35), FromInt(99), FromInt(100), Pow2Big(62), Sub(Pow2Big(63), One)}
  IN {[op |-> "fi", neg |-> FALSE, m |-> m, b |-> b, v |-> v] : m \in ms, v \in {"FormatUint", "FormatInt"}}
     \cup {[op |-> "fi", neg |-> TRUE, m |-> m, b |-> b, v |-> "FormatInt"] : m \in ms \ {<< >>}}
     \cup {[op |-> "appi", neg |-> FALSE, m |-> m, b |-> b, v |-> v, pre |-> Pre(3), spare |-> sp] :
             m \in ms, v \in {"AppendUint", "AppendInt"}, sp \in {0, 70}}
     \cup {[op |-> "appi", neg |-> TRUE, m |-> m, b |-> b, v |-> "AppendInt", pre |-> Pre(3), spare |-> sp] :
             m \in ms \ {<< >>}, sp \in {0, 70}}

\* integers
RECURSIVE PowersUpTo(_, _)
PowersUpTo(p, b) == IF BitLen(p) > 64 THEN {} ELSE {p} \cup PowersUpTo(MulAdd(p, b, 0), b)
IntMags(b) ==
  LET ps == PowersUpTo(One, b)
      near == ps \cup {Add(p, One) : p \in ps} \cup {Sub(p, One) : p \in ps}
              \cup {MulAdd(p, b - 1, 0) : p \in ps}
              \cup {Pow2Big(63), Sub(Pow2Big(63), One), Add(Pow2Big(63), One), Sub(Pow2Big(64), One)}
              \cup {Pow2Big(31), Pow2Big(32), Sub(Pow2Big(32), One), FromInt(1000000000), FromInt(999999999)}
              \cup (IF b = 10 THEN {FromInt(m) : m \in 0..211} ELSE {})
  IN {m \in near : BitLen(m) <= 64}
Signed(m, neg) == IF neg THEN Cmp(m, Pow2Big(63)) <= 0 /\ m # << >> ELSE BitLen(m) <= 63
IntCalls(b) ==
  {[op |-> "fi", neg |-> FALSE, m |-> m, b |-> b, v |-> "FormatUint"] : m \in IntMags(b)}
  \cup {[op |-> "fi", neg |-> s, m |-> m, b |-> b, v |-> "FormatInt"] : m \in {u \in IntMags(b) : Signed(u, TRUE) \/ Signed(u, FALSE)}, s \in {TRUE, FALSE}}
  \cup (IF b = 10 THEN {[op |-> "fi", neg |-> s, m |-> m, b |-> b, v |-> "Itoa"] : m \in IntMags(b), s \in {TRUE, FALSE}} ELSE {})
IntOK(c) == c.v = "FormatUint" \/ c.v = "AppendUint" \/ Signed(c.m, c.neg)
AppIntCalls(b) ==
  UNION {LET t == Len(IntTextOf(s, m, b))
         IN {[op |-> "appi", neg |-> s, m |-> m, b |-> b, v |-> IF s \/ (t % 2 = 0 /\ Signed(m, FALSE)) THEN "AppendInt" ELSE "AppendUint",
              pre |-> IF sp < 0 THEN << >> ELSE Pre(t % 7), spare |-> sp] : sp \in {-1, 0, t, t + 1} \cup {t - 1}}   \* -1: nil
         : m \in IntMags(b), s \in {TRUE, FALSE}}

-----------------------------------------------------------------------------
(* A seed is a kind with a part of its cases *)

PowExps(f) == IF f = F16 THEN 0..29 ELSE IF f = F32 THEN Every(0..253, 2) ELSE Every(0..2045, 11) \cup {0, 1, 2, 2045}
Parts(k, n) ==
  LET f == NativeFormat(n)
  IN CASE k = "pow"  -> PowExps(f)
       [] k = "dec"  -> IF n = 64 THEN Every(DecRange(f), 13) \cup {-324, -308, 22, 23, 292} ELSE IF n = 32 THEN Every(DecRange(f), 2) ELSE DecRange(f)
       [] k = "edge" -> 0..(IF n = 16 THEN 5 ELSE IF n = 32 THEN 11 ELSE 23)
       [] k = "tie"  -> IF n = 16 THEN Every(1..24, 3) ELSE IF n = 32 THEN Every(1..40, 5) \cup {1, 2} ELSE Every(1..64, 9) \cup {1, 2}
       [] k = "thr"  -> IF n = 16 THEN (-8)..5 ELSE Every((-7)..24, 2) \cup {-5, -4, 5, 6, 7, 20, 21}
       [] k = "wide" -> WidePrecs
       [] k = "spec" -> {Ce, CE, Cf, Cg, CG, Cb}
       [] k = "over" -> {0, 1, 4}
       [] k = "shift" -> IF n = 64 THEN Every((-190)..190, 3) \cup {-1074, -1073, 900, 971} ELSE (-149)..104
       [] k = "cut"  -> 1..60
       [] k \in {"close", "half"} -> IF n = 64 THEN Every(1..2046, 3) ELSE IF n = 32 THEN Every(1..254, 3) ELSE 1..30
       [] k = "app"  -> IF Full THEN (0..8) \cup {63, 64, 65, 300, 1000} ELSE {0, 3, 8, 70, 1000}
       [] k = "isx"  -> Every((-60)..130, 2) \cup (IF Full THEN (-150)..(-61) ELSE {})
       [] k = "letter" -> Every(0..255, 6) \cup {Cb, Ce, CE, Cf, Cg, CG, 66, 70, 97, 100, 120, 88, 112, 118, 0, 37}
       [] k = "size" -> Every(NoSizes, 3) \cup {2147483647, -2147483647, 0, 8, 15, 17, 31, 33, 63, 65, 80, 128}
       [] k = "base" -> Every(NoBases, 2) \cup {-2147483647, -10, -2, -1, 0, 1, 37, 38, 64, 100, 2147483647}
       [] k = "int" -> 2..36
       [] k = "appint" -> Every(2..36, 5) \cup {2, 10, 16, 36}
Calls_(seed) ==
  LET k == KindOf(seed[1])
      n == SizeOf(seed[1])
      j == seed[2]
      f == NativeFormat(n)
  IN CASE k = "pow"  -> Shortest(Near(f, At(f, IF j = 0 THEN 1 ELSE j, Pow2Big(f.p - 1)))
                                 \cup (IF j = 0 THEN {At(f, 0, Pow2Big(h)) : h \in 0..(f.p - 2)} ELSE {}), j, n)
       [] k = "dec"  -> Shortest({y \in {ReadDecimal(f, 0, D, j) : D \in FewDigits(MaxDigits(f))} : y.k = "fin"}
                                 \cup (IF Full THEN Neighbours(f, {y \in {ReadDecimal(f, 0, D, j) : D \in FewDigits(MaxDigits(f))} : y.k = "fin"}) ELSE {}), j + 400, n)
       [] k = "edge" -> UNION {Shortest(Edge(f, j, t), j + t + 10, n) : t \in ((-3)..4) \cup {-20, -9, 10, 30, 61, 90, 300} \cup ((UnitShift(j) - 2)..(UnitShift(j) + 4))}
       [] k = "tie"  -> TieCalls(f, n, j) \cup TieInts(f, n, j)
       [] k = "thr"  -> ThrCalls(f, n, j)
       [] k = "wide" -> WideCalls(f, n, j)
       [] k = "spec" -> SpecCalls(n, j)
       [] k = "over" -> OverCalls(f, n, j)
       [] k = "shift" -> ShiftCalls(f, n, j)
       [] k = "cut"  -> CutCalls(f, n, j)
       [] k = "close" -> CloseCalls(f, n, j)
       [] k = "half" -> HalfCalls(f, n, j)
       [] k = "app"  -> AppCalls(f, n, j)
       [] k = "isx"  -> IsxCalls(f, n, j)
       [] k = "letter" -> LetterCalls(n, j)
       [] k = "size" -> SizeCalls(j)
       [] k = "base" -> BaseCalls(j)
       [] k = "int"  -> {c \in IntCalls(j) : IntOK(c)}
       [] k = "appint" -> {c \in AppIntCalls(j) : IntOK(c)}

VARIABLES seed, call
vars == << seed, call >>
None == [op |-> "none"]
Init == seed \in UNION {{<< k, j >> : j \in Parts(KindOf(k), SizeOf(k))} : k \in Kinds} /\ call = None
Next == call = None /\ call' \in Calls_(seed) /\ UNCHANGED seed
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Decimal's relations and Texts' constructions say the same *)

\* wrong texts near a right one
Bump(t, i) == [t EXCEPT ![i] = IF @ = 57 THEN 48 ELSE @ + 1]
LastDigitPos(t) == LET ep == FindFrom(t, Ce, 1) IN IF ep = 0 THEN Len(t) ELSE ep - 1
Wrong(t) == {Bump(t, LastDigitPos(t)), t \o << C0 >>, << C0 >> \o t, Front(t)}
            \cup {[t EXCEPT ![i] = IF @ = 48 THEN 57 ELSE @ - 1] : i \in {LastDigitPos(t)}}
FloatSpecOK ==
  (call.op \in {"ff", "appf"} /\ ~ Refused(call)) =>
    LET f == NativeFormat(call.n)
        x == Decode(F64, call.i)
        t == TextOf(f, x, call.fm, call.prec)
        y == IF x.k = "nan" THEN x ELSE RoundTo(f, x)
    IN /\ FloatText(f, x, call.fm, call.prec, t)
       /\ (y.k = "fin" /\ call.fm \in {Ce, Cf} /\ call.op = "ff" /\ Len(t) > 1 /\ (Full \/ Len(t) < 40)) =>
            /\ \A u \in Wrong(t) :
                 FloatText(f, x, call.fm, call.prec, u) =>
                   \* two shortest decimals can be equally near
                   /\ call.prec < 0
                   /\ u \in {Bump(t, LastDigitPos(t))} \cup {[t EXCEPT ![LastDigitPos(t)] = @ - 1]}
            /\ call.prec < 0 =>
                 LET d == ShortestDec(f, EncodeParts(f, y))
                     c == DivMod(d.D, 10)
                 IN /\ ReadDecimal(f, y.s, d.D, d.k) = y           \* reads back
                    /\ c.q # << >> => /\ ReadDecimal(f, y.s, c.q, d.k + 1) # y
                                      /\ ReadDecimal(f, y.s, Add(c.q, One), d.k + 1) # y
IsxSpecOK ==
  call.op = "isx" =>
    LET f == NativeFormat(call.n)
    IN IsExact(f, call.x) <=>
         /\ Representable(f, call.x)
         /\ RoundTo(f, call.x).k = "fin"
         /\ LET d == ShortestDec(f, EncodeParts(f, call.x))
            IN CmpDec(d.D, d.k, call.x.m, call.x.e) = 0
IntSpecOK ==
  (call.op \in {"fi", "appi"} /\ ~ Refused(call)) =>
    LET t == IntTextOf(call.neg, call.m, call.b)
    IN /\ IntText(call.neg, call.m, call.b, t)
       /\ ~ IntText(call.neg, call.m, call.b, t \o << C0 >>)
       /\ ~ IntText(~ call.neg, call.m, call.b, t)
       /\ ~ IntText(call.neg, call.m, call.b, Bump(t, Len(t)))
SpecOK == FloatSpecOK /\ IsxSpecOK /\ IntSpecOK

Printed == call # None => PrintT(ToJson(call))
=============================================================================
