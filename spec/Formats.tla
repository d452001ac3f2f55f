------------------------------ MODULE Formats ------------------------------
(***************************************************************************)
(* The floating-point formats of the library as exact mathematical objects.*)
(*                                                                         *)
(* A format is [name, p, w, x, n]: p significant bits, w exponent bits,    *)
(* x = TRUE when the leading significand bit is stored, n = number of      *)
(* 16-bit limbs of an encoding.  An encoding ("raw") is a little-endian    *)
(* sequence of exactly n limbs: the last limb starts with the sign bit,    *)
(* followed by the exponent field.                                         *)
(*                                                                         *)
(* Decode is the IEEE 754 / x87 interpretation of the fields; EncodeParts  *)
(* is correct rounding (nearest, ties to even, gradual underflow, overflow *)
(* to infinity).  MCRounding checks EncodeParts against its declarative    *)
(* definition ("no representable number is nearer") on small formats.      *)
(***************************************************************************)
EXTENDS Numbers

F16   == [name |-> "binary16",   p |-> 11,  w |-> 5,  x |-> FALSE, n |-> 1]
FBF   == [name |-> "bfloat16",   p |-> 8,   w |-> 8,  x |-> FALSE, n |-> 1]
F32   == [name |-> "float32",    p |-> 24,  w |-> 8,  x |-> FALSE, n |-> 2]
F64   == [name |-> "float64",    p |-> 53,  w |-> 11, x |-> FALSE, n |-> 4]
F80   == [name |-> "float80x86", p |-> 64,  w |-> 15, x |-> TRUE,  n |-> 5]
F128  == [name |-> "binary128",  p |-> 113, w |-> 15, x |-> FALSE, n |-> 8]

\* the double-double format is not a single field layout, see DoubleDouble
FPPC  == [name |-> "float128ppc", p |-> 106, w |-> 0, x |-> FALSE, n |-> 8]

FormatNames == {"binary16", "bfloat16", "float32", "float64",
                "float80x86", "binary128", "float128ppc"}
Format(name) ==
  CASE name = "binary16"    -> F16
    [] name = "bfloat16"    -> FBF
    [] name = "float32"     -> F32
    [] name = "float64"     -> F64
    [] name = "float80x86"  -> F80
    [] name = "binary128"   -> F128
    [] name = "float128ppc" -> FPPC

Bias(f)   == P2(f.w - 1) - 1
MaxExp(f) == P2(f.w) - 1             \* exponent field of Inf and NaN
QMin(f)   == 1 - Bias(f) - (f.p - 1) \* exponent of the smallest denormal, 2^QMin

IsRaw(f, w) == Len(w) = f.n /\ \A i \in 1..f.n : w[i] \in 0..(Base - 1)

-----------------------------------------------------------------------------
(* Fields *)

Top(w)        == w[Len(w)]
SignField(w)  == Top(w) \div 32768
ExpField(f,w) == (Top(w) % 32768) \div P2(15 - f.w)
LowLimbs(w)   == SubSeq(w, 1, Len(w) - 1)
\* fraction field as a BigNat (for F80: without the stored leading bit)
FracField(f, w) ==
  IF f.x
  THEN LET m == LowLimbs(w) IN Norm([m EXCEPT ![Len(m)] = m[Len(m)] % 32768])
  ELSE Norm(Append(LowLimbs(w), Top(w) % P2(15 - f.w)))
LeadField(f, w) == w[Len(w) - 1] \div 32768          \* F80 only
\* the 64-bit significand of F80
MantField(w) == Norm(LowLimbs(w))

\* assemble an encoding from sign, exponent field and significand BigNat
\* (sig includes the leading bit when eb > 0)
PadTo(a, n) == a \o Force([i \in 1..(n - Len(a)) |-> 0])
Pack(f, s, eb, sig) ==
  IF f.x THEN Append(PadTo(sig, f.n - 1), 32768 * s + eb)
  ELSE LET hidden == P2(15 - f.w)
           a      == PadTo(sig, f.n)
           t      == a[f.n] - (IF eb > 0 THEN hidden ELSE 0)
       IN [a EXCEPT ![f.n] = 32768 * s + eb * hidden + t]

-----------------------------------------------------------------------------
(* Decoding *)

Decode(f, w) ==
  LET s  == SignField(w)
      eb == ExpField(f, w)
  IN IF f.x
     THEN LET m == MantField(w)
          IN IF eb = MaxExp(f)
             THEN IF m = << 0, 0, 0, 32768 >> THEN NInf(s) ELSE NNaN(s)
             ELSE NFin(s, m, QMin(f) + Max2(eb, 1) - 1)
     ELSE LET fr == FracField(f, w)
          IN IF eb = MaxExp(f)
             THEN IF fr = << >> THEN NInf(s) ELSE NNaN(s)
             ELSE IF eb = 0 THEN NFin(s, fr, QMin(f))
             ELSE NFin(s, Add(fr, Pow2Big(f.p - 1)), QMin(f) + eb - 1)

\* canonical encodings: those Encode can produce for a number
\* (F80 has non-canonical ones: unnormals, pseudo-denormals, pseudo-infinities)
Canonical(f, w) ==
  IF ~ f.x THEN TRUE
  ELSE LET eb == ExpField(f, w)
       IN IF eb = 0 THEN LeadField(f, w) = 0 ELSE LeadField(f, w) = 1

-----------------------------------------------------------------------------
(* Correct rounding.  Result: [k, s, eb, sig]; k \in {"fin", "inf"}.       *)

EncodeParts(f, x) ==   \* x finite, non-zero
  LET top == Msb(x)
      inf == [k |-> "inf", s |-> x.s, eb |-> MaxExp(f), sig |-> << >>]
  IN IF top > Bias(f) THEN inf
     ELSE IF top < QMin(f) - 1
     THEN [k |-> "fin", s |-> x.s, eb |-> 0, sig |-> << >>]
     ELSE LET q0   == Max2(top - (f.p - 1), QMin(f))
              sig0 == RoundShr(x.m, q0 - x.e)
              c    == BitLen(sig0) > f.p            \* carried into next binade
              sig  == IF c THEN Shr(sig0, 1) ELSE sig0
              q    == IF c THEN q0 + 1 ELSE q0
              eb   == IF BitLen(sig) < f.p THEN 0 ELSE q - QMin(f) + 1
          IN IF eb >= MaxExp(f) THEN inf
             ELSE [k |-> "fin", s |-> x.s, eb |-> eb, sig |-> sig]

PartsValue(f, r) ==
  IF r.k = "inf" THEN NInf(r.s)
  ELSE NFin(r.s, r.sig, QMin(f) + Max2(r.eb, 1) - 1)

InfSig(f) == IF f.x THEN << 0, 0, 0, 32768 >>
             ELSE IF f.w = 15 THEN Pow2Big(f.p - 1)   \* hidden bit, removed by Pack
             ELSE Pow2Big(f.p - 1)

\* the number x rounded to format f (x not NaN)
RoundTo(f, x) ==
  IF x.k # "fin" THEN x ELSE PartsValue(f, EncodeParts(f, x))

\* the encoding of x in format f (x not NaN)
Encode(f, x) ==
  IF x.k = "zero" THEN Pack(f, x.s, 0, << >>)
  ELSE IF x.k = "inf" THEN Pack(f, x.s, MaxExp(f), InfSig(f))
  ELSE LET r == EncodeParts(f, x)
       IN IF r.k = "inf" THEN Pack(f, x.s, MaxExp(f), InfSig(f))
          ELSE Pack(f, x.s, r.eb, r.sig)

Representable(f, x) == x.k # "fin" \/ CmpNum(RoundTo(f, x), x) = 0

\* big.Accuracy of r as an approximation of x: sign of r - x
Accuracy(r, x) == CmpNum(r, x)
=============================================================================
