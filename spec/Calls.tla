------------------------------- MODULE Calls -------------------------------
(***************************************************************************)
(* The observable contract of every exported operation: which results a    *)
(* call with given arguments may have.  A call is a record logged by the   *)
(* driver at the call's return (the linearization point of a sequential    *)
(* library); field "o" is its outcome:                                     *)
(*    "ok"     returned                                                    *)
(*    "panic"  panicked        "hang"  did not return                      *)
(* No operation may do anything but return, unless the arguments are       *)
(* outside its domain.                                                     *)
(*                                                                         *)
(* Aspects selects what is checked, so that one relation serves properties *)
(* about values, accuracies, precisions and fields separately.             *)
(***************************************************************************)
EXTENDS Decimal

CONSTANT Aspects      \* subset of AllAspects
AllAspects == {"value", "acc", "prec",   \* {}: only that calls return
               "special"}                \* only where NaN, infinities and zeros go
On(a) == a \in Aspects

\* value denoted by raw encoding w of the named format
Value(name, w) == IF name = "float128ppc" THEN DDDecode(w) ELSE Decode(Format(name), w)

\* is w the encoding of the number x in the named format?
Encodes(name, w, x) ==
  IF name = "float128ppc" THEN DDEncodes(w, x) ELSE w = Encode(Format(name), x)
\* the number the named format holds after encoding x
Rounded(name, x) ==
  IF name = "float128ppc" THEN DDValue(DDEncode(x)) ELSE RoundTo(Format(name), x)
IsCanonical(name, w) ==
  IF name = "float128ppc" THEN DDCanonical(w) ELSE Canonical(Format(name), w)

\* an observed number: NaN is observed as a zero of the right sign plus a flag
Observes(x, nan, v) ==
  IF v.k = "nan" THEN nan /\ x = NZero(v.s) ELSE ~ nan /\ x = v

\* numbers that every format has besides its finite ones
Special(v) == v.k # "fin"

-----------------------------------------------------------------------------
\* Big(): (x, nan); p, md = precision and rounding mode of x
DecOK(c) ==
  LET v == Value(c.f, c.w)
      p == Format(c.f).p
  IN /\ On("value") => Observes(c.x, c.nan, v)
     /\ On("special") => IF Special(v) THEN Observes(c.x, c.nan, v)
                         ELSE ~ c.nan /\ ~ Special(c.x)
     /\ On("prec")  => /\ IF c.f = "float128ppc" THEN c.p >= p /\ c.p >= MinPrec(c.x)
                          ELSE c.p = p
                       /\ c.md = 0                       \* big.ToNearestEven

\* NewFromBig(x): (w, acc)
EncOK(c) ==
  /\ On("value") => Encodes(c.f, c.w, c.x)
  /\ On("special") => IF Special(c.x) THEN Encodes(c.f, c.w, c.x)
                      ELSE Value(c.f, c.w).k # "nan"
  /\ On("acc")   => c.acc = Accuracy(Value(c.f, c.w), c.x)

\* NewFromFloat64(i), NewFromFloat32(i): (w, acc); nf = native format
FromNativeOK(c, nf) ==
  LET v == Decode(nf, c.i)
  IN IF v.k = "nan"
     THEN /\ (On("value") \/ On("special")) => Value(c.f, c.w) = v
          /\ On("acc")   => c.acc = 0
     ELSE /\ On("value") => Encodes(c.f, c.w, v)
          /\ On("special") => IF Special(v) THEN Encodes(c.f, c.w, v)
                              ELSE Value(c.f, c.w).k # "nan"
          /\ On("acc")   => c.acc = Accuracy(Value(c.f, c.w), v)

\* Float64(), Float32(): (r, acc)
ToNativeOK(c, nf) ==
  LET v == Value(c.f, c.w)
  IN IF v.k = "nan"
     THEN /\ (On("value") \/ On("special")) => Decode(nf, c.r) = v
          /\ On("acc")   => c.acc = 0
     ELSE /\ On("value") => c.r = Encode(nf, v)
          /\ On("special") => IF Special(v) THEN c.r = Encode(nf, v)
                              ELSE Decode(nf, c.r).k # "nan"
          /\ On("acc")   => c.acc = Accuracy(Decode(nf, c.r), v)

\* Signbit(), Exp(), Frac(), Lead() -- and Bits() gives the pattern back
FldOK(c) ==
  LET f == Format(c.f)
  IN /\ c.sg = (SignField(c.w) = 1)
     /\ c.ex = ExpField(f, c.w)
     /\ Norm(c.fr) = FracField(f, c.w)
     /\ f.x => c.ld = LeadField(f, c.w)
BitsOK(c) == c.r = c.w
IsNaNOK(c) == c.r = (Value(c.f, c.w).k = "nan")

\* exported variables
ConstOK(c) ==
  LET v == Value(c.f, c.w)
  IN /\ IsCanonical(c.f, c.w)
     /\ CASE c.c = "NaN"     -> v = NNaN(0)
          [] c.c = "NegNaN"  -> v = NNaN(1)
          [] c.c = "Inf"     -> v = NInf(0)
          [] c.c = "NegInf"  -> v = NInf(1)
          [] c.c = "Zero"    -> v = NZero(0)
          [] c.c = "NegZero" -> v = NZero(1)

\* IsExact16/32/64(x)
NativeFormat(size) == CASE size = 16 -> F16 [] size = 32 -> F32 [] size = 64 -> F64
IsExactOK(c) == c.r = IsExact(NativeFormat(c.n), c.x)

\* FormatFloat(i, fm, prec, size); i = float64 encoding, t = text
FormatFloatOK(c) ==
  FloatText(NativeFormat(c.n), Decode(F64, c.i), c.fm, c.prec, c.t)
\* FormatInt/FormatUint/Itoa(neg ? -m : m, base)
FormatIntOK(c) == IntText(c.neg, c.m, c.b, c.t)
\* Append variants: prefix kept, then the text; nothing else is written to the
\* destination's array
AppendOK(c) ==
  LET n == Len(c.pre)
  IN /\ c.spoilt = 0
     /\ Len(c.t) >= n
     /\ SubSeq(c.t, 1, n) = c.pre
     /\ LET d == [c EXCEPT !.t = SubSeq(c.t, n + 1, Len(c.t))]
        IN IF c.op = "appf" THEN FormatFloatOK(d) ELSE FormatIntOK(d)

-----------------------------------------------------------------------------
(* Relations between calls.  Each event carries the results of several     *)
(* calls made one after the other.                                         *)

\* a value survives decoding and encoding again
RoundTripOK(c) ==
  LET v == Value(c.f, c.w)
  IN IF v.k = "nan" THEN c.nan
     ELSE /\ ~ c.nan
          /\ IsCanonical(c.f, c.w) => c.r = c.w /\ c.acc = 0
          /\ Encodes(c.f, c.r, v)
          /\ IsCanonical(c.f, c.r)

\* a native float survives the way through a format that contains its format
Includes(f, nf) ==
  \/ f = "float80x86" \/ f = "binary128"
  \/ f = "float128ppc" \/ f = nf.name
NativeTripOK(c, nf) ==
  LET v == Decode(nf, c.i)
  IN Includes(c.f, nf) => IF v.k = "nan" THEN Decode(nf, c.r) = v
                          ELSE c.r = c.i /\ c.acc = 0 /\ c.acc2 = 0

\* encoding is monotone
OrderOK(c) ==
  LET o == CmpNum(c.x, c.y)
      a == Value(c.f, c.w)
      b == Value(c.f, c.w2)
  IN /\ a.k # "nan" /\ b.k # "nan"
     /\ o <= 0 => CmpNum(a, b) <= 0
     /\ o >= 0 => CmpNum(a, b) >= 0

\* encoding commutes with negation
SymmetryOK(c) ==
  LET a == Value(c.f, c.w)
      b == Value(c.f, c.w2)
  IN /\ a.k # "nan"
     /\ b = Neg(a)
     /\ c.acc2 = -c.acc

\* the order of encodings (sign, then bits) is the order of values
FlipSign(w) == [w EXCEPT ![Len(w)] = (@ + 32768) % 65536]
RECURSIVE CmpRaw(_, _, _)
CmpRaw(v, w, i) == IF i = 0 THEN 0 ELSE IF v[i] < w[i] THEN -1 ELSE IF v[i] > w[i] THEN 1
                   ELSE CmpRaw(v, w, i - 1)
RawOrder(v, w) ==      \* of canonical single-layout encodings
  LET sv == SignField(v)
      sw == SignField(w)
      mag(u) == [u EXCEPT ![Len(u)] = @ % 32768]
      zero(u) == \A j \in 1..Len(u) : mag(u)[j] = 0
      cm == CmpRaw(mag(v), mag(w), Len(v))
  IN IF zero(v) /\ zero(w) THEN 0
     ELSE IF sv # sw THEN (IF sv = 1 THEN -1 ELSE 1)
     ELSE IF sv = 1 THEN -cm ELSE cm
DecodeOrderOK(c) ==
  LET vx == Value(c.f, c.w)
      vy == Value(c.f, c.w2)
  IN /\ c.nan = (vx.k = "nan")
     /\ c.nan2 = (vy.k = "nan")
     /\ (~ c.nan /\ ~ c.nan2 /\ IsCanonical(c.f, c.w) /\ IsCanonical(c.f, c.w2)) =>
          /\ CmpNum(c.x, c.y) = CmpNum(vx, vy)
          /\ Format(c.f).w # 0 => CmpNum(c.x, c.y) = RawOrder(c.w, c.w2)

\* the negated encoding; a pair is negated by negating both halves
NegRaw(n, w) == IF Format(n).w = 0 THEN [w EXCEPT ![4] = (@ + 32768) % 65536, ![8] = (@ + 32768) % 65536]
                ELSE FlipSign(w)
Ordered(x, y, a, b) ==
  (x.k # "nan" /\ y.k # "nan") =>
     /\ a.k # "nan" /\ b.k # "nan"
     /\ CmpNum(x, y) <= 0 => CmpNum(a, b) <= 0
     /\ CmpNum(x, y) >= 0 => CmpNum(a, b) >= 0
\* so are the conversions from native floats, which commute with negation too:
\* w of i, w2 of i2, w3 of -i
NativeOrderOK(c, nf) ==
  /\ Ordered(Decode(nf, c.i), Decode(nf, c.i2), Value(c.f, c.w), Value(c.f, c.w2))
  /\ Value(c.f, c.w3) = Neg(Value(c.f, c.w))
  /\ c.acc3 = -c.acc
\* and those to native floats: r of w, r2 of w2, r3 of the negated w
ToNativeOrderOK(c, nf) ==
  /\ Ordered(Value(c.f, c.w), Value(c.f, c.w2), Decode(nf, c.r), Decode(nf, c.r2))
  /\ Decode(nf, c.r3) = Neg(Decode(nf, c.r))
  /\ c.acc3 = -c.acc

\* a chain of formats: every hop rounds the value that arrived, no more
RECURSIVE HopsOK(_, _, _)
HopsOK(c, v, i) ==
  IF i > Len(c.hops) THEN TRUE
  ELSE LET f == c.hops[i]
           r == Value(f, c.ws[i])
       IN /\ Encodes(f, c.ws[i], v)
          /\ c.accs[i] = Accuracy(r, v)
          /\ HopsOK(c, r, i + 1)
MigrationOK(c) == HopsOK(c, Value(c.f, c.w), 1)

-----------------------------------------------------------------------------
ResultOK(c) ==
  CASE c.op = "dec"  -> DecOK(c)
    [] c.op = "enc"  -> EncOK(c)
    [] c.op = "e64"  -> FromNativeOK(c, F64)
    [] c.op = "e32"  -> FromNativeOK(c, F32)
    [] c.op = "n64"  -> ToNativeOK(c, F64)
    [] c.op = "n32"  -> ToNativeOK(c, F32)
    [] c.op = "fld"  -> FldOK(c)
    [] c.op = "bits" -> BitsOK(c)
    [] c.op = "isn"  -> IsNaNOK(c)
    [] c.op = "con"  -> ConstOK(c)
    [] c.op = "isx"  -> IsExactOK(c)
    [] c.op = "ff"   -> FormatFloatOK(c)
    [] c.op = "fi"   -> FormatIntOK(c)
    [] c.op \in {"appf", "appi"} -> AppendOK(c)
    [] c.op = "rt"   -> RoundTripOK(c)
    [] c.op = "nrt64" -> NativeTripOK(c, F64)
    [] c.op = "nrt32" -> NativeTripOK(c, F32)
    [] c.op = "ord"  -> OrderOK(c)
    [] c.op = "sym"  -> SymmetryOK(c)
    [] c.op = "dord" -> DecodeOrderOK(c)
    [] c.op = "eo64" -> NativeOrderOK(c, F64)
    [] c.op = "eo32" -> NativeOrderOK(c, F32)
    [] c.op = "no64" -> ToNativeOrderOK(c, F64)
    [] c.op = "no32" -> ToNativeOrderOK(c, F32)
    [] c.op = "mig"  -> MigrationOK(c)

\* the same call made twice, at different times in different goroutines and
\* with a different past or in another process: same arguments, same outcome
\* (whether it is the right one is SingleOK's question)
\* sizes and bases that do not exist are refused, whatever else is asked for,
\* and the destination is left alone
Refused(c) == \/ c.op \in {"ff", "appf"} /\ c.n \notin {16, 32, 64}
              \/ c.op \in {"fi", "appi"} /\ c.b \notin 2..36
RefusedOK(c) == c.o = "panic" /\ (c.op \in {"appf", "appi"} => c.t = c.pre /\ c.spoilt = 0)

SingleOK(c) == IF Refused(c) THEN RefusedOK(c)
               ELSE c.o = "ok" /\ (Aspects # {} => ResultOK(c))
TwiceOK(c) == c.c1 = c.c2

CallOK(c) == IF c.op = "twice" THEN c.o = "ok" /\ TwiceOK(c) ELSE SingleOK(c)
=============================================================================
