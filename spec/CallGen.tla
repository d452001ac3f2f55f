------------------------------- MODULE CallGen -------------------------------
(***************************************************************************)
(* Calls at the boundaries of the specification: TLC enumerates, from the  *)
(* case distinctions of Formats and DoubleDouble, numbers on and around    *)
(* rounding boundaries and encodings with telling fields, checks the       *)
(* specification itself there, and prints the calls as JSON.  The driver   *)
(* makes them on the real code and CallTrace judges what it observed.      *)
(***************************************************************************)
EXTENDS Calls, Nearest, TLC, Json

CONSTANTS Kinds,     \* set of <<operation, format name>>, given as strings "op.name"
          Full,      \* more of everything
          Phase      \* varies which of many equals are taken

Ops == {"enc", "sym", "ord", "eo64", "eo32", "no64", "no32", "dec", "dord", "rt", "fld", "bits", "isn", "n64", "n32", "e64", "e32", "isx",
        "mig", "spc", "enz", "far"}
Encodables == {"binary16", "float80x86", "binary128", "float128ppc"}
Single == {"binary16", "bfloat16", "float80x86", "binary128", "float32", "float64"}

-----------------------------------------------------------------------------
(* Numbers around the boundaries of a single-layout format *)

Around(S) == S \cup {j - 1 : j \in S} \cup {j + 1 : j \in S}
\* exponent fields: the ends, one, and where other formats over- and underflow
Exps(f) ==
  LET b == Bias(f)
      ends == {0, 1, 2, MaxExp(f) - 2, MaxExp(f) - 1}
      mid  == {b - 1, b, b + 1, b + f.p - 1}
      oth  == {b + d : d \in {15, 16, -14, -24, -25, 127, 128, -126, -149, -150,
                              1023, 1024, -1022, -1074, -1075}}
  IN {e \in ends \cup mid \cup (IF Full THEN Around(oth) \cup Around({b + 10, b + 63, b + 64, b + 112}) ELSE {}) :
        e >= 0 /\ e < MaxExp(f)}

Ones(n) == Sub(Pow2Big(n), One)
Alt(n)  == Shr(<< 43690, 43690, 43690, 43690, 43690, 43690, 43690, 43690 >>, 128 - n)
\* fraction patterns of n bits
Pats(n) ==
  {Zero, One, << 2 >>, Ones(n), Sub(Ones(n), One), Pow2Big(n - 1), Add(Pow2Big(n \div 2), One), Alt(n)}
  \cup (IF n > 66 THEN {Pow2Big(64), Ones(64), Pow2Big(63), Shl(One, 48), Sub(Ones(n), Ones(64))} ELSE {})
MorePats(n) == {Ones(j) : j \in 1..(n - 1)} \cup {Pow2Big(j) : j \in 1..(n - 1)}
               \cup {Sub(Ones(n), Pow2Big(j)) : j \in 0..(n - 1)}
Sig(f, eb, P) == IF eb = 0 THEN P ELSE {Add(Pow2Big(f.p - 1), g) : g \in P}

K == 90      \* displacements are multiples of 2^-K units in the last place
Disp ==
  {NZero(0)} \cup
  {NFin(s, m, -K) : s \in {0, 1}, m \in {One, Pow2Big(K - 2), Pow2Big(K - 1), Add(Pow2Big(K - 1), One),
                                        Sub(Pow2Big(K - 1), One), Ones(K)}}
MoreDisp == {NFin(s, Add(Pow2Big(K - 1), Pow2Big(j)), -K) : s \in {0, 1}, j \in 1..(K - 2)}
Scale(x, q) == IF x.k = "fin" THEN [x EXCEPT !.e = @ + q] ELSE x

\* significands and displacements taken together; of all of them only one is telling
NumsAt(f, eb) ==
  LET q == QMin(f) + Max2(eb, 1) - 1
      at(P, D) == {AddFin(NFin(0, sig, q), Scale(d, q), 0) : sig \in Sig(f, eb, P), d \in D}
  IN at(Pats(f.p - 1), Disp)
     \cup (IF Full THEN at({g \in MorePats(f.p - 1) : (BitLen(g) + Phase) % 2 = 0}, Disp)
                        \cup at({Zero, One, Ones(f.p - 1)}, MoreDisp) ELSE {})

-----------------------------------------------------------------------------
(* Numbers around double-doubles *)

DDExps == {1, 2, 53, 54, 107, 1023, 2045, 2046} \cup (IF Full THEN {3, 30, 106, 108, 500, 1022, 1024, 1500, 2000, 2044} ELSE {})
DDSigs == {Pow2Big(52), Add(Pow2Big(52), One), Ones(53), Sub(Ones(53), One), Alt(53)}
LowSigs == {One, Pow2Big(52), Add(Pow2Big(52), One), Ones(53), Alt(53)}
Gaps == {0, 1, 5, 53, 54} \cup (IF Full THEN {2, 3, 20, 52, 100, 900} ELSE {})
\* the low half starts gap bits below half a unit of the high half
DDNumsAt(eb) ==
  LET q == QMin(F64) + eb - 1
      D == {NZero(0)} \cup {NFin(s, m, -2) : s \in {0, 1}, m \in {One, << 2 >>, << 3 >>}}
           \cup {NFin(s, Add(Pow2Big(59), One), -60) : s \in {0, 1}}
      lows == {NFin(s, m, q - BitLen(m) - g) : s \in {0, 1}, m \in LowSigs, g \in Gaps}
      h == {NFin(0, sig, q) : sig \in DDSigs}
  IN {AddFin(AddFin(x, l, 0), Scale(d, l.e), 0) : x \in h, l \in lows, d \in D}

\* numbers so close to a tie or to a representable one that only a bit far out
\* tells: no working precision is enough for all of them
FarOut == {130, 300, 700, 1100, 2200, 4200, 9000, 17000, 33000, 66000}
FarDisp == UNION {{NFin(s, One, -k), AddFin(NFin(0, One, -1), NFin(s, One, -k), 0)} : s \in {0, 1}, k \in FarOut}
FarExps == {0, 1, 1023, -1}   \* -1: the largest
FarNums(name, eb) ==
  LET f == IF name = "float128ppc" THEN F64 ELSE Format(name)
      b == IF eb = -1 \/ eb >= MaxExp(f) THEN MaxExp(f) - 1 ELSE eb
      q == QMin(f) + Max2(b, 1) - 1
      base == {NFin(0, sig, q) : sig \in Sig(f, b, {Zero, One, Ones(f.p - 1)})}
      \* the low half of a double-double hangs on the high one
      low == IF name # "float128ppc" THEN {[x |-> x, q |-> q] : x \in base}
             ELSE {[x |-> AddFin(x, NFin(s, m, q - 54), 0), q |-> q - 54] : x \in base, s \in {0, 1}, m \in {One, Ones(53)}}
                  \cup {[x |-> x, q |-> q] : x \in base}
  IN {AddFin(y.x, Scale(d, y.q), 0) : y \in low, d \in FarDisp}

BigNums(name, eb) == IF name = "float128ppc" THEN DDNumsAt(eb) ELSE NumsAt(Format(name), eb)
BigExps(name) == IF name = "float128ppc" THEN DDExps ELSE Exps(Format(name))

-----------------------------------------------------------------------------
(* Encodings *)

RawExps(f) == Exps(f) \cup {MaxExp(f)}
RawsAt(f, ebs) ==
  {IF f.x THEN Append(PadTo(IF ld = 1 THEN Add(g, Pow2Big(f.p - 1)) ELSE g, f.n - 1), 32768 * s + eb)
   ELSE LET a == PadTo(g, f.n) IN [a EXCEPT ![f.n] = @ + 32768 * s + eb * P2(15 - f.w)] :
     s \in {0, 1}, eb \in ebs, g \in Pats(f.p - 1) \cup (IF Full THEN MorePats(f.p - 1) ELSE {}), ld \in IF f.x THEN {0, 1} ELSE {0}}
SingleRaws(f) == RawsAt(f, RawExps(f))
\* halves of double-doubles
HalfExps == {0, 1, 1023, 1024, 970, 2046, 2047}
HalfPats == {Zero, One, Ones(52), Pow2Big(51)}
Half == {LET a == PadTo(g, 4) IN [a EXCEPT ![4] = @ + 32768 * s + eb * 16] :
           s \in {0, 1}, eb \in HalfExps, g \in HalfPats}
Raws(name, hi) == IF name = "float128ppc" THEN {l \o hi : l \in Half} ELSE RawsAt(Format(name), {hi})

-----------------------------------------------------------------------------
(* The calls *)

\* "op.name" -> op, name
KindOp(k)   == CHOOSE o \in Ops : \E n \in FormatNames : k = o \o "." \o n
KindName(k) == CHOOSE n \in FormatNames : \E o \in Ops : k = o \o "." \o n

\* a seed is a kind with a part of its cases, so that TLC's workers share them
NativeName(op) == IF op \in {"n64", "e64", "no64", "eo64"} THEN "float64" ELSE "float32"
Seeds(k) ==
  LET o == KindOp(k)
      n == KindName(k)
  IN CASE o \in {"enc", "sym", "isx", "ord"} -> {<< k, eb >> : eb \in BigExps(n)}
       [] o \in {"n64", "n32", "no64", "no32"} -> {<< k, eb >> : eb \in Exps(Format(NativeName(o)))}
       [] n = "float128ppc" /\ o \in {"dec", "dord", "rt", "bits", "isn", "spc"} -> {<< k, h >> : h \in Half}
       [] o = "far" -> {<< k, eb >> : eb \in FarExps}
       [] o = "mig" -> {<< k, g, eb >> : g \in {"binary16", "float80x86", "binary128"}, eb \in {-1} \cup Exps(F16) \cup Exps(F80)}
                       \cup {<< k, "float128ppc", eb >> : eb \in DDExps}
       [] o \in {"dec", "dord", "rt", "bits", "isn", "spc", "fld"} -> {<< k, eb >> : eb \in RawExps(Format(n))}
       [] o \in {"e64", "e32", "eo64", "eo32"} -> {<< k, eb >> : eb \in RawExps(Format(NativeName(o)))}
                                \cup (IF n = "binary16" THEN {<< k, -1 - eb >> : eb \in Exps(F16)} ELSE {})
       [] OTHER -> {<< k, 0 >>}

Arg(x) == [x |-> x, xp |-> MinPrec(x) + 3, xm |-> MinPrec(x) % 6, xa |-> 0]
Both(S) == S \cup {Neg(x) : x \in S}
EncRaw(n, x) == IF n = "float128ppc" THEN LET d == DDEncode(x) IN DDPack(d.h, d.l) ELSE Encode(Format(n), x)

\* the next encoding (upwards in magnitude, to the other sign after the last)
RECURSIVE SuccFrom(_, _)
SuccFrom(w, i) == IF i > Len(w) THEN w
                  ELSE IF w[i] = 65535 THEN SuccFrom([w EXCEPT ![i] = 0], i + 1)
                  ELSE [w EXCEPT ![i] = @ + 1]
Succ(w) == SuccFrom(w, 1)

\* chains of formats: to g at once, and to g over others and back
Chains(g, j) ==
  LET o == << "float128ppc", "float80x86", "binary128", "binary16" >>
      h == o[1 + (j % 4)]
      i == o[1 + ((j \div 4) % 4)]
  IN {<< g >>, << h, g >>, << h, i, g >>, << g, h, g, i >>}
MigNums(g, eb) ==
  IF g = "float128ppc" THEN DDNumsAt(eb)
  ELSE LET f == Format(g) IN IF eb = -1 \/ eb >= MaxExp(f) THEN {NZero(0), NInf(0)} ELSE NumsAt(f, eb)
MigCalls(n, g, eb) ==
  {[op |-> "mig", f |-> n, w |-> EncRaw(n, IF (BitLen(x.m) + eb) % 2 = 0 THEN x ELSE Neg(x)), hops |-> hs] :
     x \in {y \in MigNums(g, eb) : (BitLen(y.m) + y.e + Phase) % 7 = 0 \/ y.k # "fin"},
     hs \in Chains(g, eb + Phase + 2)}

\* the special values in every operation that can meet them
SpcCalls(n, part) ==
  LET W == {w \in Raws(n, part) : Value(n, w).k # "fin"}
  IN {[op |-> "dec", f |-> n, w |-> w] : w \in W}
     \cup (IF n = "float128ppc" THEN {[op |-> "isn", f |-> n, w |-> w] : w \in W} ELSE {})
     \cup (IF n \in Encodables THEN {[op |-> o, f |-> n, w |-> w] : o \in {"n64", "n32", "rt"}, w \in W} ELSE {})
\* zeros and infinities of any precision and mode, and the exported constants
EnzCalls(n) ==
  {[op |-> "enc", f |-> n, x |-> x, xp |-> p, xm |-> md, xa |-> a] :
     x \in {NZero(0), NZero(1), NInf(0), NInf(1)}, p \in {0, 1, 11, 53, 64, 106, 113, 2200}, md \in 0..5, a \in {-1, 0, 1}}
  \cup {[op |-> "con", f |-> n, c |-> c] : c \in {"NaN", "NegNaN", "Inf", "NegInf", "Zero", "NegZero"}}
  \cup {[op |-> "e64", f |-> n, i |-> w] : w \in {u \in SingleRaws(F64) : Decode(F64, u).k # "fin"}}
  \cup {[op |-> "e32", f |-> n, i |-> w] : w \in {u \in SingleRaws(F32) : Decode(F32, u).k # "fin"}}

\* pairs of numbers close to each other
OrdCalls(n, eb) ==
  LET S == {x \in BigNums(n, eb) : x.k = "fin" /\ (BitLen(x.m) + x.e + Phase) % 3 = 0}
      Arg2(y) == [y |-> y, yp |-> MinPrec(y) + 1, ym |-> MinPrec(y) % 5, ya |-> 0]
      tiny(x) == NFin(MinPrec(x) % 2, One, x.e - 1)
      ys(x) == {AddFin(x, tiny(x), 0), Neg(AddFin(x, tiny(x), 0)), AddFin(x, NFin(0, One, Msb(x) - 11), 0)}
  IN UNION {{[op |-> "ord", f |-> n] @@ Arg(x) @@ Arg2(y) : y \in {z \in ys(x) : z.k = "fin"}} : x \in S}

Calls_(seed) ==
  LET o == KindOp(seed[1])
      n == KindName(seed[1])
  IN CASE o \in {"enc", "sym"} ->
            {[op |-> o, f |-> n] @@ Arg(x) : x \in {y \in Both(BigNums(n, seed[2])) :
               y.k = "fin" /\ (o = "enc" \/ (BitLen(y.m) + y.e + y.m[1] + Phase) % 4 = 0)}}
       [] o = "isx" ->
            {[op |-> o, n |-> CASE n = "binary16" -> 16 [] n = "float32" -> 32 [] n = "float64" -> 64] @@ Arg(x) :
               x \in {y \in Both(NumsAt(Format(n), seed[2])) : y.k = "fin" /\ y.e > -1300}}
       [] o = "ord" -> OrdCalls(n, seed[2])
       [] o = "dord" -> {[op |-> "dord", f |-> n, w |-> w, w2 |-> u] : <<w, u>> \in UNION {
                           {<< w1, Succ(w1) >>, << FlipSign(w1), w1 >>} : w1 \in Raws(n, seed[2])}}
       [] o = "mig" -> {c \in MigCalls(n, seed[2], seed[3]) : Value(n, c.w).k # "nan"}
       [] o = "far" ->
            {(IF n \in {"float32", "float64"} THEN [op |-> "isx", n |-> IF n = "float32" THEN 32 ELSE 64]
              ELSE [op |-> "enc", f |-> n]) @@ Arg(x) :
               x \in {y \in Both(FarNums(n, seed[2])) : y.k = "fin" /\ (n \notin {"float32", "float64"} \/ y.e > -1300)}}
       [] o = "spc" -> SpcCalls(n, seed[2])
       [] o = "enz" -> EnzCalls(n)
       [] o \in {"n64", "n32"} ->
            {[op |-> o, f |-> n, w |-> EncRaw(n, x)] :
               x \in Both(NumsAt(Format(NativeName(o)), seed[2]))}
       [] o \in {"e64", "e32"} ->
            LET nf == Format(NativeName(o))
            IN IF seed[2] >= 0 THEN {[op |-> o, f |-> n, i |-> w] : w \in RawsAt(nf, {seed[2]})}
               ELSE {[op |-> o, f |-> n, i |-> Encode(nf, x)] : x \in Both(NumsAt(F16, -1 - seed[2]))}
       [] o \in {"no64", "no32"} ->
            {[op |-> o, f |-> n, w |-> w, w2 |-> Succ(w)] :
               w \in {EncRaw(n, x) : x \in {y \in NumsAt(Format(NativeName(o)), seed[2]) :
                 y.k = "fin" /\ (BitLen(y.m) + y.e + Phase) % 2 = 0}}}
       [] o \in {"eo64", "eo32"} ->
            LET nf == Format(NativeName(o))
                S == IF seed[2] >= 0 THEN RawsAt(nf, {seed[2]}) ELSE {Encode(nf, x) : x \in NumsAt(F16, -1 - seed[2])}
            IN {[op |-> o, f |-> n, i |-> w, i2 |-> Succ(w)] : w \in S}
       [] OTHER -> {[op |-> o, f |-> n, w |-> w] : w \in Raws(n, seed[2])}

VARIABLES seed, call
vars == << seed, call >>
None == [op |-> "none"]
Init == seed \in UNION {Seeds(k) : k \in Kinds} /\ call = None
Next == call = None /\ call' \in Calls_(seed) /\ UNCHANGED seed
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* the specification satisfies its own declarative reading on every case
EncSpecOK ==
  call.op \in {"enc", "sym"} =>
    IF call.x.k # "fin" THEN Value(call.f, EncRaw(call.f, call.x)) = call.x
    ELSE IF call.f = "float128ppc"
    THEN LET d == DDEncode(call.x)
             w == DDPack(d.h, d.l)
         IN (DDCanonical(w) \/ (d.l.k = "zero" /\ CmpNum(DDValue(d), call.x) # 0)) /\ DDEncodes(w, call.x) /\ DDDecode(w) = (IF d.h.k = "inf" THEN d.h ELSE DDValue(d))
    ELSE LET f == Format(call.f)
             r == EncodeParts(f, call.x)
             w == Encode(f, call.x)
         IN /\ NearestLocally(f, call.x, r)
            /\ IsRaw(f, w) /\ Canonical(f, w)
            /\ Decode(f, w) = (IF r.k = "fin" /\ r.sig = << >> THEN NZero(call.x.s) ELSE PartsValue(f, r))
DecSpecOK ==
  (call.op \in {"dec", "rt", "fld"} /\ call.f # "float128ppc") =>
    LET f == Format(call.f)
        v == Decode(f, call.w)
    IN IsNumber(v) /\ ((v.k # "nan" /\ Canonical(f, call.w)) => Encode(f, v) = call.w)
SpecOK == EncSpecOK /\ DecSpecOK

Printed == call # None => PrintT(ToJson(call))
=============================================================================
