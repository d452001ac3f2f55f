------------------------------- MODULE LibGen -------------------------------
(***************************************************************************)
(* A closed instance of FloatLib: the client draws its inputs from small   *)
(* pools, so that TLC can enumerate (or simulate) every schedule of client *)
(* and library steps.  Two uses:                                           *)
(*  - model checking: the invariants below hold in every reachable state;  *)
(*  - test generation: behaviours, kept in the history variable log, are   *)
(*    printed as JSON, executed against the real library by the driver,    *)
(*    and what it observes is validated by HistTrace.                      *)
(***************************************************************************)
EXTENDS FloatLib, Texts, FiniteSets, TLC, Json, IOUtils

CONSTANTS NR, NV, NT,  \* numbers of registers, values and texts (NR > 0)
          Depth        \* length of a behaviour

\* formats in play: one that values start in, one that can be encoded to
Fmts == IF IOEnv.GEN_FMT = "all"
        THEN {"binary16", "bfloat16", "float80x86", "binary128", "float128ppc"}
        ELSE {IOEnv.GEN_FMT}
\* are texts in play? GEN_FMT = "text": nothing else
Mixed == IOEnv.GEN_TEXT = "1"
Emit == IOEnv.GEN_EMIT = "1"

VARIABLES fmt, log
gvars == << reg, val, txt, fmt, log >>

-----------------------------------------------------------------------------
(* Pools: for every format a few telling encodings *)

Raws(name) ==
  CASE name = "binary16"   -> {<< 15361 >>, << 33023 >>, << 64512 >>, << 32768 >>}
    [] name = "bfloat16"   -> {<< 16257 >>, << 32895 >>, << 65408 >>, << 32769 >>}
    [] name = "float80x86" -> {<< 1, 0, 0, 32768, 16383 >>, << 65535, 65535, 65535, 32767, 32768 >>,
                               << 0, 0, 0, 32768, 65535 >>}
    [] name = "binary128"  -> {<< 1, 0, 0, 0, 0, 0, 0, 16383 >>, << 0, 0, 0, 0, 0, 0, 0, 65535 >>,
                               << 7, 0, 0, 0, 0, 0, 0, 32768 >>}
    [] name = "float128ppc" -> {<< 0, 0, 0, 15248, 0, 0, 0, 16368 >>, << 0, 0, 0, 0, 0, 0, 0, 65520 >>,
                               << 1, 0, 0, 32768, 1, 0, 0, 16368 >>}
EncName == IF fmt \in {"bfloat16", "text"} THEN "binary16" ELSE fmt

\* what Big() gives
DecReg(u) ==
  LET v == Value(u.f, u.w)
      x == IF v.k = "nan" THEN NZero(v.s) ELSE v
      p == Format(u.f).p
  IN [x |-> x, p |-> IF u.f = "float128ppc" THEN Max2(p, MinPrec(x)) ELSE p, md |-> 0, ac |-> 0]
EncRaw(name, x) ==
  IF name = "float128ppc" THEN LET d == DDEncode(x) IN DDPack(d.h, d.l)
  ELSE Encode(Format(name), x)

Zero53 == [x |-> NZero(0), p |-> 53, md |-> 0, ac |-> 0]
\* the first register holds a number, so that there is something to encode
Start == [x |-> NFin(0, << 3 >>, -1), p |-> 53, md |-> 0, ac |-> 0]
\* and the first value is a small integer
FirstRaw(name) ==
  CASE name = "binary16"    -> << 17664 >>
    [] name = "bfloat16"    -> << 16544 >>
    [] name = "float80x86"  -> << 0, 0, 0, 40960, 16385 >>
    [] name = "binary128"   -> << 0, 0, 0, 0, 0, 0, 16384, 16385 >>
    [] name = "float128ppc" -> << 0, 0, 0, 0, 0, 0, 0, 16404 >>
FirstVal == IF fmt = "text" THEN [f |-> "binary16", w |-> << 0 >>] ELSE [f |-> fmt, w |-> FirstRaw(fmt)]
StartedVal == [a |-> "setval", v |-> 1, f |-> FirstVal.f, w |-> FirstVal.w]
Started == [a |-> "setreg", r |-> 1, x |-> Start.x, p |-> Start.p, md |-> Start.md]
Init == /\ reg = [r \in 1..NR |-> IF r = 1 THEN Start ELSE Zero53] \o << >>
        /\ fmt \in Fmts
        /\ val = [v \in 1..NV |-> IF v = 1 THEN FirstVal ELSE [f |-> "binary16", w |-> << 0 >>]] \o << >>
        /\ txt = [t \in 1..NT |-> << >>] \o << >>
        /\ log = << >>

Say(e) == log' = Append(log, e)

Dec == \E v \in 1..NV, r \in 1..NR :
  /\ LET n == DecReg(val[v])
     IN Decode_(v, r, n, Value(val[v].f, val[v].w).k = "nan")
  /\ Say([a |-> "dec", v |-> v, r |-> r])
Enc == \E r \in 1..NR, v \in 1..NV :
  /\ LET w == EncRaw(EncName, reg[r].x)
     IN Encode_(r, v, [f |-> EncName, w |-> w], Accuracy(Value(EncName, w), reg[r].x))
  /\ Say([a |-> "enc", r |-> r, v |-> v, f |-> EncName])
Put == \E v \in 1..NV, w \in Raws(fmt) :
  /\ SetVal(v, [f |-> fmt, w |-> w])
  /\ Say([a |-> "setval", v |-> v, f |-> fmt, w |-> w])
\* the number with one bit toggled, k below the leading one
Toggled(x, k) ==
  IF x.k # "fin" THEN x
  ELSE LET t == Msb(x) - k
           e == Min2(x.e, t)
           m == Shl(x.m, x.e - e)
           d == Pow2Big(t - e)
       IN NFin(x.s, IF Bit(m, t - e) = 1 THEN Sub(m, d) ELSE Add(m, d), e)

\* the client changes its number in place
Mut ==
  \/ \E r \in 1..NR, m \in {"neg", "double", "inf"} :
     /\ m = "double" => reg[r].x.k # "inf"
     /\ SetReg(r, CASE m = "neg"    -> [reg[r] EXCEPT !.x = Neg(@)]
                    [] m = "double" -> [reg[r] EXCEPT !.x = IF @.k = "fin" THEN [@ EXCEPT !.e = @ + 1] ELSE @]
                    [] m = "inf"    -> [reg[r] EXCEPT !.x = NInf(0)])
     /\ Say([a |-> "mutreg", r |-> r, r2 |-> r, m |-> m, p |-> 1])
  \* ... by so little that neither sign nor exponent tells
  \/ \E r \in 1..NR, k \in {1, 7} :
     /\ reg[r].x.k = "fin" /\ k < reg[r].p
     /\ SetReg(r, [reg[r] EXCEPT !.x = Toggled(@, k)])
     /\ Say([a |-> "mutreg", r |-> r, r2 |-> r, m |-> "bit", p |-> k])
ToF64 == \E v \in 1..NV :
  /\ val[v].f # "bfloat16"
  /\ LET x == Value(val[v].f, val[v].w)
     IN x.k # "nan" /\ LET q == Encode(F64, x)
                       IN ToNative_(v, F64, q, Accuracy(Decode(F64, q), x))
  /\ Say([a |-> "n64", v |-> v])
Ask == \E r \in 1..NR :
  /\ IsExact_(r, 64, IsExact(F64, reg[r].x))
  /\ Say([a |-> "isx", r |-> r, n |-> 64])


(* texts: two numbers (one of them with its neighbour) whose shortest digits take the fast and the exact path,
   one with many digits, small and large integers; sizes and bases that do not
   exist are asked for as well, and change nothing *)
Floats == {[i |-> << 39322, 39321, 39321, 16313 >>, fm |-> Cg, prec |-> -1, n |-> 64],
           [i |-> << 39323, 39321, 39321, 16313 >>, fm |-> Cg, prec |-> -1, n |-> 64],
           [i |-> << 0, 8192, 33525, 16837 >>, fm |-> Ce, prec |-> -1, n |-> 32],
           [i |-> << 1, 0, 0, 32768 >>, fm |-> Ce, prec |-> 20, n |-> 64]}
Ints == {[neg |-> FALSE, m |-> << 7 >>, b |-> 10], [neg |-> FALSE, m |-> << 7 >>, b |-> 2], [neg |-> TRUE, m |-> << 0, 0, 0, 32768 >>, b |-> 2],
         [neg |-> FALSE, m |-> << 65535, 65535, 65535, 32767 >>, b |-> 10]}
FloatCall(op, p) == [op |-> op, i |-> p.i, fm |-> p.fm, prec |-> p.prec, n |-> p.n, t |-> << >>, pre |-> << >>, spoilt |-> 0]
IntCall(op, p)   == [op |-> op, neg |-> p.neg, m |-> p.m, b |-> p.b, t |-> << >>, pre |-> << >>, spoilt |-> 0]
FloatTexts == [p \in Floats |-> TextOf(NativeFormat(p.n), Decode(F64, p.i), p.fm, p.prec)]
IntTexts   == [p \in Ints |-> IntTextOf(p.neg, p.m, p.b)]
Float_(p) == FloatTexts[p]
Int_(p)   == IntTexts[p]

ToText == \E t \in 1..NT :
  \/ \E p \in Floats : /\ Format_(FloatCall("ff", p), t, Float_(p))
                       /\ Say([a |-> "ff", d |-> t, i |-> p.i, fm |-> p.fm, prec |-> p.prec, n |-> p.n])
  \/ \E p \in Ints   : /\ Format_(IntCall("fi", p), t, Int_(p))
                       /\ Say([a |-> "fi", d |-> t, neg |-> p.neg, u |-> p.m, b |-> p.b, vr |-> "FormatInt"])
Short_(t) == Len(txt[t]) < 200
AddText == \E s \in 1..NT, t \in 1..NT : Short_(s) /\
  (\/ \E p \in Floats : /\ Append_(FloatCall("appf", p), s, t, txt[s] \o Float_(p))
                        /\ Say([a |-> "appf", sr |-> s, d |-> t, i |-> p.i, fm |-> p.fm, prec |-> p.prec, n |-> p.n, m |-> "nil"])
   \/ \E p \in Ints   : /\ Append_(IntCall("appi", p), s, t, txt[s] \o Int_(p))
                        /\ Say([a |-> "appi", sr |-> s, d |-> t, neg |-> p.neg, u |-> p.m, b |-> p.b, vr |-> "AppendInt", m |-> "nil"]))
Bad == \E s \in 1..NT, op \in {"ff", "fi", "appf", "appi"} :
  /\ Refuse_([op |-> op, n |-> 0, b |-> 1, o |-> "panic"])
  /\ Say([a |-> "bad", m |-> op, i |-> << 39322, 39321, 39321, 16313 >>, fm |-> Cg, prec |-> -1, n |-> 0,
          neg |-> FALSE, u |-> << 7 >>, b |-> 1, sr |-> s,
          vr |-> IF op = "fi" THEN "FormatInt" ELSE "AppendInt"])
\* the client writes into its text in place, or starts a new one
Flip(b) == Force([j \in 1..Len(b) |-> IF b[j] % 2 = 0 THEN b[j] + 1 ELSE b[j] - 1])
Write == \E t \in 1..NT :
  \/ /\ txt[t] # << >>
     /\ SetTxt(t, Flip(txt[t]))
     /\ Say([a |-> "settxt", d |-> t, m |-> "flip", p |-> 1])
  \/ /\ SetTxt(t, << >>)
     /\ Say([a |-> "settxt", d |-> t, m |-> "cut", p |-> 3])
  \/ /\ SetTxt(t, << 120, 121 >>)
     /\ Say([a |-> "settxt", d |-> t, m |-> "new", p |-> 77, t |-> << 120, 121 >>])

Numbers_ == Dec \/ Enc \/ Put \/ Mut \/ ToF64 \/ Ask
Texts_   == ToText \/ AddText \/ Write \/ Bad
Next == /\ Len(log) < Depth
        /\ UNCHANGED fmt
        /\ \/ fmt # "text" /\ Numbers_
           \/ (fmt = "text" \/ Mixed) /\ Texts_
Spec == Init /\ [][Next]_gvars

-----------------------------------------------------------------------------
TypeOK == LibTypeOK

\* decoding and encoding again restores every canonical value
RoundTrip ==
  \A v \in 1..NV :
    LET x == Value(val[v].f, val[v].w)
    IN (x.k # "nan" /\ val[v].f # "bfloat16" /\ IsCanonical(val[v].f, val[v].w))
         => EncRaw(val[v].f, x) = val[v].w
\* what a register holds after decoding is what encoding would round to
Representables ==
  \A r \in 1..NR : LET x == reg[r].x IN
    Rounded(EncName, Rounded(EncName, x)) = Rounded(EncName, x)
\* no step writes more than one cell
OneCell ==
  [][Cardinality({r \in 1..NR : reg'[r] # reg[r]}) + Cardinality({v \in 1..NV : val'[v] # val[v]})
     + Cardinality({t \in 1..NT : txt'[t] # txt[t]}) <= 1]_gvars

\* print complete behaviours
Printed == (Emit /\ Len(log) = Depth) => PrintT(ToJson(<< Started, StartedVal >> \o log))
=============================================================================
