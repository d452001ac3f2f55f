------------------------------ MODULE MCEncode ------------------------------
(***************************************************************************)
(* Design of the conversions from big.Float: the library rounds with       *)
(* nothing but arithmetic at a fixed precision (round and NewFromBig of    *)
(* binary16, binary128, float80x86; NewFromBig of float128ppc), one        *)
(* operation a step, for every point of a grid finer than the smallest     *)
(* denormal number of a small format, both signs, and far beyond its ends. *)
(*                                                                         *)
(* "ieee": numbers in the denormal range are rounded by adding the         *)
(*   smallest normal number with p bits and subtracting it again; then the *)
(*   exponent and the significand are read off.                            *)
(* "pair": the nearest element, the exact rest, the element nearest to the *)
(*   rest, and a repair when their sum rounds to another element.          *)
(*                                                                         *)
(* Checked: the result is the one correct rounding gives (EncodeParts,     *)
(* DDEncodeIn, which MCRounding and MCDoubleDouble compare with every      *)
(* number of the format), and the accuracy is the sign of the error.       *)
(*                                                                         *)
(* First = p rounds to p bits before all that, as binary16.NewFromFloat64  *)
(* once did; Edge = 1 takes numbers up to twice half the smallest denormal *)
(* for zero; Repair = FALSE leaves the repair out.  TLC refutes the three. *)
(***************************************************************************)
EXTENDS Nearest, TLC

CONSTANTS Formats_,   \* set of 10 * p + w
          Kinds, Fine, First, Edge, Repair

VARIABLES f, x, kind, pc, y, z, eb, sig, acc
vars == << f, x, kind, pc, y, z, eb, sig, acc >>

X(g, s, j) == NFin(s, FromInt(j), QMin(g) - Fine)
Top_(g)    == P2(Bias(g) + 1 - QMin(g) + Fine) + 20
Far(g, s)  == {NFin(s, FromInt(m), t) : m \in {1, 3, 7}, t \in {-60, QMin(g) - 4, Bias(g) + 2, 60}}

\* big.Float: x rounded to n bits, ties to even, any exponent
Prec(v, n) == IF v.k # "fin" THEN v
              ELSE NFin(v.s, RoundShr(v.m, BitLen(v.m) - n), v.e + BitLen(v.m) - n)
MantExp(v) == IF v.k = "fin" THEN Msb(v) + 1 ELSE 0
\* element arithmetic
Plus(v, t)  == RoundTo(f, AddFin(v, t, 0))
Minus(v, t) == Plus(v, Neg(t))

Init == /\ f \in {[name |-> "toy", p |-> g \div 10, w |-> g % 10, x |-> FALSE, n |-> 1] : g \in Formats_}
        /\ kind \in Kinds
        /\ x \in {X(f, s, j) : s \in {0, 1}, j \in 1..Top_(f)} \cup Far(f, 0) \cup Far(f, 1)
        /\ y = NZero(0) /\ z = (IF kind = "ieee" THEN x ELSE NZero(0))  \* ieee: the number asked for
        /\ eb = 0 /\ sig = << >> /\ acc = 0
        /\ pc = (IF kind = "pair" THEN "high" ELSE IF First THEN "first" ELSE "range")

Keep == UNCHANGED << f, kind >>
Go(l) == pc' = l

(* ieee *)
Min_ == NFin(x.s, One, 1 - Bias(f))          \* the smallest normal number
FirstStep ==
  /\ pc = "first" /\ x' = Prec(x, f.p) /\ Go("range")
  /\ UNCHANGED << y, z, eb, sig, acc >> /\ Keep
Round_ ==
  /\ pc = "range"
  /\ CASE MantExp(x) > 1 - Bias(f) -> y' = Prec(x, f.p) /\ Go("acc")
       [] MantExp(x) <= (1 - Bias(f)) - f.p + Edge -> y' = NZero(0) /\ Go("acc")
       [] OTHER -> y' = Prec(AddFin(x, Min_, 0), f.p) /\ Go("back")
  /\ UNCHANGED << x, z, eb, sig, acc >> /\ Keep
Back ==
  /\ pc = "back" /\ y' = Prec(AddFin(y, Neg(Min_), 0), f.p) /\ Go("acc")
  /\ UNCHANGED << x, z, eb, sig, acc >> /\ Keep
Acc ==
  /\ pc = "acc" /\ acc' = CmpNum(y, x)
  /\ Go(IF y.k = "zero" THEN "done" ELSE "fields")
  /\ UNCHANGED << x, y, z, eb, sig >> /\ Keep
Fields ==
  /\ pc = "fields"
  /\ LET b == MantExp(y) - 1 + Bias(f)
     IN IF MantExp(y) > Bias(f) + 1
        THEN eb' = MaxExp(f) /\ sig' = << >> /\ acc' = (IF x.s = 1 THEN -1 ELSE 1)
        ELSE /\ acc' = acc
             /\ IF b <= 0 THEN eb' = 0 /\ sig' = Shl(y.m, y.e - QMin(f))
                ELSE eb' = b /\ sig' = Shl(y.m, f.p - BitLen(y.m))
  /\ Go("done") /\ UNCHANGED << x, y, z >> /\ Keep

(* pair: y and z are the halves *)
High_ ==
  /\ pc = "high" /\ y' = RoundTo(f, x)
  /\ acc' = CmpNum(y', x)
  /\ Go(IF y'.k = "inf" THEN "done" ELSE "low")
  /\ UNCHANGED << x, z, eb, sig >> /\ Keep
Low_ ==
  /\ pc = "low" /\ z' = RoundTo(f, AddFin(x, Neg(y), 0))
  /\ Go(IF Repair THEN "repair" ELSE "sum")
  /\ UNCHANGED << x, y, eb, sig, acc >> /\ Keep
RepairStep ==
  /\ pc = "repair"
  /\ LET s == Plus(y, z)
     IN IF CmpNum(s, y) = 0 THEN UNCHANGED << y, z >>
        ELSE y' = s /\ z' = (IF s.k = "inf" THEN NZero(0) ELSE Plus(Minus(y, s), z))
  /\ Go("sum") /\ UNCHANGED << x, eb, sig, acc >> /\ Keep
Sum ==
  /\ pc = "sum" /\ acc' = CmpNum(DDValue([h |-> y, l |-> z]), x)
  /\ Go("done") /\ UNCHANGED << x, y, z, eb, sig >> /\ Keep

Next == FirstStep \/ Round_ \/ Back \/ Acc \/ Fields \/ High_ \/ Low_ \/ RepairStep \/ Sum
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* subtracting gives back a multiple of the smallest denormal, exactly
Aligned == (pc = "acc" /\ y.k = "fin") => y.e >= QMin(f)
Exact == (pc = "back") => Prec(AddFin(y, Neg(Min_), 0), f.p) = AddFin(y, Neg(Min_), 0)
Contract == (pc = "done" /\ kind = "ieee") =>
  LET r == EncodeParts(f, z)
  IN /\ eb = r.eb /\ (r.k = "fin" => sig = r.sig)
     /\ acc = Accuracy(PartsValue(f, r), z)
\* the repair is exact: nothing of the value is lost
Lossless == (pc = "repair" /\ Plus(y, z).k # "inf") =>
  LET s == Plus(y, z) IN AddFin(s, Plus(Minus(y, s), z), 0) = AddFin(y, z, 0) \/ CmpNum(s, y) = 0
PairOK == (pc = "done" /\ kind = "pair") =>
  LET d == DDEncodeIn(f, x)
  IN /\ y = d.h
     /\ z = d.l \/ (z.k = "zero" /\ d.l.k = "zero")
     /\ acc = CmpNum(DDValue(d), x)
=============================================================================
