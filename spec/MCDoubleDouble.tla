--------------------------- MODULE MCDoubleDouble ---------------------------
(***************************************************************************)
(* Double-double encoding over small element formats: the pair DDEncodeIn  *)
(* gives is canonical, its high half is the element nearest to the pair's  *)
(* value and to x, no pair of elements with that high half is nearer to x, *)
(* and pairs denote themselves.                                            *)
(***************************************************************************)
EXTENDS Nearest, TLC

CONSTANT Formats_     \* set of 10 * p + w
VARIABLES f, i
vars == << f, i >>

Fine == 2
X(j) == NFin(0, FromInt(j), QMin(f) - Fine)
Top_ == P2(Bias(f) + 1 - QMin(f) + Fine) + 20

Init == /\ f \in {[name |-> "toy", p |-> g \div 10, w |-> g % 10, x |-> FALSE, n |-> 1] : g \in Formats_}
        /\ i \in {j \in 1..Top_ : j % 64 = 1}     \* segments, walked in parallel
Next == i < Top_ /\ i' = i + 1 /\ UNCHANGED f
Spec == Init /\ [][Next]_vars

x == X(i)
d == DDEncodeIn(f, x)
v == DDValue(d)
Elements == {PartsValue(f, r) : r \in Finite(f)} \cup {Neg(PartsValue(f, r)) : r \in Finite(f)}

Canonical_ == /\ d.h.k # "nan"
              /\ d.h.k = "inf" => d.l = NZero(0)
              /\ d.h.k # "inf" => /\ d.h = RoundTo(f, v)
                                  /\ Representable(f, d.l)
NearestHigh == d.h.k = "fin" => CmpNum(d.h, RoundTo(f, x)) = 0 \/ CmpDist(v, d.h, RoundTo(f, x)) <= 0
\* no element added to the nearest element of x comes nearer to x
NearestLow ==
  LET h0 == RoundTo(f, x)
  IN (d.h.k # "inf") => \A l \in Elements : CmpDist(x, v, AddFin(h0, l, 0)) <= 0
\* encoding is idempotent
Idempotent == DDEncodeIn(f, v) = d \/ d.l.k = "zero"
\* overflow exactly where the element format overflows, or where the rest
\* pushes the pair over the threshold
Overflow == d.h.k = "inf" => CmpNum(x, PartsValue(f, [k |-> "fin", s |-> 0, eb |-> MaxExp(f) - 1, sig |-> FromInt(P2(f.p) - 1)])) > 0
Symmetric == LET e == DDEncodeIn(f, Neg(x))
             IN e.h = Neg(d.h) /\ (e.l = Neg(d.l) \/ (e.l.k = "zero" /\ d.l.k = "zero"))
Monotone == [][ CmpNum(DDValue(DDEncodeIn(f, X(i))), DDValue(DDEncodeIn(f, X(i')))) <= 0 ]_vars
=============================================================================
