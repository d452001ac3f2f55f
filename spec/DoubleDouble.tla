---------------------------- MODULE DoubleDouble ----------------------------
(***************************************************************************)
(* The PowerPC double-double format: a pair of float64 encodings whose     *)
(* exact sum is the value.  A raw encoding is the low half (4 limbs)       *)
(* followed by the high half (4 limbs), i.e. little-endian like the other  *)
(* 128-bit format.                                                         *)
(***************************************************************************)
EXTENDS Formats

HighRaw(w) == SubSeq(w, 5, 8)
LowRaw(w)  == SubSeq(w, 1, 4)
High(w)    == Decode(F64, HighRaw(w))
Low(w)     == Decode(F64, LowRaw(w))
DDPack(h, l) == Encode(F64, l) \o Encode(F64, h)

\* NaN when either half is, or for a sum of opposite infinities; the sign of
\* a NaN and of a zero is the sign of the high half
DDDecode(w) ==
  LET h == High(w)
      l == Low(w)
  IN IF h.k = "nan" \/ l.k = "nan" THEN NNaN(h.s)
     ELSE IF h.k = "inf" THEN (IF l.k = "inf" /\ l.s # h.s THEN NNaN(h.s) ELSE h)
     ELSE IF l.k = "inf" THEN l
     ELSE LET v == AddFin(h, l, h.s)
          IN IF v.k = "zero" THEN NZero(h.s) ELSE v

\* canonical pairs: the high half is the float64 nearest to the sum
DDCanonical(w) ==
  LET v == DDDecode(w)
  IN CASE v.k = "nan"  -> TRUE
       [] v.k = "inf"  -> Low(w) = NZero(0) /\ High(w) = v
       [] v.k = "zero" -> Low(w) = NZero(0)
       [] v.k = "fin"  -> /\ High(w) = RoundTo(F64, v)
                          /\ Low(w).k = "zero" => Low(w).s = 0

\* Nearest double-double: [h, l] with h the float64 nearest to the value of
\* the pair and l the float64 nearest to the rest.
\* (over any element format f; MCDoubleDouble checks it over small ones).
DDEncodeIn(f, x) ==   \* x not NaN
  IF x.k # "fin" THEN [h |-> x, l |-> NZero(0)]
  ELSE LET h == RoundTo(f, x)
       IN IF h.k = "inf" THEN [h |-> h, l |-> NZero(0)]
          ELSE LET r == AddFin(x, Neg(h), 0)
                   l == RoundTo(f, r)
                   v == AddFin(h, l, h.s)
                   g == RoundTo(f, v)
               IN IF CmpNum(g, h) = 0 THEN [h |-> h, l |-> l]
                  ELSE IF g.k = "inf" THEN [h |-> g, l |-> NZero(0)]
                  ELSE [h |-> g, l |-> AddFin(v, Neg(g), 0)]
DDEncode(x) == DDEncodeIn(F64, x)

DDValue(d) == IF d.h.k # "fin" /\ d.l.k = "zero" THEN d.h ELSE AddFin(d.h, d.l, d.h.s)

\* when the rest underflows to zero, the sign of that zero is not specified
DDEncodes(w, x) ==
  LET d == DDEncode(x)
  IN /\ High(w) = d.h
     /\ \/ Low(w) = d.l
        \/ /\ x.k = "fin" /\ d.l.k = "zero" /\ Low(w).k = "zero"
           /\ CmpNum(DDValue(d), x) # 0
=============================================================================
