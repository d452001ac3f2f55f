----------------------------- MODULE MCShortest -----------------------------
(***************************************************************************)
(* Design of shortest formatting: the digit walk the library falls back on *)
(* when its 64-bit arithmetic cannot decide (roundShortest in              *)
(* internal/strconv/ftoa.go), one digit position a step, for every finite  *)
(* positive number of a small format, and for the first denormal numbers   *)
(* of the real formats.  The exact decimal expansions of the *)
(* number and of the two ends of its rounding interval are walked side by  *)
(* side until the number is told apart; the digits so far, rounded up or   *)
(* down, are the answer.  Checked: what comes out is what the contract     *)
(* (IsShortest) demands, the walk ends, and stops no later than the        *)
(* expansion does.                                                         *)
(*                                                                         *)
(* A small format has numbers whose interval reaches from 9 * 10^n to      *)
(* 10^(n+1) or beyond: there the walk gives 10^(n+1) though a digit may be *)
(* nearer.  In the real formats only the first denormal numbers have such  *)
(* wide intervals, and none of theirs lies so (Narrow).                    *)
(*                                                                         *)
(* Carry = FALSE is the walk as the library had it first: it compares      *)
(* digits of different weight when the upper end has more digits than the  *)
(* number, and forgets differences in earlier digits.  TLC refutes it      *)
(* (float32 721867968; no half-precision number).                           *)
(***************************************************************************)
EXTENDS Decimal, TLC

CONSTANTS Formats_,   \* set of 10 * p + w; 16, 32, 64: the first numbers of a real one
          Carry

VARIABLES f, r,       \* the format and the parts of the number
          ex,         \* expansions of the lower end, the number, the upper end
          pc,         \* "start", "walk", "done"
          ui, ud,     \* position in the upper end's digits, what was seen so far
          res         \* the answer [d, dp]: 0.d * 10^dp
vars == << f, r, ex, pc, ui, ud, res >>

FormatOf(g) == CASE g = 16 -> F16 [] g = 32 -> F32 [] g = 64 -> F64
                 [] OTHER -> [name |-> "toy", p |-> g \div 10, w |-> g % 10, x |-> FALSE, n |-> 1]
Toy(g) == g.name = "toy"
PartsOf(g) == IF ~ Toy(g) THEN {[k |-> "fin", s |-> 0, eb |-> 0, sig |-> FromInt(z)] : z \in 1..(IF g.w < 11 THEN 64 ELSE 16)}
     \cup {EncodeParts(g, NFin(0, FromInt(z), 6)) : z \in IF g = F32 THEN 11279170..11279200 ELSE {}} ELSE
   {[k |-> "fin", s |-> 0, eb |-> 0, sig |-> FromInt(z)] : z \in 1..(P2(g.p - 1) - 1)}
   \cup {[k |-> "fin", s |-> 0, eb |-> eb, sig |-> FromInt(z)] :
            eb \in 1..(MaxExp(g) - 1), z \in P2(g.p - 1)..(P2(g.p) - 1)}

RECURSIVE DigitsFrom(_)
DigitsFrom(D) == IF D = << >> THEN << >>
                 ELSE LET x == DivMod(D, 10) IN Append(DigitsFrom(x.q), x.r)
\* the exact expansion of m * 2^e: digits without trailing zeros, and the point
Expand(m, e) ==
  LET t == TrailingZeros(m)
      x == ExactDecimal(Shr(m, t), e + t)
      d == DigitsFrom(x.D)
  IN [d |-> d, dp |-> Len(d) + x.k]

q == QMin(f) + Max2(r.eb, 1) - 1             \* the number is sig * 2^q
Expansions ==
  [low |-> IF r.sig = Pow2Big(f.p - 1) /\ r.eb > 1
           THEN Expand(Sub(Shl(r.sig, 2), One), q - 2)
           ELSE Expand(Sub(Shl(r.sig, 1), One), q - 1),
   mid |-> Expand(r.sig, q),
   upp |-> Expand(Add(Shl(r.sig, 1), One), q - 1)]
low  == ex.low
mid  == ex.mid
upp  == ex.upp
incl == ~ IsOdd(r.sig)

At(x, i) == IF i >= 0 /\ i < Len(x.d) THEN x.d[i + 1] ELSE 0
RECURSIVE Trim(_)
Trim(d) == IF d = << >> \/ d[Len(d)] # 0 THEN d ELSE Trim(SubSeq(d, 1, Len(d) - 1))
Down(x, n) == IF n < 0 \/ n >= Len(x.d) THEN x ELSE [x EXCEPT !.d = Trim(SubSeq(@, 1, n))]
RECURSIVE NotNine(_, _)
NotNine(d, i) == IF i = 0 \/ d[i] < 9 THEN i ELSE NotNine(d, i - 1)
Up(x, n) ==
  IF n < 0 \/ n >= Len(x.d) THEN x
  ELSE LET i == NotNine(x.d, n)
       IN IF i = 0 THEN [d |-> << 1 >>, dp |-> x.dp + 1]
          ELSE [x EXCEPT !.d = Append(SubSeq(@, 1, i - 1), @[i] + 1)]
Nearest(x, n) ==
  IF n < 0 \/ n >= Len(x.d) THEN x
  ELSE LET c == x.d[n + 1]
           up == IF c = 5 /\ n + 1 = Len(x.d) THEN n > 0 /\ x.d[n] % 2 = 1 ELSE c >= 5
       IN IF up THEN Up(x, n) ELSE Down(x, n)

Init == /\ f \in {FormatOf(g) : g \in Formats_}
        /\ r \in PartsOf(f)
        /\ ex = Expansions
        /\ pc = "start" /\ ui = 0 /\ ud = 0 /\ res = [d |-> << >>, dp |-> 0]

\* the digits are so few that none can be dropped
Start ==
  /\ pc = "start"
  /\ IF r.eb > 1 /\ 332 * (mid.dp - Len(mid.d)) >= 100 * q
     THEN pc' = "done" /\ res' = mid
     ELSE pc' = "walk" /\ res' = res
  /\ UNCHANGED << f, r, ex, ui, ud >>

Walk ==
  /\ pc = "walk"
  /\ LET mi == IF Carry THEN (ui + mid.dp) - upp.dp ELSE ui
         li == IF Carry THEN (ui + low.dp) - upp.dp ELSE ui
         l  == At(low, li)
         m  == At(mid, mi)
         u  == At(upp, ui)
         okdown == l # m \/ (incl /\ li + 1 = Len(low.d))
         d2 == CASE ud = 0 /\ m + 1 < u -> 2
                 [] ud = 0 /\ m # u     -> 1
                 [] ud = 1 /\ (m # 9 \/ u # 0) -> 2
                 [] OTHER -> ud
         okup == IF Carry THEN d2 > 0 /\ (incl \/ d2 > 1 \/ ui + 1 < Len(upp.d))
                 ELSE m # u /\ (incl \/ m + 1 < u \/ ui + 1 < Len(upp.d))
     IN IF mi >= Len(mid.d)
        THEN pc' = "done" /\ res' = mid /\ UNCHANGED << ui, ud >>
        ELSE IF okdown \/ okup
        THEN /\ pc' = "done"
             /\ res' = (IF okdown /\ okup THEN Nearest(mid, mi + 1)
                        ELSE IF okdown THEN Down(mid, mi + 1) ELSE Up(mid, mi + 1))
             /\ UNCHANGED << ui, ud >>
        ELSE ui' = ui + 1 /\ ud' = d2 /\ UNCHANGED << pc, res >>
  /\ UNCHANGED << f, r, ex >>

Next == Start \/ Walk
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
TypeOK == /\ pc \in {"start", "walk", "done"}
          /\ ud \in 0..2
          /\ ui \in 0..(Len(mid.d) + 1)

\* the interval does not contain both 9 * 10^(n-1) and 10^n
Narrow == \/ ~ Toy(f)
          \/ LET iv == Interval(f, r)
             IN ~ (InInterval(iv, << 9 >>, mid.dp - 1) /\ InInterval(iv, One, mid.dp))

\* the answer is the one the contract asks for
Contract == pc = "done" =>
  LET D == FromDigits(res.d, 10)
      k == res.dp - Len(res.d)
      iv == Interval(f, r)
  IN /\ res.d # << >> /\ res.d[Len(res.d)] # 0
     /\ IF Narrow THEN IsShortest(f, r, D, k) ELSE InInterval(iv, D, k) /\ NoShorter(iv, D, k)

\* while walking, the digits so far do not settle the number: the number cut
\* there and the next one up are both outside the interval, or ud says why not
Undecided == (pc = "walk" /\ ui > 0) =>
  LET mi == (ui + mid.dp) - upp.dp
  IN mi <= 0 \/
     LET D == FromDigits(SubSeq(mid.d, 1, Min2(mi, Len(mid.d))), 10)
         k == mid.dp - mi
         E == IF mi > Len(mid.d) THEN MulPow10(D, mi - Len(mid.d)) ELSE D
     IN ~ InInterval(Interval(f, r), E, k) /\ ~ InInterval(Interval(f, r), Add(E, One), k)
Ends == <>(pc = "done")
=============================================================================
