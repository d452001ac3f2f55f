----------------------------- MODULE MCRounding -----------------------------
(***************************************************************************)
(* Correct rounding, checked exhaustively on small formats: x walks up a   *)
(* grid eight times finer than the smallest denormal, from 0 to beyond     *)
(* overflow.  Every position is rounded and compared with every number of  *)
(* the format.                                                             *)
(***************************************************************************)
EXTENDS Nearest, TLC

CONSTANT Formats_     \* set of 10 * p + w
VARIABLES f, i
vars == << f, i >>

Fine == 3
X(j) == IF j = 0 THEN NZero(0) ELSE NFin(IF j < 0 THEN 1 ELSE 0, FromInt(IF j < 0 THEN -j ELSE j), QMin(f) - Fine)
\* 2^(Bias+1) in grid units, and some
Top_ == P2(Bias(f) + 1 - QMin(f) + Fine) + 20

Init == /\ f \in {[name |-> "toy", p |-> g \div 10, w |-> g % 10, x |-> FALSE, n |-> 1] : g \in Formats_}
        /\ i \in {j \in 1..Top_ : j % 64 = 1}     \* segments, walked in parallel
Next == i < Top_ /\ i' = i + 1 /\ UNCHANGED f
Spec == Init /\ [][Next]_vars

x == X(i)
R(y) == EncodeParts(f, y)
V(y) == RoundTo(f, y)

Nearest == NearestOf(f, x, R(x))
Locally == NearestLocally(f, x, R(x)) /\ NearestLocally(f, Neg(x), R(Neg(x)))
\* the local criterion admits no other result
Unique == \A v \in Finite(f) : NearestLocally(f, x, v) => v = R(x)
Idempotent == V(V(x)) = V(x)
Symmetric == V(Neg(x)) = Neg(V(x)) /\ Accuracy(V(Neg(x)), Neg(x)) = -Accuracy(V(x), x)
AccuracyOK == LET a == Accuracy(V(x), x)
              IN /\ a \in {-1, 0, 1}
                 /\ (a = 0) = Representable(f, x)
                 /\ (V(x).k = "inf") => a = 1
\* the sign of a number that rounds to zero is kept
SignKept == V(x).s = 0 /\ V(Neg(x)).s = 1
Monotone == [][ CmpNum(RoundTo(f, X(i)), RoundTo(f, X(i'))) <= 0 ]_vars
=============================================================================
