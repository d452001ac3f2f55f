------------------------------- MODULE MCItoa -------------------------------
(***************************************************************************)
(* Design of integer formatting (formatBits in internal/strconv/itoa.go),  *)
(* one digit or pair of digits a step: a buffer is filled from its end,    *)
(* base 10 two digits at a time - on 32-bit words in blocks of one digit   *)
(* and Pairs pairs - powers of two by shifting, other bases by division.   *)
(* A negative number arrives as its two's complement.                      *)
(*                                                                         *)
(* The model has words of W bits (the library: 64), blocks of 2*Pairs + 1  *)
(* digits (9), and a buffer of Buf bytes (65), and takes every word, base  *)
(* and sign.  Checked: the buffer is never left and never too small, and   *)
(* the text denotes the number, without leading zeros.                     *)
(***************************************************************************)
EXTENDS Decimal, TLC

CONSTANTS W, Pairs, Buf, Hosts    \* Hosts: subset of {"wide", "narrow"}

VARIABLES word, base, neg, host,  \* what is asked
          u, us, j, i, a, pc
vars == << word, base, neg, host, u, us, j, i, a, pc >>

RECURSIVE Ten(_)
Ten(x)  == IF x = 0 THEN 1 ELSE 10 * Ten(x - 1)
Block   == Ten(2 * Pairs + 1)
Mod     == P2(W)
Power   == base \in {2, 4, 8, 16, 32}
DigitCh(x) == IF x < 10 THEN 48 + x ELSE 87 + x

Init == /\ word \in 0..(Mod - 1)
        /\ neg \in BOOLEAN
        /\ neg => word >= P2(W - 1)         \* two's complement of a negative number
        /\ base \in 2..36
        /\ host \in Hosts /\ (base # 10 => host = "wide")
        /\ u = (IF neg THEN (Mod - word) % Mod ELSE word)
        /\ us = 0 /\ j = 0 /\ i = Buf /\ a = [x \in 1..Buf |-> 0]
        /\ pc = (IF base # 10 THEN "digits" ELSE IF host = "narrow" THEN "blocks" ELSE "pairs0")

Keep == UNCHANGED << word, base, neg, host >>
\* bytes a[x], a[x+1] .. of the buffer, counted from 0
Put1(x, c)     == i' = x /\ a' = [a EXCEPT ![x + 1] = c]
Put2(x, c, d)  == i' = x /\ a' = [a EXCEPT ![x + 1] = c, ![x + 2] = d]

Blocks ==
  /\ pc = "blocks"
  /\ IF u >= Block
     THEN u' = u \div Block /\ us' = u % Block /\ j' = Pairs /\ pc' = "block"
     ELSE pc' = "pairs0" /\ UNCHANGED << u, us, j >>
  /\ UNCHANGED << i, a >> /\ Keep
InBlock ==
  /\ pc = "block"
  /\ IF j > 0
     THEN /\ Put2(i - 2, 48 + ((us % 100) \div 10), 48 + (us % 10))
          /\ us' = us \div 100 /\ j' = j - 1 /\ UNCHANGED pc
     ELSE /\ Put1(i - 1, 48 + (us % 10))      \* one digit is left
          /\ pc' = "blocks" /\ UNCHANGED << us, j >>
  /\ UNCHANGED u /\ Keep
Pairs0 ==
  /\ pc = "pairs0"
  /\ us' = u /\ pc' = "pairs" /\ UNCHANGED << u, j, i, a >> /\ Keep
PairsOf ==
  /\ pc = "pairs"
  /\ IF us >= 100
     THEN Put2(i - 2, 48 + ((us % 100) \div 10), 48 + (us % 10)) /\ us' = us \div 100 /\ UNCHANGED pc
     ELSE /\ (IF us >= 10 THEN Put2(i - 2, 48 + (us \div 10), 48 + (us % 10)) ELSE Put1(i - 1, 48 + us))
          /\ pc' = "sign" /\ UNCHANGED us
  /\ UNCHANGED << u, j >> /\ Keep
Digits ==
  /\ pc = "digits"
  /\ Put1(i - 1, DigitCh(u % base))
  /\ u' = u \div base
  /\ pc' = (IF u >= base THEN "digits" ELSE "sign")
  /\ UNCHANGED << us, j >> /\ Keep
Sign ==
  /\ pc = "sign"
  /\ IF neg THEN Put1(i - 1, CMinus) ELSE UNCHANGED << i, a >>
  /\ pc' = "done" /\ UNCHANGED << u, us, j >> /\ Keep

Next == Blocks \/ InBlock \/ Pairs0 \/ PairsOf \/ Digits \/ Sign
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Room == i \in 0..Buf
Text == SubSeq(a, i + 1, Buf)
Magnitude == IF neg THEN Mod - word ELSE word
Contract == pc = "done" => IntText(neg, FromInt(Magnitude), base, Text)
ValOf(c) == IF c < 58 THEN c - 48 ELSE c - 87
\* the part of the text that is already there is the end of the final one
Suffix == (pc = "digits" /\ i < Buf) =>
  Magnitude % base = ValOf(a[Buf])
Ends == <>(pc = "done")
=============================================================================
