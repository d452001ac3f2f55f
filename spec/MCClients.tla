------------------------------ MODULE MCClients ------------------------------
(***************************************************************************)
(* Why concurrent clients may take a call of the library for one step      *)
(* (FloatLib does): a call reads its argument in pieces, works in scratch  *)
(* memory, and hands out its result in storage.  Clients have a register   *)
(* of their own, which they change in place, and share one they only read. *)
(* The designs:                                                            *)
(*   Scratch  "own": of the call      "shared": of the library             *)
(*   Result   "fresh" storage         "cached": kept for the next caller   *)
(*   Argument "kept" as it is         "borrowed": changed during the call  *)
(*                                    and restored                         *)
(* With own, fresh, kept every call returns what it would return alone,    *)
(* whatever the others do, results share no storage, and arguments keep    *)
(* their contents at every moment.  TLC refutes the other three choices:   *)
(* what the histories of C15 look for.                                     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Clients, Scratch, Result, Argument,
          Spare     \* storage besides that of the cells

Words  == 0..1
Pieces == {"hi", "lo"}
Cells  == Clients \cup {"shared"}
Numbers_ == [Pieces -> Words]
\* what the operation computes: depends on both pieces
Op(x) == [hi |-> (x.hi + x.lo) % 2, lo |-> 1 - x.hi]

Stores == 1..(Cardinality(Cells) + Spare)

VARIABLES store,    \* storage: contents
          reg,      \* cell: storage
          cache,    \* the library's: <<argument, storage>>
          scratch,  \* per call, or the library's: index "lib"
          pc, arg,  \* of every client's call
          want,     \* what its call returns when alone
          last      \* the call just returned: << client, want >> or << >>
vars == << store, reg, cache, scratch, pc, arg, want, last >>

Buf(c) == IF Scratch = "own" THEN c ELSE "lib"
Val(c) == store[reg[c]]
Free   == Stores \ ({reg[c] : c \in Cells} \cup {t[2] : t \in cache})

Init == /\ reg = CHOOSE g \in [Cells -> Stores] : \A a, b \in Cells : a # b => g[a] # g[b]
        /\ store \in [Stores -> Numbers_]
        /\ \A s \in Stores : (\A c \in Cells : reg[c] # s) => store[s] = [hi |-> 0, lo |-> 0]
        /\ cache = {}
        /\ scratch = [c \in Clients \cup {"lib"} |-> [hi |-> 0, lo |-> 0]]
        /\ pc = [c \in Clients |-> "idle"] /\ arg = [c \in Clients |-> "shared"]
        /\ want = [c \in Clients |-> [hi |-> 0, lo |-> 0]]
        /\ last = << >>

\* a client changes its own register, one piece, in place
Mutate(c) ==
  /\ pc[c] = "idle"
  /\ \E p \in Pieces, w \in Words : store' = [store EXCEPT ![reg[c]][p] = w]
  /\ last' = << >> /\ UNCHANGED << reg, cache, scratch, pc, arg, want >>

\* own := Op(a): a is the own register or the shared one
Call(c) ==
  /\ pc[c] = "idle"
  /\ \E a \in {c, "shared"} : arg' = [arg EXCEPT ![c] = a] /\ want' = [want EXCEPT ![c] = Op(Val(a))]
  /\ pc' = [pc EXCEPT ![c] = "hi"]
  /\ last' = << >> /\ UNCHANGED << store, reg, cache, scratch >>

\* read a piece; a borrowed argument has its piece changed meanwhile
Read(c, p, next) ==
  /\ pc[c] = p
  /\ scratch' = [scratch EXCEPT ![Buf(c)][p] = Val(arg[c])[p]]
  /\ store' = (IF Argument = "borrowed" THEN [store EXCEPT ![reg[arg[c]]][p] = 1 - @] ELSE store)
  /\ pc' = [pc EXCEPT ![c] = next]
  /\ last' = << >> /\ UNCHANGED << reg, cache, arg, want >>
Restore(c) ==
  /\ pc[c] = "restore"
  /\ store' = (IF Argument = "borrowed" THEN [store EXCEPT ![reg[arg[c]]] = [p \in Pieces |-> 1 - @[p]]] ELSE store)
  /\ pc' = [pc EXCEPT ![c] = "return"]
  /\ last' = << >> /\ UNCHANGED << reg, cache, scratch, arg, want >>

Return(c) ==
  /\ pc[c] = "return"
  /\ LET x == scratch[Buf(c)]
         hit == {t \in cache : t[1] = x}
     IN IF Result = "cached" /\ hit # {}
        THEN /\ reg' = [reg EXCEPT ![c] = (CHOOSE t \in hit : TRUE)[2]]
             /\ UNCHANGED << store, cache >>
        ELSE /\ Free # {}
             /\ LET s == CHOOSE t \in Free : TRUE
                IN /\ reg' = [reg EXCEPT ![c] = s]
                   /\ store' = [store EXCEPT ![s] = Op(x)]
                   /\ cache' = (IF Result = "cached" /\ cache = {} THEN {<< x, s >>} ELSE cache)
  /\ pc' = [pc EXCEPT ![c] = "idle"]
  /\ last' = << c, want[c] >>
  /\ UNCHANGED << scratch, arg, want >>

Next == \E c \in Clients :
  Mutate(c) \/ Call(c) \/ Read(c, "hi", "lo") \/ Read(c, "lo", "restore") \/ Restore(c) \/ Return(c)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* a call returns what it would return alone
AsIfAlone == last # << >> => Val(last[1]) = last[2]
\* no two cells share storage
Separate == \A a, b \in Cells : a # b => reg[a] # reg[b]
\* the steps of a call change one cell at most, and that at its return
Quiet == [][\A c \in Cells : store'[reg'[c]] # store[reg[c]] =>
              c # "shared" /\ (pc[c] = "idle" \/ pc[c] = "return")]_vars
Inv == AsIfAlone /\ Separate
=============================================================================
