----------------------------- MODULE HistTrace -----------------------------
(***************************************************************************)
(* Trace validation of histories.  Every line of the trace is one client's *)
(* history: the initial state and, for every step, the action with its     *)
(* arguments and results and the whole state observed after it.  A step is *)
(* accepted iff the FloatLib action leads to exactly the observed state.   *)
(* Histories ran concurrently in the driver; each must be explained alone. *)
(***************************************************************************)
EXTENDS FloatLib, TLC, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
H == Len(T)
Events == FoldSeq(LAMBDA h, n : n + Len(h.ev), 0, T)

VARIABLES h, i
vars == << h, i, reg, val, txt >>

\* is the observed state one a client can be in at all?
StateOK(st) == /\ \A r \in DOMAIN st.reg : IsReg(st.reg[r])
               /\ \A v \in DOMAIN st.val : IsVal(st.val[v])
               /\ \A t \in DOMAIN st.txt : IsTxt(st.txt[t])

Init == /\ h \in 1..H
        /\ i = 1
        /\ reg = T[h].st.reg
        /\ val = T[h].st.val
        /\ txt = T[h].st.txt
        /\ IF StateOK(T[h].st) THEN TRUE ELSE PrintT(<< "REJECTED", h, 0 >>) /\ FALSE

StepOK(e) ==
  CASE e.a \in {"setreg", "mutreg"} -> SetReg(e.r, [x |-> e.x, p |-> e.p, md |-> e.md, ac |-> e.ac])
    [] e.a = "setval" -> SetVal(e.v, [f |-> e.f, w |-> e.w])
    [] e.a = "dec"    -> Decode_(e.v, e.r, e.reg[e.r], e.nan)
    [] e.a = "enc"    -> Encode_(e.r, e.v, [f |-> e.f, w |-> e.val[e.v].w], e.acc)
    [] e.a = "e64"    -> FromNative_(e.i, F64, e.v, [f |-> e.f, w |-> e.val[e.v].w], e.acc)
    [] e.a = "e32"    -> FromNative_(e.i, F32, e.v, [f |-> e.f, w |-> e.val[e.v].w], e.acc)
    [] e.a = "n64"    -> ToNative_(e.v, F64, e.q, e.acc)
    [] e.a = "n32"    -> ToNative_(e.v, F32, e.q, e.acc)
    [] e.a = "isx"    -> IsExact_(e.r, e.n, e.q)
    [] e.a = "settxt" -> SetTxt(e.d, e.t)
    [] e.a \in {"ff", "fi"}     -> Format_(e.c, e.d, e.txt[e.d])
    [] e.a \in {"appf", "appi"} -> Append_(e.c, e.sr, e.d, e.txt[e.d])
    [] e.a = "bad"    -> Refuse_(e.c)
    [] e.a = "call"   -> OtherCall_(e.c)

\* the observed state is the next state; the action must allow it
Step == /\ i <= Len(T[h].ev)
        /\ LET e == T[h].ev[i]
           IN /\ reg' = e.reg
              /\ val' = e.val
              /\ txt' = e.txt
              /\ IF e.o = "ok" /\ StateOK(e) /\ StepOK(e) THEN TRUE
                 ELSE PrintT(<< "REJECTED", h, i >>) /\ FALSE
        /\ i' = i + 1
        /\ UNCHANGED h
Spec == Init /\ [][Step]_vars

TypeOK == LibTypeOK
Accepted == TLCGet("stats").distinct = Events + H
=============================================================================
