----------------------------- MODULE CallTrace -----------------------------
(***************************************************************************)
(* Trace validation of independent calls.  The trace is an ndjson file of  *)
(* call events logged by the driver at each call's return; it is cut into  *)
(* chunks that TLC's workers validate in parallel.  A state is a position  *)
(* <<c, i>>: the first i-1 events of chunk c were accepted.  A step from i *)
(* to i+1 exists iff CallOK(event i): iff the specification allows the     *)
(* observed result.  The trace is accepted iff every chunk is consumed,    *)
(* i.e. iff TLC finds exactly one state per event plus one per chunk.      *)
(* The first event a chunk does not accept is printed as REJECTED.         *)
(***************************************************************************)
EXTENDS Calls, TLC, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
N == Len(T)
ChunkSize == atoi(IOEnv.CHUNK)
Chunks == (N + ChunkSize - 1) \div ChunkSize
Start(c) == (c - 1) * ChunkSize + 1
End(c)  == Min2(c * ChunkSize, N)

VARIABLES c, i
vars == << c, i >>

Init == c \in 1..Chunks /\ i = Start(c)

Accept == /\ i <= End(c)
          /\ IF CallOK(T[i]) THEN TRUE ELSE PrintT(<< "REJECTED", i >>) /\ FALSE
          /\ i' = i + 1
          /\ UNCHANGED c
Next == Accept
Spec == Init /\ [][Next]_vars

TypeOK == c \in 1..Chunks /\ i \in Start(c)..(End(c) + 1)
Accepted == TLCGet("stats").distinct = N + Chunks
=============================================================================
