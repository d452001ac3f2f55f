----------------------------- MODULE FloatLib -----------------------------
(***************************************************************************)
(* The library as a state machine seen by one client.  The client holds    *)
(* number registers (big.Float objects), encoded values (Float objects)    *)
(* and texts (strings, and byte slices it may write and append to).        *)
(* Every exported operation is one action, taken at its return.  An action *)
(* changes exactly the one cell its result is stored in: arguments keep    *)
(* their contents, results share no storage with anything else, and the    *)
(* outcome is a function of the arguments' current contents alone -- no    *)
(* hidden state.  These are the UNCHANGED parts; Calls.tla says what the   *)
(* results are.                                                            *)
(*                                                                         *)
(* reg[r] = [x, p, md, ac]: value, precision, rounding mode and accuracy of *)
(*                       a register                                        *)
(* val[v] = [f, w]:     format name and encoding of a value                *)
(* txt[t] = bytes:      contents of a text                                 *)
(***************************************************************************)
EXTENDS Calls

VARIABLES reg, val, txt
lvars == << reg, val, txt >>

Registers == DOMAIN reg
Values    == DOMAIN val
CellTexts == DOMAIN txt

IsReg(n) == IsNumber(n.x) /\ n.x.k # "nan" /\ n.p >= 0 /\ n.md \in 0..5 /\ n.ac \in -1..1
IsVal(u) == u.f \in FormatNames /\ IsRaw(Format(u.f), u.w)
IsTxt(b) == \A i \in 1..Len(b) : b[i] \in 0..255
LibTypeOK == /\ \A r \in Registers : IsReg(reg[r])
             /\ \A v \in Values : IsVal(val[v])
             /\ \A t \in CellTexts : IsTxt(txt[t])

-----------------------------------------------------------------------------
(* The client's own steps *)

\* assign to a register, or change the number in it in place
SetReg(r, n) == reg' = [reg EXCEPT ![r] = n] /\ UNCHANGED << val, txt >>
\* NewFromBits
SetVal(v, u) == val' = [val EXCEPT ![v] = u] /\ UNCHANGED << reg, txt >>
\* make a text, or write into, cut or extend one in place
SetTxt(t, b) == txt' = [txt EXCEPT ![t] = b] /\ UNCHANGED << reg, val >>

-----------------------------------------------------------------------------
(* The library's operations *)

\* reg[r] := val[v].Big(); n = the new register, nan = the flag
Decode_(v, r, n, nan) ==
  /\ DecOK([f |-> val[v].f, w |-> val[v].w, x |-> n.x, nan |-> nan, p |-> n.p, md |-> n.md])
  /\ reg' = [reg EXCEPT ![r] = n]
  /\ UNCHANGED << val, txt >>

\* val[v] := NewFromBig(reg[r]); u = the new value
Encode_(r, v, u, acc) ==
  /\ EncOK([f |-> u.f, x |-> reg[r].x, w |-> u.w, acc |-> acc])
  /\ val' = [val EXCEPT ![v] = u]
  /\ UNCHANGED << reg, txt >>

\* val[v] := NewFromFloat64(i) / NewFromFloat32(i)
FromNative_(i, nf, v, u, acc) ==
  /\ FromNativeOK([f |-> u.f, i |-> i, w |-> u.w, acc |-> acc], nf)
  /\ val' = [val EXCEPT ![v] = u]
  /\ UNCHANGED << reg, txt >>

\* val[v].Float64() / Float32() = q
ToNative_(v, nf, q, acc) ==
  /\ ToNativeOK([f |-> val[v].f, w |-> val[v].w, r |-> q, acc |-> acc], nf)
  /\ UNCHANGED lvars

\* IsExact16/32/64(reg[r]) = q
IsExact_(r, size, q) ==
  /\ IsExactOK([n |-> size, x |-> reg[r].x, r |-> q])
  /\ UNCHANGED lvars

\* txt[t] := FormatFloat(...), FormatInt(...), FormatUint(...), Itoa(...);
\* b = the new text
Format_(call, t, b) ==
  /\ ResultOK([call EXCEPT !.t = b])
  /\ txt' = [txt EXCEPT ![t] = b]
  /\ UNCHANGED << reg, val >>

\* txt[t] := AppendFloat(txt[s], ...), AppendInt(txt[s], ...), ...
Append_(call, s, t, b) ==
  /\ AppendOK([call EXCEPT !.pre = txt[s], !.t = b])
  /\ txt' = [txt EXCEPT ![t] = b]
  /\ UNCHANGED << reg, val >>

\* a call that asks for a size or base that does not exist, even one that was
\* to append to a text
Refuse_(call) == Refused(call) /\ call.o = "panic" /\ UNCHANGED lvars

\* any operation on arguments that are not in a cell, refused calls among them
OtherCall_(call) == CallOK(call) /\ UNCHANGED lvars
=============================================================================
