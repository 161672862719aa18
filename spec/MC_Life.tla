------------------------------ MODULE MC_Life -------------------------------
(* C16 (state after a refused call), C17 and C18 on the specification: the life of objects and of     *)
(* the caller's buffers.  Objects are made from buffers, called, copied, cleared; the caller writes     *)
(* into its buffers at any time.  Results are terms, so two results are equal only if they are made of   *)
(* the same values in the same way.                                                                      *)
(*                                                                                                       *)
(* Memory is explicit: a field of an object is a cell, and objects could share cells with each other      *)
(* or with buffers.  The rules of the library are: constructors, update and copy take values (fresh        *)
(* cells), results are fresh buffers, clear writes zeros to the cells of the object.  The invariants say    *)
(* what a caller sees: a result is that of the object's own calls; after clear, that of a zero secret.      *)
(* Mutated copies of this module (tools/spec_mutants.py) that share a cell or keep one are refuted.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils
Thorough == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
MaxObj == 2
MaxOps == IF Thorough THEN 7 ELSE 5
Bufs == {1, 2}
Contents == {"s1", "s2"}
Zero == "0"
\* cells: address -> content; objects have a secret cell and a data cell.
VARIABLES cells, buf, objs, solo, outs, ops
vars == <<cells, buf, objs, solo, outs, ops>>
NewCell(c, v) == Append(c, v)
\* buf: buffer -> cell.  objs: id -> [sec, dat: cells, cleared].
\* solo: id -> what the calls of this object alone amount to [sec, dat]: the reference.
Init == /\ cells = <<"s1", "s2">> /\ buf = [b \in Bufs |-> b]
        /\ objs = <<>> /\ solo = <<>> /\ outs = <<>> /\ ops = 0
Go == ops < MaxOps /\ ops' = ops + 1
New(b) == /\ Go /\ Len(objs) < MaxObj
          /\ cells' = cells \o <<cells[buf[b]], <<>>>>
          /\ objs' = Append(objs, [sec |-> Len(cells) + 1, dat |-> Len(cells) + 2])
          /\ solo' = Append(solo, [sec |-> cells[buf[b]], dat |-> <<>>])
          /\ outs' = <<>> /\ UNCHANGED buf
Update(i, b) == /\ Go
                /\ cells' = [cells EXCEPT ![objs[i].dat] = Append(@, cells[buf[b]])]
                /\ solo' = [solo EXCEPT ![i].dat = Append(@, cells[buf[b]])]
                /\ outs' = <<>> /\ UNCHANGED <<buf, objs>>
\* A call with an argument of the wrong type is refused before anything is touched.
Refused(i) == Go /\ outs' = <<>> /\ UNCHANGED <<cells, buf, objs, solo>>
Result(i) == <<cells[objs[i].sec], cells[objs[i].dat]>>
Ask(i) == /\ Go /\ outs' = <<i, Result(i)>> /\ UNCHANGED <<cells, buf, objs, solo>>
Copy(i) == /\ Go /\ Len(objs) < MaxObj
           /\ cells' = cells \o <<cells[objs[i].sec], cells[objs[i].dat]>>
           /\ objs' = Append(objs, [sec |-> Len(cells) + 1, dat |-> Len(cells) + 2])
           /\ solo' = Append(solo, solo[i])
           /\ outs' = <<>> /\ UNCHANGED buf
Clear(i) == /\ Go
            /\ cells' = [cells EXCEPT ![objs[i].sec] = Zero, ![objs[i].dat] = <<>>]
            /\ solo' = [solo EXCEPT ![i] = [sec |-> Zero, dat |-> <<>>]]
            /\ outs' = <<>> /\ UNCHANGED <<buf, objs>>
\* The caller writes into a buffer of its own.
Write(b, v) == /\ Go /\ cells[buf[b]] # v /\ cells' = [cells EXCEPT ![buf[b]] = v]
               /\ outs' = <<>> /\ UNCHANGED <<buf, objs, solo>>
Next == \/ \E b \in Bufs : New(b) \/ \E v \in Contents : Write(b, v)
        \/ \E i \in 1..Len(objs) : \/ \E b \in Bufs : Update(i, b)
                                   \/ Refused(i) \/ Ask(i) \/ Copy(i) \/ Clear(i)
\* C17: an object is what its own calls made of it.
OwnHistory == \A i \in 1..Len(objs) : Result(i) = <<solo[i].sec, solo[i].dat>>
AskedRight == outs = <<>> \/ outs[2] = <<solo[outs[1]].sec, solo[outs[1]].dat>>
\* C17: no call writes into a buffer of the caller.
BuffersKept == [][\/ \A b \in Bufs : cells'[buf[b]] = cells[buf[b]]
                  \/ \E b \in Bufs, v \in Contents : Write(b, v)]_vars
\* Cells are not shared.
CellsOf(i) == {objs[i].sec, objs[i].dat}
NoSharing == \A i \in 1..Len(objs) : /\ Cardinality(CellsOf(i)) = 2
                                     /\ CellsOf(i) \cap {buf[b] : b \in Bufs} = {}
                                     /\ \A j \in 1..Len(objs) : i # j => CellsOf(i) \cap CellsOf(j) = {}
\* C18: right after clear no cell of the object holds the secret: what follows does not depend on it.
Secretless(i) == solo[i].sec = Zero => cells[objs[i].sec] = Zero
ClearedIsSecretless == \A i \in 1..Len(objs) : Secretless(i)
=============================================================================
