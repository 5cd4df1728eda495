--------------------------- MODULE IndexSetThreads ---------------------------
(* Concurrent additions to different rows of one MatrixIndexSet: every       *)
(* thread owns one row and performs the (non-atomic) steps of an insertion:  *)
(* look at its row, then write the row back, possibly after switching the    *)
(* storage of that row from vector to set.  Safety: in every interleaving    *)
(* the final contents are the union, and no row is touched by two threads.   *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Rows, Cols, MV, Len0
VARIABLES todo, row, kind, pc, tmp, done
vars == <<todo,row,kind,pc,tmp,done>>
Init == /\ todo \in [Rows -> [1..Len0 -> Cols]] /\ row=[r \in Rows |-> {}] /\ kind=[r \in Rows |-> "vector"]
        /\ pc=[r \in Rows |-> "read"] /\ tmp=[r \in Rows |-> {}] /\ done=[r \in Rows |-> 0]
Read(r) == /\ pc[r]="read" /\ done[r]<Len0 /\ tmp'=[tmp EXCEPT ![r]=row[r]]
           /\ pc'=[pc EXCEPT ![r]=IF kind[r]="vector" /\ Cardinality(row[r])>=MV /\ todo[r][done[r]+1] \notin row[r] THEN "switch" ELSE "write"]
           /\ UNCHANGED <<todo,row,kind,done>>
Switch(r) == /\ pc[r]="switch" /\ kind'=[kind EXCEPT ![r]="set"] /\ pc'=[pc EXCEPT ![r]="write"] /\ UNCHANGED <<todo,row,tmp,done>>
Write(r) == /\ pc[r]="write" /\ row'=[row EXCEPT ![r]=tmp[r] \cup {todo[r][done[r]+1]}] /\ done'=[done EXCEPT ![r]=@+1]
            /\ pc'=[pc EXCEPT ![r]="read"] /\ UNCHANGED <<todo,kind,tmp>>
Next == \E r \in Rows : Read(r) \/ Switch(r) \/ Write(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Union == (\A r \in Rows : done[r]=Len0) => \A r \in Rows : row[r]={todo[r][k] : k \in 1..Len0}
Prefix == \A r \in Rows : row[r]={todo[r][k] : k \in 1..done[r]}
SwitchLate == \A r \in Rows : (kind[r]="set") => Cardinality(row[r])>=MV
Finishes == <>(\A r \in Rows : done[r]=Len0)
=============================================================================
