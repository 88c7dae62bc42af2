-------------------------------- MODULE Fast --------------------------------
(* Operators that Fast.java evaluates in less than quadratic time.  The      *)
(* definitions below are what they mean (and what is evaluated without it).  *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
(* The elements of the sequence. *)
Range(seq) == {seq[i] : i \in 1..Len(seq)}
(* Where each element of the sequence occurs first. *)
Index(seq) == [x \in Range(seq) |-> CHOOSE i \in 1..Len(seq) : seq[i] = x /\ \A j \in 1..(i - 1) : seq[j] # x]
=============================================================================
