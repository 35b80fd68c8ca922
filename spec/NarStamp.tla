------------------------------ MODULE NarStamp ------------------------------
(* Evidential bases ("stamps"): finite sequences of evidence ids.             *)
EXTENDS Integers, Sequences
StampMax == 120
Ids(s) == { s[k] : k \in 1..Len(s) }
Overlap(a, b) == Ids(a) \cap Ids(b) # {}
MinI(a, b) == IF a <= b THEN a ELSE b
RECURSIVE StampZip(_, _)
StampZip(a, b) == IF a = <<>> THEN b
             ELSE IF b = <<>> THEN a
             ELSE <<Head(a), Head(b)>> \o StampZip(Tail(a), Tail(b))
Merge(a, b) == LET z == StampZip(a, b) IN SubSeq(z, 1, MinI(Len(z), StampMax))
NoDup(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
=============================================================================
