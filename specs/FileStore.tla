------------------------------ MODULE FileStore -----------------------------
(* What a directory of stored values holds: d[<<b, k>>] is the value of key *)
(* k of the storage with base name b (0: none). A value is a number.        *)
(* Base names and keys are numbers, their texts are in the driver; some     *)
(* pairs have the same file name (see Twin).                                *)
EXTENDS Naturals, Sequences, FiniteSets
Bases == 1..5
Keys == 1..15
\* the file names of base "a_b" with key "c" and base "a" with key "b_c" are the same (and of the bases "" and "fledger")
SameFile == { {<<2, 3>>, <<3, 4>>} } \cup { {<<4, i>>, <<5, i>>} : i \in Keys }
Twin(x) == IF \E s \in SameFile : x \in s THEN (CHOOSE s \in SameFile : x \in s) \ {x} ELSE {}
Empty == [x \in Bases \X Keys |-> 0]
Set(d, x, v) == [d EXCEPT ![x] = v]
\* with the file shared, as a known finding
SetShared(d, x, v) == [y \in DOMAIN d |-> IF y = x \/ y \in Twin(x) THEN v ELSE d[y]]
=============================================================================
