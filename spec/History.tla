------------------------------ MODULE History ------------------------------
(* Layout of the history file.  A file is a sequence of little-endian 32-bit   *)
(* words; a record set is, for every body in order, 39 words: the time, the    *)
(* time step, the body number (one word) and 17 more numbers (two words each). *)
EXTENDS Integers, Sequences
WordsPerBody == 39
BytesPerBody == 4 * WordsPerBody
Names == <<"t", "dt", "x", "y", "z", "sx", "sy", "sz", "vx", "vy", "vz", "m", "r", "rg2", "k2", "sig", "lag", "de", "mig">>
Offset(j) == IF j <= 2 THEN 2 * (j - 1) ELSE 2 * (j - 1) + 1
(* number j of the q-th body entry in the file w (q from 1) *)
Num(w, q, j) == LET o == (q - 1) * WordsPerBody + Offset(j) IN <<w[o + 2], w[o + 1]>>
BodyNo(w, q) == w[(q - 1) * WordsPerBody + 5]
Entry(w, q) == [id |-> BodyNo(w, q), f |-> [j \in 1..19 |-> Num(w, q, j)]]
(* what a reader of a file cut after any number of bytes has to return *)
CompleteEntries(bytes, n) == n * (bytes \div (BytesPerBody * n))
=============================================================================
