-------------------------------- MODULE Ascii --------------------------------
(* The bytes of text that is written as a string here: printable ASCII, *)
(* with a tilde for the end of a line.                                   *)
EXTENDS Integers, Sequences
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}"
AsciiOf(c) == IF c = "~" THEN 10 ELSE 31 + CHOOSE i \in 1..94 : SubSeq(Printable, i, i) = c
B(str) == [i \in 1..Len(str) |-> AsciiOf(SubSeq(str, i, i))]
=============================================================================
