-------------------------------- MODULE Sink --------------------------------
(***************************************************************************)
(* A compiler in front of a destination that may fail (C24).  The output   *)
(* Out is made in pieces, collected in a buffer and offered to the         *)
(* destination, which may take a part and fail, take everything and still  *)
(* fail, take less than offered without a word, fail once and then work    *)
(* again, or not be there at all.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Out,        \* the compiled output
          CAP         \* size of the buffer
VARIABLES made,       \* bytes of Out that were made
          buf,        \* bytes made and not offered yet
          got,        \* what the destination has taken
          failed,     \* the destination has failed, or was not to be had
          broken,     \* the compiler has seen it and writes no more
          ignore,     \* it was told to ignore errors
          says        \* "" | "ok" | "error"
vars == <<made, buf, got, failed, broken, ignore, says>>

Init == /\ made = 0 /\ buf = <<>> /\ got = <<>> /\ failed = FALSE /\ broken = FALSE
        /\ ignore \in BOOLEAN /\ says = ""
Running == says = "" /\ ~broken
\* The destination can't be opened.
Refuse == /\ Running /\ made = 0
          /\ failed' = TRUE /\ broken' = TRUE
          /\ UNCHANGED <<made, buf, got, ignore, says>>
Make(n) == /\ Running /\ n >= 1 /\ made + n <= Len(Out) /\ Len(buf) + n <= CAP
           /\ made' = made + n /\ buf' = buf \o SubSeq(Out, made + 1, made + n)
           /\ UNCHANGED <<got, failed, broken, ignore, says>>
\* The destination takes the first m bytes of those offered.
Take(m, fails) ==
    /\ Running /\ Len(buf) > 0 /\ m <= Len(buf)
    /\ got' = got \o SubSeq(buf, 1, m)
    /\ buf' = SubSeq(buf, m + 1, Len(buf))
    /\ failed' = (failed \/ fails \/ m < Len(buf))
    /\ broken' = (fails \/ m < Len(buf))
    /\ UNCHANGED <<made, ignore, says>>
Finish == /\ says = "" /\ (broken \/ (made = Len(Out) /\ buf = <<>>))
          /\ says' = IF broken /\ ~ignore THEN "error" ELSE "ok"
          /\ UNCHANGED <<made, buf, got, failed, broken, ignore>>
Next == \/ Refuse \/ Finish
        \/ \E n \in 1..CAP : Make(n)
        \/ \E m \in 0..CAP, f \in BOOLEAN : Take(m, f)

(***************************************************************************)
(* The property, on what can be seen from outside: out, the bytes taken,   *)
(* whether the destination failed, what the compiler says.                 *)
(***************************************************************************)
IsPrefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
\* fail: it must be reported; odd: it may be (less was taken without a word).
Seen(out, taken, fail, odd, ign, err) ==
    (IF IsPrefix(taken, out) THEN {} ELSE {"what arrived is not the beginning of the output"})
    \union (IF fail /\ ~ign /\ ~err THEN {"a failing destination is not reported"} ELSE {})
    \union (IF ~ign /\ ~err /\ taken # out THEN {"success although the output is not complete"} ELSE {})
    \union (IF ~fail /\ ~odd /\ err THEN {"an error although nothing failed"} ELSE {})
    \union (IF ~fail /\ ~odd /\ taken # out THEN {"incomplete although nothing failed"} ELSE {})
    \union (IF ign /\ err THEN {"an error although errors are ignored"} ELSE {})
Reported == says # "" => Seen(Out, got, failed, FALSE, ignore, says = "error") = {}
Beginning == IsPrefix(got, Out)
=============================================================================
