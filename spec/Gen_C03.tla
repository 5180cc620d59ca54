------------------------------- MODULE Gen_C03 -------------------------------
(***************************************************************************)
(* Every sequence of PO lines and line fragments that is, up to its last   *)
(* piece, the beginning of a PO file (or of something that the format      *)
(* leaves open), up to DEPTH pieces.                                       *)
(***************************************************************************)
EXTENDS PoText, Json, CSV, IOUtils
VARIABLE seq
CONSTANTS DEPTH, TAIL

St(c) == <<QUOTE, c, QUOTE>>
Piece == [
    ctx |-> KwCtxt \o <<SP>> \o St(99) \o <<NL>>,
    id |-> KwId \o <<SP>> \o St(105) \o <<NL>>,
    pl |-> KwIdPl \o <<SP>> \o St(112) \o <<NL>>,
    str |-> KwStr \o <<SP>> \o St(115) \o <<NL>>,
    f0 |-> KwStr \o <<91, 48, 93, SP>> \o St(48) \o <<NL>>,
    f1 |-> KwStr \o <<91, 49, 93, SP>> \o St(49) \o <<NL>>,
    q |-> St(109) \o <<NL>>,
    e |-> <<QUOTE, QUOTE, NL>>,
    com |-> <<HASH, SP, 99, NL>>,
    loc |-> <<HASH, COLON, SP, 97, COLON, 49, NL>>,
    oid |-> <<HASH, TILDE, SP>> \o KwId \o <<SP>> \o St(111) \o <<NL>>,
    ostr |-> <<HASH, TILDE, SP>> \o KwStr \o <<SP>> \o St(116) \o <<NL>>,
    opl |-> <<HASH, TILDE, SP>> \o KwIdPl \o <<SP>> \o St(112) \o <<NL>>,
    of0 |-> <<HASH, TILDE, SP>> \o KwStr \o <<91, 48, 93, SP>> \o St(48) \o <<NL>>,
    octx |-> <<HASH, TILDE, SP>> \o KwCtxt \o <<SP>> \o St(99) \o <<NL>>,
    oq |-> <<HASH, TILDE>> \o St(109) \o <<NL>>,
    op |-> <<HASH, TILDE, BAR, SP, 120, NL>>,
    \* fragments
    kid |-> KwId \o <<SP>>, kstr |-> KwStr \o <<SP>>, kpl |-> KwIdPl \o <<SP>>, kctx |-> KwCtxt \o <<SP>>,
    k0 |-> KwStr \o <<91, 48, 93, SP>>, lb |-> <<91>>, rb |-> <<93, SP>>, int |-> <<49>>,
    open |-> <<QUOTE, 117, NL>>, word |-> <<120, 121, NL>>, okid |-> <<HASH, TILDE, SP>> \o KwId \o <<NL>>,
    oopen |-> <<HASH, TILDE, SP, QUOTE, 117, NL>>]
Lines == {"ctx", "id", "pl", "str", "f0", "f1", "q", "com", "loc", "oid", "ostr", "opl", "of0", "octx", "oq", "op"}
TextOf(s) == Flat([i \in 1..Len(s) |-> Piece[s[i]]])

Init == seq = <<>>
Next == /\ Len(seq) < DEPTH
        /\ ~Dead(TextOf(seq))
        /\ \A i \in 1..Len(seq) : seq[i] \in Lines \/ (i = Len(seq) /\ i < TAIL)
        /\ \E p \in DOMAIN Piece : seq' = Append(seq, p)
Opts == {DefaultOpt, [DefaultOpt EXCEPT !.clean = FALSE]}
Emit == CSVWrite("%1$s", <<ToJson([text |-> TextOf(seq), opt |-> [DefaultOpt EXCEPT !.clean = Len(seq) % 2 = 0], r |-> Len(TextOf(seq)), has |-> FALSE, want |-> <<>>])>>, IOEnv.CASES)
=============================================================================
