------------------------------- MODULE PoCases -------------------------------
(* Small catalogues that use every part of a message. *)
EXTENDS PoLayout

T(c) == <<c>>      \* one-letter text
Full == [ctx |-> <<99>>, id |-> <<105, 34, 92, 10>>, pl |-> <<>>, str |-> <<116, 92, 110, 34, 9, 195, 169>>, forms |-> <<>>,
         flags |-> <<FUZZY, <<99, 45, 102>>>>, com |-> <<<<111>>, <<>>, <<58, 116>>>>, ext |-> <<<<120, 58>>, <<121>>>>,
         prev |-> <<<<109, 115, 103, 105, 100, 32, 34, 113, 34>>>>,
         locs |-> <<[f |-> <<97, 46, 103, 111>>, l |-> 7], [f |-> <<98, 58, 99>>, l |-> 12]>>, obs |-> FALSE]
Plain == [NoEntry EXCEPT !.id = T(97), !.str = T(98)]
Plural == [NoEntry EXCEPT !.id = T(112), !.pl = <<112, 115>>, !.forms = <<[i |-> 0, s |-> <<120, 10>>], [i |-> 1, s |-> <<>>]>>, !.com = <<T(107)>>]
PluralFull == [Full EXCEPT !.str = <<>>, !.id = T(113), !.pl = <<34, 115>>, !.forms = <<[i |-> 0, s |-> T(92)], [i |-> 1, s |-> <<34, 34>>], [i |-> 10, s |-> T(10)]>>]
Header == [NoEntry EXCEPT !.str = <<76, 58, 32, 120, 10, 80, 58, 10>>, !.com = <<T(104)>>, !.flags = <<FUZZY>>]
Empty == [NoEntry EXCEPT !.ctx = T(101)]
ObsPlain == [Plain EXCEPT !.id = T(111), !.obs = TRUE]
ObsFull == [Full EXCEPT !.id = <<111, 34, 92>>, !.obs = TRUE]
ObsPlural == [PluralFull EXCEPT !.id = <<111, 112>>, !.obs = TRUE]
Control == [NoEntry EXCEPT !.id = <<1, 49>>, !.str = <<27, 91, 48, 109, 127, 0, 55>>]

Catalogues == {
    <<>>, <<Plain>>, <<Full>>, <<Plural>>, <<PluralFull>>, <<Header>>, <<Empty>>, <<ObsPlain>>, <<ObsFull>>, <<ObsPlural>>, <<Control>>,
    <<Header, Plain>>, <<Full, Plural>>, <<Plural, Full>>, <<Plain, Full, Plain>>,
    <<Plain, ObsPlain>>, <<ObsPlain, Plain>>, <<ObsFull, Full>>, <<Plural, ObsPlural>>, <<ObsPlural, ObsFull, ObsPlain>>,
    <<Header, Full, ObsFull, Plural, ObsPlural, Control>> }

Layouts == [nl : {<<NL>>, <<CR, NL>>}, final : BOOLEAN, indent : BOOLEAN, gap : 0..2, split : {"whole", "head", "glued", "chars"},
            many : BOOLEAN, order : Orders, oct : BOOLEAN]
=============================================================================
