------------------------------ MODULE MC_Concat ------------------------------
(* Every sequence of up to MAX definitions, in files in order. *)
EXTENDS Concat
CONSTANTS MAX, FILES
VARIABLES cfg, defs, acc
vars == <<cfg, defs, acc>>
A == <<97>> B == <<98>>
F2(a, b) == <<[i |-> 0, s |-> a], [i |-> 1, s |-> b]>>
X == <<120>> Y == <<121>>
Trans == {<<<<>>, <<>>, <<>>>>, <<<<>>, <<>>, X>>, <<<<>>, <<>>, Y>>, <<A, F2(X, <<>>), <<>>>>, <<A, F2(Y, X), <<>>>>, <<B, F2(<<>>, X), <<>>>>}
Extras == {<<<<>>, <<>>, FALSE>>, <<<<A>>, <<>>, FALSE>>, <<<<B, A>>, <<FUZZY>>, TRUE>>}
Messages == {[NoEntry EXCEPT !.id = id, !.pl = t[1], !.forms = t[2], !.str = t[3], !.com = x[1], !.flags = x[2], !.obs = x[3],
              !.locs = <<[f |-> A, l |-> Len(t[3])]>>] : id \in {<<>>, A}, t \in Trans, x \in Extras}
Names == <<<<49>>, <<50>>, <<51>>>>
Cfgs == {[first |-> f, more |-> m, less |-> l] : f \in BOOLEAN, m \in 0..2, l \in {-1, 2, 3}}
Init == cfg \in Cfgs /\ defs = <<>> /\ acc = <<>>
Next == /\ Len(defs) < MAX
        /\ \E n \in 1..FILES, e \in Messages :
             /\ defs # <<>> => \A k \in 1..FILES : Names[k] = defs[Len(defs)].file => k <= n
             /\ IsHeader(e) => ~e.obs /\ e.pl = <<>>
             /\ LET d == [file |-> Names[n], e |-> e] IN defs' = Append(defs, d) /\ acc' = Take(acc, d, cfg)
        /\ UNCHANGED cfg
NoErrors == Errors(Result(acc, cfg), defs, cfg) = {}
=============================================================================
