------------------------------ MODULE ParamsMC ------------------------------
EXTENDS Params
VARIABLE last
Ps == <<[kind |-> "int", key |-> <<"a">>, min |-> -1, max |-> 3, pre |-> "", wid |-> 0, post |-> ""],
        [kind |-> "file", key |-> <<"b", "c">>, min |-> 8, max |-> 11, pre |-> "f", wid |-> 2, post |-> ".h5"]>>
Init == params = Ps /\ size = [k \in 1..2 |-> 0] /\ cfg = (<<"d">> :> "5") /\ last = <<0, 0, 0>>
Text(k, v) == IF params[k].kind = "file" THEN Name(params[k], v) ELSE ToString(v)
Next == \E k \in 1..2 :
          \/ \E n \in 0..6 : Resizable(n) /\ Resize(k, n) /\ UNCHANGED last
          \/ Maximise(k) /\ UNCHANGED last
          \/ \E i \in -1..6 : Indexable(k, i) /\ Write(k, Text(k, IntAt(params[k], size[k], i))) /\ last' = <<k, size[k], i>>
Spec == Init /\ [][Next]_<<prvars, last>>
InRange == \A k \in 1..2 : \A n \in 1..6 : \A i \in 0..n - 1 : IntAt(Ps[k], n, i) \in Ps[k].min..Ps[k].max
Ends == \A k \in 1..2 : \A n \in 2..6 : IntAt(Ps[k], n, 0) = Ps[k].min /\ ((Ps[k].max - Ps[k].min) % (n - 1) = 0 => IntAt(Ps[k], n, n - 1) = Ps[k].max)
AllAtMaximum == \A k \in 1..2 : {IntAt(Ps[k], Count(Ps[k]), i) : i \in 0..Count(Ps[k]) - 1} = Ps[k].min..Ps[k].max
OnlyKeys == cfg[<<"d">>] = "5" /\ DOMAIN cfg \subseteq {<<"a">>, <<"b", "c">>, <<"d">>}
Written == last[1] # 0 => Ps[last[1]].key \in DOMAIN cfg
Distinct == \A v, w \in 8..11 : v # w => Name(Ps[2], v) # Name(Ps[2], w)
=============================================================================
