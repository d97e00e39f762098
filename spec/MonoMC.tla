------------------------------- MODULE MonoMC -------------------------------
(* A 2 x 2 patch of elements, every decomposition, forms assembled in every order of the parts:   *)
(* a port is assembled once (by its lower subdomain), and the outcome is the undivided form.         *)
EXTENDS Mono, FiniteSets
VARIABLES part, todo, y
vars == <<part, todo, y>>
Faces == << [e |-> <<1, 2>>, y |-> << <<3>>, <<-1>> >>], [e |-> <<1, 3>>, y |-> << <<5>>, <<7>> >>],
            [e |-> <<2, 4>>, y |-> << <<-2>>, <<11>> >>], [e |-> <<4, 3>>, y |-> << <<13>>, <<-17>> >>] >>
Parts == {<<k>> : k \in 1..4} \cup {<<k, m>> : k, m \in 1..4}
Init == part \in [1..4 -> 1..3] /\ y = [e \in 1..4 |-> <<0>>]
        /\ todo = {<<part[e]>> : e \in 1..4} \cup {<<p, q>> \in {<<part[a], part[b]>> : a, b \in 1..4} : p < q}
Add(fs) == y' = [e \in 1..4 |-> <<y[e][1] + Whole(fs, e, 1)>>]
Do(t) == t \in todo /\ todo' = todo \ {t} /\ UNCHANGED part
         /\ Add(IF Len(t) = 1 THEN Inside(Faces, part, t[1]) ELSE Port(Faces, part, t[1], t[2]))
Next == \E t \in todo : Do(t)
Spec == Init /\ [][Next]_vars
Equivalent == todo = {} => IsWhole(Faces, y, 0)
Partition == LET n(k) == Len(Inside(Faces, part, k))
                 p(k, m) == Len(Port(Faces, part, k, m))
             IN  n(1) + n(2) + n(3) + p(1, 2) + p(1, 3) + p(2, 3) = Len(Faces)
=============================================================================
