---------------------------- MODULE ProblemsMC ----------------------------
EXTENDS Problems
VARIABLES n, last
AllVars == UNION {VarTable[p] : p \in Problems}
Init == prob = "" /\ vars = [x \in AllVars |-> 7] /\ battr = <<>> /\ bdr = <<>> /\ fbdr = <<>> /\ n = 0 /\ last = {}
Some(p) == {0, 1, 2, NumParams(p) - 1}
Next == n < 4 /\ n' = n + 1 /\
        \/ \E p \in Problems : (n = 0 \/ (n = 2 /\ p \in {"poisson0", "flow_past_array"})) /\ New(p) /\ last' = VarTable[p]
        \/ n > 0 /\ \E i \in Some(prob), v \in {-W, 0, 3 * W, 5 * W} : i < NumParams(prob) /\ Set(<<<<i, v>>>>) /\ last' = {Params(prob)[i + 1][2]}
Spec == Init /\ [][Next]_<<pvars, n, last>>
ASSUME \A p \in Problems :
            /\ \A i, j \in 1..NumParams(p) : i # j => Params(p)[i][1] # Params(p)[j][1] /\ Params(p)[i][2] # Params(p)[j][2]
            /\ \A i \in 1..NumParams(p) : Index(p, Params(p)[i][1]) = i - 1
            /\ Len(Battr(p)) = Len(Bdr(p)) /\ Cardinality({Battr(p)[i] : i \in 1..Len(Battr(p))}) = Len(Battr(p))
            /\ Len(Slots(p).sbdr) \in {1, Len(Battr(p))} /\ Len(Slots(p).vbdr) \in {1, Len(Battr(p))}
OnlyThose == [][\A x \in AllVars : vars'[x] # vars[x] => x \in last']_<<pvars, n, last>>
\* opposite sides of an array of obstacles never carry the same role once a parameter was set
Sides == prob = "flow_past_array" /\ last # {} /\ Cardinality(last) = 1 => bdr[1] # bdr[3] /\ bdr[2] # bdr[4]
Twin == prob = "advdiff_flow_past_array" /\ Cardinality(last) = 1 => \A i \in 1..4 : bdr[i] = fbdr[i]
Valid == prob = "poisson_component" => battr[1] = -1 \/ battr[1] \in 1..4
ASSUME \A a \in 0..23 : Sin24(a) = -Sin24(a + 12) /\ Sin24(a) = Sin24(12 - a) /\ Abs(Sin24(a) * Sin24(a) + Sin24(a + 6) * Sin24(a + 6) - U * U) < 2 * U
=============================================================================
