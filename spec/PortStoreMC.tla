---------------------------- MODULE PortStoreMC ----------------------------
(* Three components, two ports, any sessions: what a port connects never changes. *)
EXTENDS PortStore
VARIABLE truth
Names == {"A", "B", "C"}
PNames == {"p", "q"}
Orders == {o \in UNION {[1..n -> Names] : n \in 1..3} : Cardinality({o[i] : i \in 1..Len(o)}) = Len(o)}
Init == disk = <<>> /\ order \in Orders /\ mem = <<>> /\ truth \in [PNames -> Names \X Names]
Next == /\ UNCHANGED truth
        /\ \/ \E n \in PNames, i, j \in 1..Len(order) : order[i] = truth[n][1] /\ order[j] = truth[n][2] /\ Build(n, i, j, 0)
           \/ \E n \in PNames : Write(n) \/ Read(n)
           \/ \E o \in Orders : Restart(o)
Spec == Init /\ [][Next]_<<pvars, truth>>
Faithful == /\ \A n \in DOMAIN mem : order[mem[n].i1] = truth[n][1] /\ order[mem[n].i2] = truth[n][2]
            /\ \A n \in DOMAIN disk : disk[n].c1 = truth[n][1] /\ disk[n].c2 = truth[n][2]
=============================================================================
