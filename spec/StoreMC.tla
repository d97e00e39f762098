------------------------------- MODULE StoreMC -------------------------------
EXTENDS Store
CONSTANTS F, G, N, V
VARIABLE written        \* ghost: everything written since the file was last created, each write once
Keys == F \X G \X {"data", "attr"} \X N
Init == SInit /\ written = {}
Next == \/ \E f \in F : Create(f) /\ written' = {w \in written : w.k[1] # f}
        \/ \E f \in F : Close(f) /\ UNCHANGED written
        \/ \E f \in F, m \in {"rw", "ro"} : Open(f, m) /\ UNCHANGED written
        \/ \E k \in Keys, v \in V : Write(k[1], k[2], k[3], k[4], "ai", v) /\ written' = written \cup {[k |-> k, v |-> v]}
        \/ \E k \in Keys, v \in V : Read(k[1], k[2], k[3], k[4], "ai", v) /\ UNCHANGED written
        \/ \E k \in Keys, b \in BOOLEAN : Exists(k[1], k[2], k[4], b) /\ UNCHANGED written
Spec == Init /\ [][Next]_<<store, mode, written>>
\* what can be read is exactly what was written, once
Faithful == /\ DOMAIN store = {w.k : w \in written}
            /\ Cardinality(written) = Cardinality(DOMAIN store)
            /\ \A w \in written : store[w.k].v = w.v
=============================================================================
