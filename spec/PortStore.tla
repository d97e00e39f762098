----------------------------- MODULE PortStore -----------------------------
(* Reference ports built in one session, kept in files, and used by a later    *)
(* session that lists components and ports in other orders, or only some.      *)
(* A port is identified by its name and refers to components by name.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES disk,    \* port name -> [c1, c2, a1, a2, ...]   (component names)
          order,   \* components as the current session lists them
          mem      \* port name -> [i1, i2, ...] component positions in the current session
pvars == <<disk, order, mem>>
Pos(o, n) == CHOOSE i \in 1..Len(o) : o[i] = n
Write(n) == /\ n \in DOMAIN mem /\ disk' = [k \in DOMAIN disk \cup {n} |-> IF k = n THEN [c1 |-> order[mem[n].i1], c2 |-> order[mem[n].i2], d |-> mem[n].d] ELSE disk[k]]
            /\ UNCHANGED <<order, mem>>
Build(n, i1, i2, d) == /\ n \notin DOMAIN mem /\ mem' = [k \in DOMAIN mem \cup {n} |-> IF k = n THEN [i1 |-> i1, i2 |-> i2, d |-> d] ELSE mem[k]] /\ UNCHANGED <<disk, order>>
Restart(o) == order' = o /\ mem' = <<>> /\ UNCHANGED disk
Read(n) == /\ n \in DOMAIN disk \ DOMAIN mem
           /\ \E i \in 1..Len(order) : order[i] = disk[n].c1 /\ \E j \in 1..Len(order) : order[j] = disk[n].c2
           /\ mem' = [k \in DOMAIN mem \cup {n} |-> IF k = n THEN [i1 |-> Pos(order, disk[n].c1), i2 |-> Pos(order, disk[n].c2), d |-> disk[n].d] ELSE mem[k]]
           /\ UNCHANGED <<disk, order>>
=============================================================================
