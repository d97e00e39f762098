----------------------------- MODULE SamplingMC -----------------------------
EXTENDS Sampling, TLC
CONSTANTS MaxSamples, MaxWrites, MaxLoads, NVs
VARIABLES nv, gen, prefix, disk, train, count, writes, loads, joined
vars == <<nv, gen, prefix, disk, train, count, writes, loads, joined>>
Comps == {"a", "b"}
Topologies == {<<<<"a">>, <<>>>>, <<<<"a", "b">>, <<<<1, 2, 1, 2>>>>>>, <<<<"b", "a">>, <<<<1, 2, 2, 1>>>>>>,
               <<<<"a", "a">>, <<<<1, 2, 1, 1>>>>>>, <<<<"a", "b", "a">>, <<<<1, 2, 1, 2>>, <<3, 2, 1, 2>>>>>>}
Init == /\ nv \in NVs /\ gen = NewGen /\ prefix = 0 /\ disk = NewDisk /\ train = NewGen
        /\ count = 0 /\ writes = 0 /\ loads = 0 /\ joined = {}
Take == count < MaxSamples /\ \E t \in Topologies :
  /\ count' = count + 1 /\ gen' = Sample(gen, t[1], nv, count + 1, t[2])
  /\ joined' = joined \cup {<<(count + 1) * 10 + t[2][k][1], (count + 1) * 10 + t[2][k][2], t[2][k][3], t[2][k][4]>> : k \in 1..Len(t[2])}
  /\ UNCHANGED <<nv, prefix, disk, train, writes, loads>>
Save == writes < MaxWrites /\ DOMAIN gen.snaps # {} /\ writes' = writes + 1 /\ disk' = Write(disk, prefix, gen)
        /\ UNCHANGED <<nv, gen, prefix, train, count, loads, joined>>
\* a new session, under the old prefix or another one
Session == gen # NewGen /\ \E p \in 0..1 : prefix' = p /\ gen' = NewGen /\ UNCHANGED <<nv, disk, train, count, writes, loads, joined>>
ByPort == loads < MaxLoads /\ \E p \in DOMAIN disk.ports : train' = CollectPort(train, disk, p) /\ loads' = loads + 1
        /\ UNCHANGED <<nv, gen, prefix, disk, count, writes, joined>>
RECURSIVE All(_, _)
All(g, ts) == IF ts = {} THEN g ELSE LET x == CHOOSE x \in ts : TRUE IN All(CollectTag(g, disk, x[2], <<x[1]>>), ts \ {x})
ByBasis == loads < MaxLoads /\ \E p \in DOMAIN disk.ports :
           train' = All(train, {x \in DOMAIN disk.snaps : x[1] = p}) /\ loads' = loads + 1
        /\ UNCHANGED <<nv, gen, prefix, disk, count, writes, joined>>
Next == Take \/ Save \/ Session \/ ByPort \/ ByBasis
Spec == Init /\ [][Next]_vars
InvPaired == Paired(gen, joined) /\ Paired(train, joined)
InvTogether == Together(gen) /\ Together(train)
\* what a session loaded never changes when files are written again
Kept == [][\A t \in DOMAIN train.snaps : t \in DOMAIN train'.snaps /\ Len(train'.snaps[t]) >= Len(train.snaps[t])
           /\ SubSeq(train'.snaps[t], 1, Len(train.snaps[t])) = train.snaps[t]]_vars
ASSUME \A a, b, c \in 1..3 : LET s == <<a, b, c>> IN
         /\ \A k \in 0..(Product(s) - 1) : Flat(s, Nested(s, k), 0) = k
         /\ Cardinality({Nested(s, k) : k \in 0..(Product(s) - 1)}) = Product(s)
=============================================================================
