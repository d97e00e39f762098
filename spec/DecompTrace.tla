---------------------------- MODULE DecompTrace ----------------------------
EXTENDS Decomp, Json, IOUtils
VARIABLES l, names
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
S(q) == {q[i] : i \in 1..Len(q)}
Distinct(q) == Cardinality(S(q)) = Len(q)
BF(q) == LET fs == {S(q[i].v) : i \in 1..Len(q)} IN [f \in fs |-> q[CHOOSE i \in 1..Len(q) : S(q[i].v) = f].a]
TInit == elems = <<>> /\ bdr = <<>> /\ whole = FALSE /\ skin = <<>> /\ ports = <<>> /\ l = 1 /\ names = {}
Begin == Is("Begin") /\ elems' = [i \in 1..Len(E.elems) |-> [v |-> E.elems[i].v, a |-> E.elems[i].a, f |-> {S(E.elems[i].f[j]) : j \in 1..Len(E.elems[i].f)}]]
         /\ bdr' = BF(E.bdr) /\ whole' = E.whole /\ skin' = <<>> /\ ports' = <<>> /\ names' = {}
\* what the real handler reports for one subdomain: its elements (as the parent's, with the parent's
\* vertex order, each exactly once) and its boundary faces with their attributes
Sub == /\ Is("Sub") /\ E.k \in Subs /\ E.k \notin DOMAIN skin
       /\ TRUE = (/\ Distinct(E.elems) /\ S(E.elems) = {elems[i].v : i \in In(E.k)}
                  /\ Distinct(E.bdr) /\ Cardinality({S(E.bdr[i].v) : i \in 1..Len(E.bdr)}) = Len(E.bdr)
                  /\ E.type = E.k /\ E.nth = 0 /\ E.copies = 1 /\ E.own /\ E.name # "" /\ E.name \notin names    \* a component of its own
                  /\ S(E.battrs) = {E.bdr[i].a : i \in 1..Len(E.bdr)} /\ Distinct(E.battrs))
       /\ names' = names \cup {E.name}
       /\ skin' = [k \in DOMAIN skin \cup {E.k} |-> IF k = E.k THEN BF(E.bdr) ELSE skin[k]]
       /\ UNCHANGED <<elems, bdr, whole, ports>>
Port == /\ Is("Port") /\ E.m1 # E.m2 /\ {E.m1, E.m2} \notin DOMAIN ports
        /\ E.a1 = E.attr /\ E.a2 = E.attr /\ E.ref /\ E.c1 = E.m1 /\ E.c2 = E.m2
        /\ TRUE = (/\ \A i \in 1..Len(E.ifs) : S(E.ifs[i].v1) = S(E.ifs[i].v2)
                   /\ Cardinality({S(E.ifs[i].v1) : i \in 1..Len(E.ifs)}) = Len(E.ifs))
        /\ ports' = [p \in DOMAIN ports \cup {{E.m1, E.m2}} |-> IF p = {E.m1, E.m2} THEN [attr |-> E.attr, links |-> {S(E.ifs[i].v1) : i \in 1..Len(E.ifs)}] ELSE ports[p]]
        /\ UNCHANGED <<elems, bdr, whole, skin, names>>
End == /\ Is("End") /\ UNCHANGED <<dvars, names>>
       /\ TRUE = (Complete(skin, ports) /\ E.numsub = Cardinality(Subs) /\ E.numcomp = E.numsub /\ E.numports = Cardinality(DOMAIN ports) /\ E.numref = E.numports)
TNext == Begin \/ Sub \/ Port \/ End
TSpec == TInit /\ [][TNext]_<<dvars, l, names>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
