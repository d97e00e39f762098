------------------------------- MODULE Decomp -------------------------------
(* Decomposition of a labelled mesh into subdomains connected through ports.   *)
(* A mesh is a sequence of elements [v: vertex ids, a: label, f: faces], faces *)
(* being sets of vertex ids; plus boundary faces with attributes.              *)
(* The decomposition first cuts the mesh along labels, then repeatedly links   *)
(* a face of one subdomain with the same face of another one.                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES elems,    \* sequence of [v, a, f]
          bdr,      \* function face -> attribute (parent boundary)
          whole,    \* TRUE: no decomposition requested
          skin,     \* subdomain -> (function face -> attribute)
          ports     \* function {i, j} -> [attr, links : set of faces]
dvars == <<elems, bdr, whole, skin, ports>>

SetMax(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Rng(f) == {f[x] : x \in DOMAIN f}
Labels(es) == {es[i].a : i \in 1..Len(es)}
Subs == IF whole THEN {1} ELSE 1..SetMax(Labels(elems))
In(k) == {i \in 1..Len(elems) : whole \/ elems[i].a = k}
FacesOf(k) == UNION {elems[i].f : i \in In(k)}
Skin(k) == {f \in FacesOf(k) : Cardinality({i \in In(k) : f \in elems[i].f}) = 1}
Gen == SetMax(Rng(bdr)) + 1                 \* faces nobody else knows about
Shared(i, j) == (Skin(i) \cap Skin(j)) \ DOMAIN bdr

\* ---- the declared result -------------------------------------------------
PortPairs == {{i, j} : <<i, j>> \in {p \in Subs \X Subs : p[1] # p[2] /\ Shared(p[1], p[2]) # {}}}
Complete(sk, ps) ==
  /\ DOMAIN sk = Subs /\ DOMAIN ps = PortPairs
  \* one attribute per port, clashing with no boundary attribute
  /\ \A p \in PortPairs : ps[p].attr > Gen
  /\ \A p, r \in PortPairs : p # r => ps[p].attr # ps[r].attr
  /\ \A p \in PortPairs : \A i, j \in p : i # j => ps[p].links = Shared(i, j)
  /\ \A k \in Subs : /\ DOMAIN sk[k] = Skin(k)
                     /\ \A f \in Skin(k) :
                          sk[k][f] = IF f \in DOMAIN bdr THEN bdr[f]
                                     ELSE IF \E j \in Subs \ {k} : f \in Skin(j)
                                          THEN ps[{k, CHOOSE j \in Subs \ {k} : f \in Skin(j)}].attr
                                          ELSE Gen

\* ---- how it comes about --------------------------------------------------
Cut == /\ skin = <<>>
       /\ skin' = [k \in Subs |-> [f \in Skin(k) |-> IF f \in DOMAIN bdr THEN bdr[f] ELSE Gen]]
       /\ UNCHANGED <<elems, bdr, whole, ports>>
NextAttr == 1 + SetMax({Gen} \cup {ports[p].attr : p \in DOMAIN ports})
Link(i, j, f) ==
  /\ i # j /\ f \in DOMAIN skin[i] \cap DOMAIN skin[j] /\ skin[i][f] = Gen /\ skin[j][f] = Gen
  /\ LET p == {i, j}
         a == IF p \in DOMAIN ports THEN ports[p].attr ELSE NextAttr
         old == IF p \in DOMAIN ports THEN ports[p].links ELSE {}
     IN  /\ ports' = [r \in DOMAIN ports \cup {p} |-> IF r = p THEN [attr |-> a, links |-> old \cup {f}] ELSE ports[r]]
         /\ skin' = [skin EXCEPT ![i] = [skin[i] EXCEPT ![f] = a], ![j] = [skin[j] EXCEPT ![f] = a]]
  /\ UNCHANGED <<elems, bdr, whole>>
Finished == skin # <<>> /\ ~ \E i, j \in DOMAIN skin : i # j /\ \E f \in DOMAIN skin[i] \cap DOMAIN skin[j] : skin[i][f] = Gen /\ skin[j][f] = Gen
Right == Finished => Complete(skin, ports)
\* every element is in exactly one subdomain
Partition == \A i \in 1..Len(elems) : Cardinality({k \in Subs : i \in In(k)}) = 1
=============================================================================
