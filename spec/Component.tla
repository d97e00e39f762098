----------------------------- MODULE Component -----------------------------
(* Assemblies of component meshes.  A configuration lists component meshes,    *)
(* where copies of them are placed, which sides of which copies are connected   *)
(* through which reference port, and which sides carry which global boundary    *)
(* attribute.  Coordinates are integers; a placement is a rotation given by an  *)
(* integer matrix <<c, s>> / 5 and a translation, so it is exact.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES comps,   \* component -> [elems : seq of seqs of points, bdr : seq of [v : seq of points, a]]
          meshes,  \* copy -> [type, c, s, t]
          refs,    \* reference port -> [c1, c2, a1, a2]
          uses,    \* connection -> [m1, m2, type, a1, a2]
          outer,   \* set of [g, m, a]: side with component attribute a of copy m has global attribute g
          battr,   \* <<copy, boundary element>> -> attribute it has in the assembly
          pattr    \* connection -> attribute
cvars == <<comps, meshes, refs, uses, outer, battr, pattr>>

SetMax(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Pts(q) == {q[i] : i \in 1..Len(q)}
Place(m, p) == LET k == meshes[m] IN
  IF Len(p) = 2 THEN <<k.c * p[1] - k.s * p[2] + k.t[1], k.s * p[1] + k.c * p[2] + k.t[2]>>
  ELSE <<5 * p[1] + k.t[1], 5 * p[2] + k.t[2], 5 * p[3] + k.t[3]>>
PlaceAll(m, q) == [i \in 1..Len(q) |-> Place(m, q[i])]
Comp(m) == comps[meshes[m].type]
Side(m, a) == {b \in 1..Len(Comp(m).bdr) : Comp(m).bdr[b].a = a}
CompAttrs == UNION {{comps[k].bdr[b].a : b \in 1..Len(comps[k].bdr)} : k \in 1..Len(comps)}
GlobalAttrs == {o.g : o \in outer}
\* attributes of connections clash with no attribute of a component or of the global boundary,
\* nor with the one kept free after the global ones
Floor == SetMax(CompAttrs \cup {1 + SetMax(GlobalAttrs)})

\* the side of a copy is either on the global boundary or in one connection
Sane == \A m \in 1..Len(meshes) : \A b \in 1..Len(Comp(m).bdr) :
   LET a == Comp(m).bdr[b].a IN
   Cardinality({o \in outer : o.m = m /\ o.a = a}) + Cardinality({u \in 1..Len(uses) : uses[u].m1 = m /\ uses[u].a1 = a})
      + Cardinality({u \in 1..Len(uses) : uses[u].m2 = m /\ uses[u].a2 = a}) = 1
Expected(m, b) ==
   LET a == Comp(m).bdr[b].a
       o == {x \in outer : x.m = m /\ x.a = a}
       u == {x \in 1..Len(uses) : (uses[x].m1 = m /\ uses[x].a1 = a) \/ (uses[x].m2 = m /\ uses[x].a2 = a)}
   IN  IF o # {} THEN (CHOOSE x \in o : TRUE).g ELSE pattr[CHOOSE x \in u : TRUE]
\* declared result
PortAttrsRight == /\ DOMAIN pattr = 1..Len(uses)
                  /\ \A u \in 1..Len(uses) : pattr[u] > Floor
                  /\ \A u, w \in 1..Len(uses) : u # w => pattr[u] # pattr[w]
AttrsRight == \A m \in 1..Len(meshes) : \A b \in 1..Len(Comp(m).bdr) : battr[<<m, b>>] = Expected(m, b)
\* a list of pairs of boundary elements links two sides: each boundary element of either side
\* occurs exactly once, and paired ones lie on each other
Links(m1, a1, m2, a2, ifs) ==
   /\ {ifs[i].b1 : i \in 1..Len(ifs)} = Side(m1, a1) /\ Len(ifs) = Cardinality(Side(m1, a1))
   /\ {ifs[i].b2 : i \in 1..Len(ifs)} = Side(m2, a2) /\ Len(ifs) = Cardinality(Side(m2, a2))
   /\ \A i \in 1..Len(ifs) : Pts(PlaceAll(m1, Comp(m1).bdr[ifs[i].b1].v)) = Pts(PlaceAll(m2, Comp(m2).bdr[ifs[i].b2].v))

\* ---- how it comes about ----------------------------------------------------
SetOuter(o) == /\ o \in outer /\ \E b \in Side(o.m, o.a) : battr[<<o.m, b>>] = 0
               /\ battr' = [x \in DOMAIN battr |-> IF x[1] = o.m /\ x[2] \in Side(o.m, o.a) THEN o.g ELSE battr[x]]
               /\ UNCHANGED <<comps, meshes, refs, uses, outer, pattr>>
Connect(u) == /\ u \in 1..Len(uses) \ DOMAIN pattr
              /\ LET n == 1 + SetMax({Floor} \cup {pattr[w] : w \in DOMAIN pattr}) IN
                 /\ pattr' = [w \in DOMAIN pattr \cup {u} |-> IF w = u THEN n ELSE pattr[w]]
                 /\ battr' = [x \in DOMAIN battr |-> IF (x[1] = uses[u].m1 /\ x[2] \in Side(uses[u].m1, uses[u].a1)) \/ (x[1] = uses[u].m2 /\ x[2] \in Side(uses[u].m2, uses[u].a2)) THEN n ELSE battr[x]]
              /\ UNCHANGED <<comps, meshes, refs, uses, outer>>
Complete == (\A x \in DOMAIN battr : battr[x] # 0) /\ DOMAIN pattr = 1..Len(uses)
Right == Complete => PortAttrsRight /\ AttrsRight
\* elements that carry the same attribute in different copies, above the floor, lie on each other
Matching == Complete => \A u \in 1..Len(uses) :
   {Pts(PlaceAll(uses[u].m1, Comp(uses[u].m1).bdr[b].v)) : b \in Side(uses[u].m1, uses[u].a1)}
     = {Pts(PlaceAll(uses[u].m2, Comp(uses[u].m2).bdr[b].v)) : b \in Side(uses[u].m2, uses[u].a2)}
=============================================================================
