------------------------------- MODULE Blocks -------------------------------
(* Collections of matrix blocks that own their blocks, and a block matrix they *)
(* are added into.  A collection is a grid of blocks, some of them absent; an  *)
(* absent block stands for zero.  Blocks are matrices over the integers.        *)
EXTENDS LinAlg
VARIABLES coll,    \* name -> [m, n, b] with b a function on a subset of (1..m) \X (1..n)
          rs, cs,  \* sizes of the block rows / columns of the block matrix
          big      \* the block matrix, function on (1..Len(rs)) \X (1..Len(cs)), <<>> when absent
bvars == <<coll, rs, cs, big>>
Fn(S, F(_)) == [s \in S |-> F(s)]
Upd(f, k, v) == [s \in DOMAIN f \cup {k} |-> IF s = k THEN v ELSE f[s]]
BInit(names) == coll = [o \in names |-> [m |-> 0, n |-> 0, b |-> <<>>]] /\ big = <<>>
Resize(o, m, n) == coll' = [coll EXCEPT ![o] = [m |-> m, n |-> n, b |-> <<>>]] /\ UNCHANGED <<rs, cs, big>>
SetBlock(o, i, j, v) == /\ i \in 1..coll[o].m /\ j \in 1..coll[o].n
                        /\ coll' = [coll EXCEPT ![o].b = Upd(@, <<i, j>>, v)] /\ UNCHANGED <<rs, cs, big>>
Drop(o, i, j) == coll' = [coll EXCEPT ![o].b = [s \in DOMAIN @ \ {<<i, j>>} |-> @[s]]] /\ UNCHANGED <<rs, cs, big>>
ScaleBlock(o, i, j, w) == <<i, j>> \in DOMAIN coll[o].b /\ coll' = [coll EXCEPT ![o].b[<<i, j>>] = MScale(w, @)] /\ UNCHANGED <<rs, cs, big>>
Copy(o, p) == coll' = [coll EXCEPT ![o] = coll[p]] /\ UNCHANGED <<rs, cs, big>>          \* a deep copy: later changes of one do not show in the other
\* collection o is added into the block matrix at block rows ri and block columns ci, which may repeat
RECURSIVE Total(_, _, _, _, _, _)
Total(bl, ri, ci, s, i, j) ==
  IF i > Len(ri) THEN Zero(rs[s[1]], cs[s[2]])
  ELSE LET nx == IF j < Len(ci) THEN <<i, j + 1>> ELSE <<i + 1, 1>>
           rest == Total(bl, ri, ci, s, nx[1], nx[2])
       IN  IF ri[i] = s[1] /\ ci[j] = s[2] /\ <<i, j>> \in DOMAIN bl THEN MAdd(bl[<<i, j>>], rest) ELSE rest
AddTo(o, ri, ci) == /\ Len(ri) = coll[o].m /\ Len(ci) = coll[o].n
                    /\ big' = [s \in DOMAIN big |-> MAdd(big[s], Total(coll[o].b, ri, ci, s, 1, 1))]
                    /\ UNCHANGED <<coll, rs, cs>>
Empty == [s \in (1..Len(rs)) \X (1..Len(cs)) |-> Zero(rs[s[1]], cs[s[2]])]
=============================================================================
