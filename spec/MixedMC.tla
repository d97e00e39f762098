------------------------------ MODULE MixedMC ------------------------------
(* All forms with up to two terms on a row of two cells: a form is the sum of its terms whatever    *)
(* the order they were added in, an unmarked term does nothing, and a form and its copy part ways.  *)
EXTENDS Mixed
CONSTANTS NTerm
VARIABLE n
Mm == [ne |-> 2, fi |-> <<<<1, 2>>>>, fb |-> <<[e |-> 1, a |-> 1], [e |-> 2, a |-> 2], [e |-> 2, a |-> 1]>>, trial |-> <<<<1, 2>>, <<3, 4>>>>, test |-> <<<<1>>, <<2>>>>]
Init == mesh = Mm /\ forms = <<>> /\ n = 0
Next == n < NTerm /\ n' = n + 1 /\ UNCHANGED mesh /\
  \/ Len(forms) < 2 /\ Create
  \/ Len(forms) = 1 /\ CopyOf(1)
  \/ \E f \in DOMAIN forms, k \in 1..2 : AddDom(f, k) \/ AddInt(f, k) \/ (\E m \in {<<>>, <<1>>, <<1, 2>>}, all \in BOOLEAN : AddBdr(f, k, all, m))
Spec == Init /\ [][Next]_<<mvars, n>>
Tot(F) == [a \in 1..2, b \in 1..2, j \in 1..2 |-> Entry(F, mesh, a, b, 1, j)]
Only(F, w) == CASE w = "dom" -> [NewForm EXCEPT !.dom = F.dom] [] w = "int" -> [NewForm EXCEPT !.int = F.int] [] OTHER -> [NewForm EXCEPT !.bdr = F.bdr]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Superposition == \A f \in DOMAIN forms : \A a, b, j \in 1..2 : Tot(forms[f])[a, b, j] = Tot(Only(forms[f], "dom"))[a, b, j] + Tot(Only(forms[f], "int"))[a, b, j] + Tot(Only(forms[f], "bdr"))[a, b, j]
OrderFree == \A f \in DOMAIN forms : Tot(forms[f]) = Tot([dom |-> Rev(forms[f].dom), int |-> Rev(forms[f].int), bdr |-> Rev(forms[f].bdr)])
Unmarked == \A f \in DOMAIN forms : Tot(forms[f]) = Tot([forms[f] EXCEPT !.bdr = SelectSeq(@, LAMBDA t : t.all \/ t.m # <<>>)])
AllIsEverywhere == \A f \in DOMAIN forms : Tot(forms[f]) = Tot([forms[f] EXCEPT !.bdr = [i \in 1..Len(@) |-> IF @[i].all THEN [@[i] EXCEPT !.all = FALSE, !.m = <<1, 2>>] ELSE @[i]]])
=============================================================================
