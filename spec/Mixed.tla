------------------------------- MODULE Mixed -------------------------------
(* Mixed bilinear forms with terms on faces.  A form holds terms on cells, on interior faces and   *)
(* on boundary faces, the latter everywhere or only where an attribute is marked; a form made from *)
(* another starts with that one's terms and then goes its own way.  Assembling applies each term    *)
(* once to every cell or face it is meant for, and adds up what they say.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES mesh,    \* [ne, fi : seq of <<e1, e2>>, fb : seq of [e, a], trial, test : dofs of each cell]
          forms    \* seq of [dom, int : seq of term ids, bdr : seq of [k, all, m : marked attributes]]
mvars == <<mesh, forms>>
RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumSeq(s, i - 1)
Sum(s) == SumSeq(s, Len(s))
\* what term k says about a face (e1, e2) (0: none; a cell is the face (e, e)), at entry (i, j) of its local matrix
Val(k, e1, e2, i, j) == ((k * 5 + e1 * 3 + e2 * 7 + i * 2 + j * 11) % 13) - 6
Applies(t, a) == t.all \/ a \in {t.m[x] : x \in 1..Len(t.m)}
NewForm == [dom |-> <<>>, int |-> <<>>, bdr |-> <<>>]
\* local rows and columns of a face's matrix which belong to cell c
Off(f, c, dofs) == IF f[1] = c THEN 0 ELSE Len(dofs[f[1]])
Touch(f, c) == c \in {f[1], f[2]}
Cell(F, a, b, i, j) == IF a # b THEN 0 ELSE Sum([x \in 1..Len(F.dom) |-> Val(F.dom[x], a, a, i, j)])
Inner(F, M, a, b, i, j) == Sum([y \in 1..Len(M.fi) |->
  LET f == M.fi[y] IN IF ~(Touch(f, a) /\ Touch(f, b)) THEN 0
  ELSE Sum([x \in 1..Len(F.int) |-> Val(F.int[x], f[1], f[2], i + Off(f, a, M.test), j + Off(f, b, M.trial))])])
Outer(F, M, a, b, i, j) == IF a # b THEN 0 ELSE Sum([y \in 1..Len(M.fb) |->
  IF M.fb[y].e # a THEN 0
  ELSE Sum([x \in 1..Len(F.bdr) |-> IF Applies(F.bdr[x], M.fb[y].a) THEN Val(F.bdr[x].k, a, 0, i, j) ELSE 0])])
Entry(F, M, a, b, i, j) == Cell(F, a, b, i, j) + Inner(F, M, a, b, i, j) + Outer(F, M, a, b, i, j)
\* a dense matrix of a form (discontinuous spaces: each dof belongs to one cell)
IsForm(F, M, mat) == \A a, b \in 1..M.ne : \A i \in 1..Len(M.test[a]), j \in 1..Len(M.trial[b]) :
  mat[M.test[a][i]][M.trial[b][j]] = Entry(F, M, a, b, i, j)

Create == forms' = Append(forms, NewForm)
CopyOf(f) == forms' = Append(forms, forms[f])
AddDom(f, k) == forms' = [forms EXCEPT ![f].dom = Append(@, k)]
AddInt(f, k) == forms' = [forms EXCEPT ![f].int = Append(@, k)]
AddBdr(f, k, all, m) == forms' = [forms EXCEPT ![f].bdr = Append(@, [k |-> k, all |-> all, m |-> m])]
=============================================================================
