----------------------------- MODULE ConfigGen -----------------------------
(* Behaviours of Config to replay: TLC -simulate prints one scenario per behaviour. *)
EXTENDS Config, Json, Randomization
CONSTANT Len0
VARIABLES hist, pre, ovr, prows
Keys == {"a", "b", "c", "d-e"}
Depth == 3
Paths == UNION {[1..n -> Keys] : n \in 1..Depth}
Vals == {[t |-> "int", s |-> "0"], [t |-> "int", s |-> "-4"], [t |-> "int", s |-> "17"], [t |-> "int", s |-> "3"],
         [t |-> "double", s |-> "2.5"], [t |-> "double", s |-> "-0.125"], [t |-> "double", s |-> "13.5"],
         [t |-> "string", s |-> "abc"], [t |-> "string", s |-> "no such"], [t |-> "string", s |-> "x-y_z.h5"],
         [t |-> "bool", s |-> "true"], [t |-> "bool", s |-> "false"],
         [t |-> "list", s |-> "[1,3,5]"], [t |-> "list", s |-> "[2]"], [t |-> "list", s |-> "[9,8,7,6]"]}
\* Fallbacks are never equal to a stored value (booleans apart), so that using one is visible.
Fallbacks(t) == IF t = "int" THEN {"-999"} ELSE IF t = "double" THEN {"-999.5"} ELSE IF t = "bool" THEN {"true","false"}
                ELSE IF t \in {"list", "listd", "listv", "lists"} THEN {"[99,98]"} ELSE {"fallback"}
ReadAs(t) == IF t = "int" THEN {"int", "double", "string"} ELSE IF t = "double" THEN {"double", "string"}
             ELSE IF t = "bool" THEN {"bool", "string"}
             ELSE IF t = "list" THEN {"list", "listd", "listv", "lists"} ELSE {t}
One(S) == RandomSubset(1, S)     \* a random singleton: \E x \in One(S) binds one random element
RowKeys == {"name", "type", "file"}
AllRows == UNION {[ks -> {"u", "v", "w"}] : ks \in SUBSET RowKeys \ {{}}}
AsList(c) == LET RECURSIVE L(_) L(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE x \in S : TRUE IN <<[p |-> p, v |-> c[p]]>> \o L(S \ {p}) IN L(DOMAIN c)
RowList(rs) == [i \in 1..Len(rs) |-> LET ks == DOMAIN rs[i] IN
                  LET RECURSIVE L(_) L(S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE x \in S : TRUE IN <<[k |-> k, v |-> rs[i][k]]>> \o L(S \ {k}) IN L(ks)]
gvars == <<pre, ovr, prows>>
H(r) == hist' = Append(hist, r) /\ UNCHANGED gvars
GInit == CInit /\ hist = <<>> /\ pre = <<>> /\ ovr = <<>> /\ prows = <<>>
Building == hist = <<>> /\ UNCHANGED cvars /\ UNCHANGED hist
AddLeaf == Building /\ Len(ovr) = 0 /\ Cardinality(DOMAIN pre) < 7 /\ UNCHANGED <<ovr, prows>>
           /\ \E p \in One(Paths), v \in One(Vals) : Settable(pre, p) /\ pre' = SetIn(pre, p, v)
AddRow == Building /\ Len(prows) < 4 /\ UNCHANGED <<pre, ovr>> /\ \E r \in One(AllRows) : prows' = Append(prows, r)
Near(c) == DOMAIN c \cup {SubSeq(p, 1, 1) : p \in DOMAIN c}
AddOvr == Building /\ DOMAIN pre # {} /\ Len(ovr) < 3 /\ UNCHANGED <<pre, prows>>
          /\ \E p \in One(Paths) \cup One(Near(SetAll(pre, ovr))), v \in One(Vals) :
               Settable(SetAll(pre, ovr), p) /\ ovr' = Append(ovr, <<p, v>>)
DoLoad == /\ hist = <<>> /\ Load(pre, prows, ovr)
          /\ \E tr \in One({TRUE, FALSE}) :
             H([op |-> "Load", base |-> AsList(pre), rows |-> RowList(prows),
                ovr |-> [i \in 1..Len(ovr) |-> [p |-> ovr[i][1], v |-> ovr[i][2]]], trail |-> tr])
Pick == One(Paths) \cup (IF DOMAIN cfg = {} THEN {} ELSE RandomSubset(IF Cardinality(DOMAIN cfg) > 2 THEN 2 ELSE Cardinality(DOMAIN cfg), DOMAIN cfg))
Below == {p \o <<k>> : p \in {x \in DOMAIN cfg : cfg[x].t = "list"}, k \in Keys}
DoRead == hist # <<>> /\ UNCHANGED cvars
          /\ \E x \in Pick \cup (IF Below = {} THEN {} ELSE One(Below)) : Readable(cfg, x) /\
             \E t \in One(IF x \in DOMAIN cfg THEN ReadAs(cfg[x].t) ELSE {"int", "double", "string", "bool", "list", "listd", "listv", "lists"}) :
             \E f \in One(Fallbacks(t)), o \in One({1, 2, 3}), sp \in One(0..(Len(x) - 1)) :
              H([op |-> IF o = 1 THEN "Require" ELSE "Get", path |-> x, split |-> sp, type |-> t, fb |-> f])
DoHas == hist # <<>> /\ UNCHANGED cvars /\ \E x \in Pick : (\A r \in DOMAIN cfg : ~StrictPfx(r, x)) /\ H([op |-> "Has", path |-> x])
DoSet == hist # <<>> /\ \E x \in Pick, v \in One(Vals) : Set(x, v) /\ \E sp \in One(0..(Len(x) - 1)) :
             H([op |-> "Set", path |-> x, split |-> IF Exists(cfg, SubSeq(x, 1, sp)) THEN sp ELSE 0, v |-> v])
DoLook == hist # <<>> /\ UNCHANGED cvars /\ \E o \in One({"Row", "RowValue"}), a \in One(RowKeys), b \in One({"u", "v", "w", "zz"}), c \in One(RowKeys) :
          H([op |-> o, lk |-> a, lv |-> b, rk |-> c, dflt |-> "dflt"])
DoBad == hist # <<>> /\ Len(hist) < 3 /\ UNCHANGED cvars /\ \E x \in One({"a", "a=", "a=1=2", "b/c=1:a", "a=1:b=2=3"}) : H([op |-> "Bad", text |-> x])
Done == Len(hist) = Len0 /\ PrintT("@@" \o ToJson(hist)) /\ hist' = Append(hist, [op |-> "Done"]) /\ UNCHANGED cvars /\ UNCHANGED gvars
GNext == \/ Len(hist) < Len0 /\ (AddLeaf \/ AddRow \/ AddOvr \/ DoLoad \/ DoRead \/ DoHas \/ DoSet \/ DoLook \/ DoBad)
         \/ Done
GSpec == GInit /\ [][GNext]_<<cfg, rows, hist, gvars>>
=============================================================================
