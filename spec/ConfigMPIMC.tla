---------------------------- MODULE ConfigMPIMC ----------------------------
EXTENDS ConfigMPI
V(s) == [t |-> "int", s |-> s]
P == {<<"a">>, <<"b">>, <<"a", "b">>, <<"b", "a">>}
Files == {f \in UNION {[S -> {V("1"), V("2")}] : S \in SUBSET P} : PrefixFree(f)}
Init == CInit /\ \E f \in Files : \E o \in {<<>>} \cup {<<<<p, V("3")>>>> : p \in P} : AllSettable(f, o) /\ MInit0(f, o)
Next == UNCHANGED cvars /\ (ReadFile \/ \E r \in Ranks : GetSize(r) \/ GetText_(r) \/ Parse(r))
Spec == Init /\ [][Next]_<<cvars, mvars>> /\ WF_<<cvars, mvars>>(Next)
EventuallyAll == <>(\A r \in Ranks : pc[r] = "done")
=============================================================================
