----------------------------- MODULE RomStoreMC -----------------------------
EXTENDS RomStore
Keys == {<<"domain", "A">>, <<"domain", "B">>, <<"port", "A", "B">>}
Next == \/ \E k \in Keys, v \in 1..2 : Set(k, v)
        \/ Save
        \/ \E ks \in SUBSET Keys : Load(ks)
Spec == RInit /\ [][Next]_rvars
\* only saving changes the file, and what is loaded comes from the last save
Persistent == [][file' # file => file' = mem]_rvars
Loaded == [][held' # held => \A k \in DOMAIN held' : held'[k] = file[k]]_rvars
=============================================================================
