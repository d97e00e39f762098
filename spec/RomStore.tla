------------------------------ MODULE RomStore ------------------------------
(* Reduced-order building blocks, kept per component name, boundary attribute  *)
(* and port, saved by one assembly and loaded by another one made of the same   *)
(* components (all or some of them, in any order).                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES mem,    \* key -> content, of the assembly that saves
          file,   \* key -> content
          held    \* key -> content, of the assembly that loads
rvars == <<mem, file, held>>
RInit == mem = <<>> /\ file = <<>> /\ held = <<>>
Set(k, v) == mem' = [x \in DOMAIN mem \cup {k} |-> IF x = k THEN v ELSE mem[x]] /\ UNCHANGED <<file, held>>
Save == file' = mem /\ UNCHANGED <<mem, held>>
\* the loader takes exactly the keys its own assembly has
Load(keys) == keys \subseteq DOMAIN file /\ held' = [k \in keys |-> file[k]] /\ UNCHANGED <<mem, file>>
=============================================================================
