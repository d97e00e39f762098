----------------------------- MODULE ConfigMPI -----------------------------
(* Loading a configuration in a parallel run: only rank 0 reads the file; its  *)
(* length and then its text are broadcast; every rank parses the text and      *)
(* applies the same overrides.  Ranks proceed in any order allowed by the      *)
(* two collectives.                                                            *)
EXTENDS Config, Integers
CONSTANTS Ranks            \* 0..N-1
VARIABLES file,            \* leaves of rank 0's file
          forced,          \* overrides given to every rank
          pc, size, buf, dict
mvars == <<file, forced, pc, size, buf, dict>>

None == [none |-> TRUE]
MInit0(f, o) == /\ file = f /\ forced = o
                /\ pc = [r \in Ranks |-> "start"] /\ size = [r \in Ranks |-> -1]
                /\ buf = [r \in Ranks |-> None] /\ dict = [r \in Ranks |-> None]
\* rank 0 reads the file, the other ranks never do
ReadFile == /\ pc[0] = "start" /\ pc' = [pc EXCEPT ![0] = "read"] /\ buf' = [buf EXCEPT ![0] = [text |-> file]]
            /\ size' = [size EXCEPT ![0] = Cardinality(DOMAIN file)] /\ UNCHANGED <<file, forced, dict>>
\* a rank leaves a broadcast only after rank 0 has entered it
GetSize(r) == /\ pc[r] = (IF r = 0 THEN "read" ELSE "start") /\ pc[0] \notin {"start"}
              /\ size' = [size EXCEPT ![r] = size[0]] /\ pc' = [pc EXCEPT ![r] = "sized"] /\ UNCHANGED <<file, forced, buf, dict>>
GetText_(r) == /\ pc[r] = "sized" /\ pc[0] \notin {"start", "read"}
              /\ buf' = [buf EXCEPT ![r] = buf[0]] /\ pc' = [pc EXCEPT ![r] = "text"] /\ UNCHANGED <<file, forced, size, dict>>
Parse(r) == /\ pc[r] = "text" /\ AllSettable(buf[r].text, forced)
            /\ dict' = [dict EXCEPT ![r] = [leaves |-> SetAll(buf[r].text, forced)]]
            /\ pc' = [pc EXCEPT ![r] = "done"] /\ UNCHANGED <<file, forced, size, buf>>
Loaded == \A r \in Ranks : pc[r] = "done" => dict[r].leaves = SetAll(file, forced)
Agree == \A r, s \in Ranks : (pc[r] = "done" /\ pc[s] = "done") => dict[r] = dict[s]
=============================================================================
