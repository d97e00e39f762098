-------------------------------- MODULE Store --------------------------------
(* Persistent storage of numerical objects.  A file is a set of groups; every  *)
(* group holds named datasets and named attributes; an object written under a  *)
(* name is what every later read of that name gives back, in the same session  *)
(* or after closing and reopening the file, whatever else was written, and      *)
(* whatever the object read into held before.                                   *)
(* An object's content is a record [dims, x] of its shape and entries; entries  *)
(* are exact tokens, so equality is bit equality.                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES store,   \* <<file, group, class, name>> -> [kind, v]  (class: "data" or "attr")
          mode     \* file -> "rw" | "ro" | "closed"
svars == <<store, mode>>

SInit == store = <<>> /\ mode = <<>>
Files == DOMAIN mode
Has(k) == k \in DOMAIN store
Put(s, k, v) == [x \in DOMAIN s \cup {k} |-> IF x = k THEN v ELSE s[x]]

\* Creating truncates: nothing of an older file of that name survives.
Create(f) == /\ (f \in Files => mode[f] = "closed")
             /\ mode' = Put(mode, f, "rw")
             /\ store' = [k \in {x \in DOMAIN store : x[1] # f} |-> store[k]]
Close(f) == f \in Files /\ mode[f] # "closed" /\ mode' = [mode EXCEPT ![f] = "closed"] /\ UNCHANGED store
Open(f, m) == f \in Files /\ mode[f] = "closed" /\ m \in {"rw", "ro"} /\ mode' = [mode EXCEPT ![f] = m] /\ UNCHANGED store
Write(f, g, c, n, kind, v) ==
  /\ f \in Files /\ mode[f] = "rw" /\ ~Has(<<f, g, c, n>>)
  /\ store' = Put(store, <<f, g, c, n>>, [kind |-> kind, v |-> v])
  /\ UNCHANGED mode
Read(f, g, c, n, kind, v) ==
  /\ f \in Files /\ mode[f] # "closed" /\ Has(<<f, g, c, n>>)
  /\ store[<<f, g, c, n>>] = [kind |-> kind, v |-> v]
  /\ UNCHANGED svars
Exists(f, g, n, res) == /\ f \in Files /\ mode[f] # "closed" /\ res = Has(<<f, g, "data", n>>) /\ UNCHANGED svars

\* Extents of a dataset as stored: matrices and tensors are column-major in memory.
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Extents(kind, dims) == IF kind \in {"dm", "dt"} THEN Reverse(dims) ELSE dims
Flat == {"ai", "ad", "ab", "a2i", "a2d", "a2b", "vec", "dm", "dt"}
Size(f, g, n, res) ==
  /\ f \in Files /\ mode[f] # "closed" /\ Has(<<f, g, "data", n>>)
  /\ store[<<f, g, "data", n>>].kind \in Flat
  /\ res = Extents(store[<<f, g, "data", n>>].kind, store[<<f, g, "data", n>>].v.dims)
  /\ UNCHANGED svars
=============================================================================
