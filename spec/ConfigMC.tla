----------------------------- MODULE ConfigMC -----------------------------
(* Exhaustive model: every history of loads, overrides, sets and reads over a small option tree. *)
EXTENDS Config
CONSTANTS Keys, Texts, MaxDepth
VARIABLE written   \* ghost: the last value written at each path that is still in force
V(s) == [t |-> "int", s |-> s]
Paths == UNION {[1..n -> Keys] : n \in 1..MaxDepth}
Bases == {b \in UNION {[S -> {V(s) : s \in Texts}] : S \in {T \in SUBSET Paths : Cardinality(T) <= 2}} : PrefixFree(b)}
Pairs == Paths \X {V(s) : s \in Texts}
Ovrs == {<<>>} \cup {<<x>> : x \in Pairs} \cup {<<x, y>> : x, y \in Pairs}
MCInit == CInit /\ written = <<>>
Force(w, p, s) == [r \in {x \in DOMAIN w : ~IsPfx(p, x)} \cup {p} |-> IF r = p THEN s ELSE w[r]]
RECURSIVE ForceAll(_, _)
ForceAll(w, kvs) == IF kvs = <<>> THEN w ELSE ForceAll(Force(w, Head(kvs)[1], Head(kvs)[2].s), Tail(kvs))
MCNext == \/ /\ cfg = <<>>
             /\ \E b \in Bases, o \in Ovrs : /\ AllSettable(b, o) /\ Load(b, <<>>, o)
                                            /\ written' = ForceAll([p \in DOMAIN b |-> b[p].s], o)
          \/ cfg # <<>> /\ \E p \in Paths, s \in Texts : Set(p, V(s)) /\ written' = Force(written, p, s)
          \/ \E p \in Paths, fb \in {"none"} : Readable(cfg, p) /\ Get(p, fb, GetText(cfg, p, fb)) /\ UNCHANGED written
MCSpec == MCInit /\ [][MCNext]_<<cfg, rows, written>>
\* a read returns the last value written there, or the fallback when nothing is there
ReadsLastWrite == \A p \in Paths : Readable(cfg, p) =>
   GetText(cfg, p, "none") = (IF p \in DOMAIN written THEN written[p] ELSE "none")
\* setting one option leaves every unrelated option as it was
Frame == [][\A p \in Paths : (\A r \in Paths : Set(r, V("1")) => ~IsPfx(r, p) /\ ~IsPfx(p, r)) =>
            (p \in DOMAIN cfg => p \in DOMAIN cfg' )]_cfg
=============================================================================
