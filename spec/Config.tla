------------------------------- MODULE Config -------------------------------
(* The input configuration of scaleupROM: a tree of options, addressed by     *)
(* slash-separated paths, loaded from a file, overridden by "key=value"       *)
(* pairs, read with or without a fallback, and set programmatically; plus     *)
(* lists of sections that are looked up by the value of one of their keys.    *)
(*                                                                           *)
(* Abstract state: the set of leaves (path -> value).  A value is a record   *)
(* [t |-> type, s |-> canonical text].                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES cfg,     \* function from paths (sequences of keys) to values
          rows     \* the section list: sequence of functions key -> text

cvars == <<cfg, rows>>

IsPfx(p, r) == Len(p) <= Len(r) /\ SubSeq(r, 1, Len(p)) = p
StrictPfx(p, r) == Len(p) < Len(r) /\ IsPfx(p, r)

Leaves == DOMAIN cfg

\* The set of leaves of a configuration is prefix free: a node is a leaf or a section.
PrefixFree(c) == \A p, r \in DOMAIN c : ~StrictPfx(p, r)

\* An option may be set at p unless that would put a section below a leaf.
Settable(c, p) == p # <<>> /\ \A r \in DOMAIN c : ~StrictPfx(r, p)

\* Setting replaces the whole subtree at p by one leaf and touches nothing else.
SetIn(c, p, v) ==
  LET keep == {r \in DOMAIN c : ~IsPfx(p, r)}
  IN  [r \in keep \cup {p} |-> IF r = p THEN v ELSE c[r]]

RECURSIVE SetAll(_, _)
SetAll(c, kvs) == IF kvs = <<>> THEN c
                  ELSE SetAll(SetIn(c, Head(kvs)[1], Head(kvs)[2]), Tail(kvs))

RECURSIVE AllSettable(_, _)
AllSettable(c, kvs) == IF kvs = <<>> THEN TRUE
  ELSE Settable(c, Head(kvs)[1]) /\ AllSettable(SetIn(c, Head(kvs)[1], Head(kvs)[2]), Tail(kvs))

\* The options whose value a read at p may legally ask for.
Readable(c, p) == \/ p \in DOMAIN c
                  \/ \A r \in DOMAIN c : ~IsPfx(p, r) /\ (StrictPfx(r, p) => c[r].t = "list")

Exists(c, p) == \E r \in DOMAIN c : IsPfx(p, r)
GetText(c, p, fb) == IF p \in DOMAIN c THEN c[p].s ELSE fb

\* First section whose key lk has the text lv (0: none).
RECURSIVE FirstRow(_, _, _, _)
FirstRow(rs, lk, lv, i) ==
  IF i > Len(rs) THEN 0
  ELSE IF lk \in DOMAIN rs[i] /\ rs[i][lk] = lv THEN i ELSE FirstRow(rs, lk, lv, i + 1)

RowValue(rs, lk, lv, rk, dflt) ==
  LET i == FirstRow(rs, lk, lv, 1)
  IN  IF i = 0 THEN dflt ELSE IF rk \in DOMAIN rs[i] THEN rs[i][rk] ELSE dflt

------------------------------------------------------------------------------
CInit == cfg = <<>> /\ rows = <<>>

\* Load a file (leaves `base`, sections `rs`) with forced overrides applied in order.
Load(base, rs, ovr) ==
  /\ PrefixFree(base) /\ AllSettable(base, ovr)
  /\ cfg' = SetAll(base, ovr)
  /\ rows' = rs

Set(p, v) == Settable(cfg, p) /\ cfg' = SetIn(cfg, p, v) /\ UNCHANGED rows

\* Reads: the result is a function of the state, and the state stays as it is.
Get(p, fb, res) == Readable(cfg, p) /\ res = GetText(cfg, p, fb) /\ UNCHANGED cvars
Has(p, res) == res = Exists(cfg, p) /\ UNCHANGED cvars
Require(p, res) == /\ Readable(cfg, p)
                   /\ res = IF p \in DOMAIN cfg THEN cfg[p].s ELSE "EXIT"
                   /\ UNCHANGED cvars
LookUpRow(lk, lv, res) == res = FirstRow(rows, lk, lv, 1) /\ UNCHANGED cvars
LookUpValue(lk, lv, rk, dflt, res) == res = RowValue(rows, lk, lv, rk, dflt) /\ UNCHANGED cvars
BadOverride(res) == res = "EXIT" /\ UNCHANGED cvars

CTypeOK == PrefixFree(cfg)
=============================================================================
