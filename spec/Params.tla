------------------------------- MODULE Params -------------------------------
(* Sampling parameters.  A parameter is [kind, key, min, max, pre, wid, post]:    *)
(* "real" (min, max integers), "log" (min, max exponents of two), "int", "file"    *)
(* (file name pre, the integer padded with zeros to wid digits, post).  Setting     *)
(* sample i of n writes one option; nothing else of the configuration changes.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT U                                   \* fixed-point unit of the real values
VARIABLES params, size, cfg                  \* cfg: path -> text
prvars == <<params, size, cfg>>
Abs(x) == IF x < 0 THEN -x ELSE x
IntAt(p, n, i) == p.min + i * ((p.max - p.min) \div (IF n = 1 THEN 1 ELSE n - 1))
\* U times the i-th (from 0) of n equally spaced values (of exponents for a log scale)
RealAt(p, n, i) == U * p.min + (i * U * (p.max - p.min)) \div (IF n = 1 THEN 1 ELSE n - 1)
RECURSIVE Zeros(_)
Zeros(k) == IF k <= 0 THEN "" ELSE "0" \o Zeros(k - 1)
Digits(v) == IF v < 10 THEN 1 ELSE IF v < 100 THEN 2 ELSE IF v < 1000 THEN 3 ELSE 4
Name(p, v) == p.pre \o Zeros(p.wid - Digits(v)) \o ToString(v) \o p.post
Indexable(p, i) == size[p] > 0 /\ i >= 0 /\ i < size[p]
IsInt(p) == p.kind \in {"int", "file"}
Count(p) == p.max - p.min + 1
Resize(k, n) == size' = [size EXCEPT ![k] = n] /\ UNCHANGED <<params, cfg>>
Resizable(n) == n > 0
Maximise(k) == size' = [size EXCEPT ![k] = Count(params[k])] /\ UNCHANGED <<params, cfg>>
Write(k, s) == /\ cfg' = [x \in DOMAIN cfg \cup {params[k].key} |-> IF x = params[k].key THEN s ELSE cfg[x]]
               /\ UNCHANGED <<params, size>>
=============================================================================
