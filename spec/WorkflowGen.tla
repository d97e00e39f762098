----------------------------- MODULE WorkflowGen ----------------------------
EXTENDS Workflow, Json, Randomization
CONSTANTS NOps, Family0
VARIABLES st, c, ops
vs == <<st, c, ops>>
One(S) == RandomSubset(1, S)
Init == st = 0 /\ c = [k |-> 0] /\ ops = <<>>
Probs == IF Family0 = 1 THEN {"poisson0", "poisson_component", "linelast_disp", "advdiff"} ELSE IF Family0 = 2 THEN {"channel_flow", "force_driven_corner", "ns"} ELSE {"ns", "nsf", "nsf"}
\* ranges of the three parameters
Lo(prob) == CASE prob = "poisson0" -> <<1, 0, 0>> [] prob = "poisson_component" -> <<0, 0, 1>> [] prob = "advdiff" -> <<1, 0, 1>> [] OTHER -> <<1, 1, 1>>
Hi(prob) == CASE prob = "poisson0" -> <<2, 3, 0>> [] prob = "poisson_component" -> <<3, 3, 2>> [] prob = "linelast_disp" -> <<3, 2, 2>> [] prob = "advdiff" -> <<2, 3, 2>>
              [] prob \in {"channel_flow", "ns"} -> <<3, 2, 1>> [] prob = "nsf" -> <<2, 2, 2>> [] OTHER -> <<3, 3, 2>>
Start == /\ st = 0 /\ st' = 1 /\ UNCHANGED ops
         /\ \E prob \in One(Probs), comp \in One(BOOLEAN), order \in One(1..2), dg \in One(BOOLEAN), sep \in One(BOOLEAN), seed \in One(1..30000), tri \in One(BOOLEAN), nx \in One(1..3), ny \in One(1..2),
               ns \in One(1..3), style \in One(0..3), gx \in One(1..3), gy \in One(1..2), nc \in One(1..2), turn \in One(BOOLEAN), ls \in One({"direct", "minres"}), var \in One(BOOLEAN), sh \in One([1..4 -> 1..24]) :
            LET flow == prob \in {"channel_flow", "force_driven_corner", "ns", "nsf"}
                hy == Family0 = 3 /\ (sh[3] % 8) # 0
            IN c' = [prob |-> prob, eqp |-> hy, lf |-> hy /\ prob = "nsf" /\ (sh[4] % 3) # 0, pre |-> (sh[2] % 2) = 0, crit |-> (IF (sh[2] % 3) = 0 THEN "linf" ELSE "l2"), comp |-> comp \/ hy, order |-> IF flow THEN 1 ELSE order, dg |-> dg /\ prob # "advdiff", sep |-> sep \/ (Family0 = 3 /\ (sh[4] % 4) # 1), seed |-> seed, simplex |-> tri /\ prob \notin {"ns", "nsf"}, nx |-> IF flow THEN 1 + (nx % 2) ELSE nx, ny |-> ny, ns |-> ns, style |-> style,
                     gx |-> IF flow THEN 1 + (gx % 2) ELSE gx, gy |-> gy, nc |-> nc, turn |-> turn, ls |-> IF prob \in {"ns", "nsf", "advdiff"} THEN "direct" ELSE ls, ordering |-> IF var THEN "variable" ELSE "domain", perm |-> sh[1]]
In(lo, hi) == lo..hi
Sweeps == /\ st = 1 /\ st' = 2 /\ UNCHANGED ops
          /\ \E b \in One([1..3 -> 0..5]), p1 \in One(1..3), p2 \in One(1..3), n1 \in One(1..3), n2 \in One(1..2), s1 \in One(1..2), tg \in One([1..3 -> [1..3 -> 0..5]]), two \in One(BOOLEAN), off \in One(0..2), rand \in One(1..6), inte \in One(BOOLEAN) :
             LET lo == Lo(c.prob) hi == Hi(c.prob)
                 fit(x) == [i \in 1..3 |-> lo[i] + (x[i] % (hi[i] - lo[i] + 1))]
                 free == {i \in 1..3 : hi[i] > lo[i]}
                 base == fit(b)
                 sw1 == IF p1 \in free THEN <<[p |-> p1, lo |-> lo[p1], step |-> s1, n |-> IF s1 = 2 THEN 2 ELSE IF n1 > hi[p1] - lo[p1] + 1 THEN hi[p1] - lo[p1] + 1 ELSE n1]>> ELSE <<>>
                 sw2 == IF p2 \in free /\ (two \/ sw1 = <<>>) /\ (p2 # p1 \/ sw1 = <<>>) THEN <<[p |-> p2, lo |-> base[p2], step |-> 1, n |-> IF base[p2] < hi[p2] THEN n2 ELSE 1]>> ELSE <<>>
                 bad == s1 = 2 /\ sw1 # <<>> /\ lo[p1] + 2 > hi[p1]
                 sw == (IF bad THEN <<[sw1[1] EXCEPT !.n = 1, !.step = 1]>> ELSE sw1) \o sw2
             IN /\ sw # <<>>
                /\ c' = c @@ [base |-> base, sw |-> sw, tg |-> [i \in 1..3 |-> IF i = 1 THEN [fit(tg[1]) EXCEPT ![1] = base[1]] ELSE IF Family(c.prob, fit(tg[i])) = Family(c.prob, base) THEN fit(tg[i]) ELSE base], off |-> off,
                            rand |-> rand = 1, int |-> inte]
Do(o) == ops' = Append(ops, o)
N == Size(c.sw) + 3
Levels == {"none", "global", "component"}
\* mostly in the useful order, runs mostly at a level that was built
Last == LET I == {i \in 1..Len(ops) : ops[i].op = "build"} IN IF I = {} THEN "none" ELSE ops[CHOOSE i \in I : \A j \in I : j <= i].level
Step == st \in 2..(NOps + 1) /\ ~c.eqp /\ st' = st + 1 /\ UNCHANGED c /\
        \E w \in One(1..16), k \in One(1..N), lv \in One(Levels), cmp \in One(0..2), port \in One(1..3), z \in One(1..8), gap \in One(1..10) :
          LET i == st - 1
              v == IF gap = 1 THEN w ELSE CASE i = 1 -> 1 [] i = 2 -> 2 [] i = 3 -> 3 [] i = 6 /\ w < 12 -> 3 [] i = 8 /\ w < 4 -> 1 [] OTHER -> IF w < 3 THEN w + 4 ELSE w
              bl == IF lv = "component" /\ ~c.comp /\ z # 1 THEN "global" ELSE IF lv = "none" /\ z > 2 THEN "global" ELSE lv
              rl == IF z > 2 THEN Last ELSE lv
          IN CASE v = 1 -> Do([op |-> "gen"])
               [] v = 2 -> Do([op |-> "train", mode |-> IF port = 1 THEN "port" ELSE "basis", files |-> port])
               [] v \in 3..5 -> Do([op |-> "build", level |-> bl, k |-> k])
               [] v = 6 -> Do([op |-> "run", rom |-> FALSE, level |-> "none", k |-> k, cmp |-> 0])
               [] OTHER -> Do([op |-> "run", rom |-> TRUE, level |-> rl, k |-> k, cmp |-> cmp])
Hyper == st \in 2..(NOps + 1) /\ c.eqp /\ st' = st + 1 /\ UNCHANGED c /\
        \E w \in One(1..16), k \in One(1..N), lv \in One(Levels), cmp \in One(0..2), port \in One(1..3), z \in One(1..10), gap \in One(1..12) :
          LET i == st - 1
              v == IF gap = 1 THEN w ELSE CASE i = 1 -> 1 [] i = 2 -> 2 [] i = 3 -> 3 [] i = 4 -> 4 [] i = 8 /\ w < 4 -> 1 [] i = 9 /\ w < 4 -> 3 [] OTHER -> IF w < 3 THEN 5 ELSE w
              l == IF z > 1 THEN "component" ELSE lv
          IN CASE v = 1 -> Do([op |-> "gen"])
               [] v = 2 -> Do([op |-> "train", mode |-> IF port = 1 THEN "port" ELSE "basis", files |-> port])
               [] v = 3 -> Do([op |-> "eqp", mode |-> IF c.lf /\ z # 2 THEN "port" ELSE IF port = 1 THEN "port" ELSE "basis", level |-> l])
               [] v = 4 -> Do([op |-> "build", level |-> l, k |-> k])
               [] v = 5 -> Do([op |-> "coords"])
               [] v = 6 -> Do([op |-> "run", rom |-> FALSE, level |-> "none", k |-> k, cmp |-> 0])
               [] OTHER -> Do([op |-> "run", rom |-> TRUE, level |-> l, k |-> IF k > Size(c.sw) /\ z > 3 THEN 1 ELSE k, cmp |-> cmp])
Done == st = NOps + 2 /\ st' = st + 1 /\ UNCHANGED <<c, ops>>
        /\ LET g == Samples(c) IN PrintT("@@" \o ToJson([c |-> c, cands |-> g \o c.tg, n |-> Len(g), ops |-> ops]))
Spec == Init /\ [][Start \/ Sweeps \/ Step \/ Hyper \/ Done]_vs
=============================================================================
