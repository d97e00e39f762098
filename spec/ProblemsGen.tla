---------------------------- MODULE ProblemsGen ----------------------------
EXTENDS Problems, Json, Randomization
CONSTANT L
VARIABLES st, sc
One(X) == RandomSubset(1, X)
Twelfths == {25 * i : i \in -24..24}
Wholes == {W * i : i \in -3..3}
Init == prob = "" /\ vars = <<>> /\ battr = <<>> /\ bdr = <<>> /\ fbdr = <<>> /\ st = 0 /\ sc = <<>>
Vals == \* a whole number most of the time
  UNION {One(Wholes), One({W, 2 * W, 0, -W}), One(Twelfths)}
Add(r) == sc' = Append(sc, r)
Focus(p) == CASE p = "linelast_cwtrain" -> {"lx", "ly", "rx", "ry", "ux", "uy", "dx", "dy", "bx", "by"}
  [] p = "poisson_component" -> {"offset", "bdr_offset"} [] p = "channel_flow" -> {"x0", "L"} [] p = "linelast_frame_wind" -> {"density", "g", "qwind_f"}
  [] OTHER -> {Params(p)[i][1] : i \in 1..NumParams(p)}
\* parameters that decide which side plays which role
Route(p) == CASE p = "poisson_component" -> {"bdr_idx"} [] p \in {"flow_past_array", "advdiff_flow_past_array"} -> {"u0_x", "u0_y"} [] OTHER -> Focus(p)
Step == \E op \in One({"name", "name2", "name3", "name4", "index", "single", "bad", "new", "eval", "eval2", "eval3", "eval4"}), i \in One(1..NumParams(prob)), j \in One(1..NumParams(prob)), v \in Vals, w \in Vals, d \in One(2..3), seed \in One(0..9999) :
  IF op = "name2" THEN \E n \in One(Focus(prob)), z \in One({W, v}) : Add([op |-> "name", n |-> n, v |-> z]) /\ UNCHANGED prob
  ELSE IF op \in {"name3", "name4"} THEN \E n \in One(Route(prob)), z \in One({-W, -W, W, v}) : Add([op |-> "name", n |-> n, v |-> z]) /\ UNCHANGED prob
  ELSE IF op = "name" THEN Add([op |-> "name", n |-> Params(prob)[i][1], v |-> v]) /\ UNCHANGED prob
  ELSE IF op = "index" THEN Add([op |-> "index", ix |-> <<i - 1, j - 1>>, v |-> <<v, w>>]) /\ UNCHANGED prob
  ELSE IF op = "single" THEN Add([op |-> "single", n |-> <<Params(prob)[i][1], Params(prob)[j][1]>>, v |-> <<v, w>>, seed |-> seed]) /\ UNCHANGED prob
  ELSE IF op = "bad" THEN Add([op |-> "bad", seed |-> seed]) /\ UNCHANGED prob
  ELSE IF op = "new" THEN \E A \in One({Problems, {"poisson_component", "flow_past_array", "advdiff_flow_past_array"}}) : \E p \in One(A) : Add([op |-> "new", p |-> p]) /\ prob' = p
  ELSE Add([op |-> "eval", dim |-> d, seed |-> seed]) /\ UNCHANGED prob
Next == \/ st = 0 /\ st' = 1 /\ (\E A \in One({Problems, Problems, {"poisson_component", "flow_past_array", "advdiff_flow_past_array"}}) : \E p \in One(A) : Add([op |-> "new", p |-> p]) /\ prob' = p) /\ UNCHANGED <<vars, battr, bdr, fbdr>>
        \/ st > 0 /\ st < L /\ st' = st + 1 /\ Step /\ UNCHANGED <<vars, battr, bdr, fbdr>>
        \/ st = L /\ st' = st + 1 /\ PrintT("@@" \o ToJson(sc)) /\ UNCHANGED <<pvars, sc>>
Spec == Init /\ [][Next]_<<pvars, st, sc>>
=============================================================================
