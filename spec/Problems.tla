------------------------------ MODULE Problems ------------------------------
(* The parameterized problems: which variable each named parameter drives, the   *)
(* defaults, the boundary attributes with their roles, and the prescribed fields.  *)
(* Variables are in units of 1/W; coordinates and times in halves; field values      *)
(* in 1/U.  Angles are taken where sine and exponential are known.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
W == 300
U == 10000
BIG == 2000000000
VARIABLES prob, vars, battr, bdr, fbdr      \* fbdr: boundary roles of the flow problem behind an advection-diffusion problem
pvars == <<prob, vars, battr, bdr, fbdr>>
ZERO == 0  DIR == 1  NEU == 2  NONE == 3
Abs(x) == IF x < 0 THEN -x ELSE x
Rep(n, x) == [i \in 1..n |-> x]
XYZ == <<"x", "y", "z">>
---------------------------------------------------------------------------
\* parameters in index order: <<name, variable>>
Plain(ns, v) == [i \in 1..Len(ns) |-> <<ns[i], v \o ns[i]>>]
NU == <<"nu", "flow.nu">>
CompFlow == <<NU>> \o [i \in 1..3 |-> <<"u0_" \o XYZ[i], "cf.u0_" \o ToString(i)>>]
            \o [i \in 1..3 |-> <<"du_" \o XYZ[i], "cf.du_" \o ToString(i)>>]
            \o [i \in 1..3 |-> <<"offsets_" \o XYZ[i], "cf.offsets_" \o ToString(i)>>]
            \o [q \in 1..9 |-> LET i == 1 + (q - 1) \div 3 j == 1 + ((q - 1) % 3) IN
                  <<"k_" \o <<"u", "v", "w">>[i] \o "_" \o XYZ[j], "cf.k_" \o ToString(j) \o "_" \o ToString(i)>>]
Train == <<"l_ux", "l_uy", "r_fx", "r_fy", "u_fx", "u_fy", "d_fx", "d_fy", "lx", "ly", "rx", "ry", "dx", "dy", "ux", "uy">>
Train2 == <<"xu_amp", "xu_freq", "xu_offset", "xf_amp", "xf_freq", "xf_offset", "yu_amp", "yu_freq", "yu_offset", "yf_amp", "yf_freq", "yf_offset",
            "b_fx", "b_fy", "bxf_amp", "bxf_freq", "bxf_offset", "byf_amp", "byf_freq", "byf_offset", "bx", "by">>
Elast == <<<<"lambda", "le.lambda">>, <<"mu", "le.mu">>>>
ParamsOf(p) == CASE p = "poisson0" -> Plain(<<"k", "offset">>, "p0.")
  [] p = "poisson_component" -> Plain(<<"k0", "k1", "k2", "offset", "bdr_k0", "bdr_k1", "bdr_k2", "bdr_offset", "bdr_idx">>, "pc.")
  [] p = "poisson_spiral" -> Plain(<<"L", "Lw", "k", "s">>, "ps.")
  [] p = "channel_flow" -> <<NU>> \o Plain(<<"L", "U", "x0">>, "ch.")
  [] p \in {"component_flow", "flow_past_array"} -> CompFlow
  [] p = "backward_facing_step" -> <<NU>> \o Plain(<<"y0", "y1", "u0", "amp0", "ky0", "freq0", "t_offset0", "amp1", "ky1", "freq1", "t_offset1">>, "bfs.")
  [] p = "lid_driven_cavity" -> <<NU>> \o Plain(<<"u0", "L">>, "lid.")
  [] p \in {"periodic_flow_past_array", "force_driven_corner"} -> <<NU>> \o [i \in 1..3 |-> <<"f" \o XYZ[i], "per.f_" \o ToString(i)>>]
  [] p \in {"linelast_disp", "linelast_disp_lcantilever", "linelast_disp_lattice"} -> <<<<"rdisp_f", "le.rdisp_f">>>> \o Elast
  [] p = "linelast_force_cantilever" -> <<<<"rforce_f", "le.rforce_f">>>> \o Elast
  [] p = "linelast_frame_wind" -> Elast \o Plain(<<"qwind_f", "density", "g">>, "fw.")
  [] p = "linelast_cwtrain" -> Plain(Train, "tr.") \o Elast \o Plain(Train2, "tr.")
  [] p = "advdiff_flow_past_array" -> CompFlow \o Plain(<<"q0", "dq", "qoffset">>, "ad.") \o [i \in 1..3 |-> <<"qk_" \o XYZ[i], "ad.qk_" \o ToString(i)>>]
Problems == {"poisson0", "poisson_component", "poisson_spiral", "channel_flow", "component_flow", "flow_past_array", "backward_facing_step",
  "lid_driven_cavity", "periodic_flow_past_array", "force_driven_corner", "linelast_disp", "linelast_disp_lcantilever", "linelast_disp_lattice",
  "linelast_force_cantilever", "linelast_frame_wind", "linelast_cwtrain", "advdiff_flow_past_array"}
ParamTable == [p \in Problems |-> ParamsOf(p)]
Params(p) == ParamTable[p]
VarTable == [p \in Problems |-> {ParamTable[p][i][2] : i \in 1..Len(ParamTable[p])}]
NumParams(p) == Len(Params(p))
Index(p, n) == (CHOOSE i \in 1..NumParams(p) : Params(p)[i][1] = n) - 1
HasParam(p, n) == \E i \in 1..NumParams(p) : Params(p)[i][1] = n
VarOf(p, n) == Params(p)[Index(p, n) + 1][2]
\* defaults: 1 for these, other values listed, 0 for the rest
Ones == {"k", "nu", "L", "U", "u0", "y1", "du_x", "du_y", "du_z", "rdisp_f", "rforce_f", "lambda", "mu", "q0",
         "xu_amp", "xf_amp", "yu_amp", "yf_amp", "bxf_amp", "byf_amp", "xu_freq", "xf_freq", "yu_freq", "yf_freq", "bxf_freq", "byf_freq"}
         \cup {"k_" \o <<"u", "v", "w">>[i] \o "_" \o XYZ[j] : i, j \in 1..3}
Special == ("poisson_component" :> ("offset" :> 30 @@ "bdr_idx" :> -W)) @@ ("poisson_spiral" :> ("Lw" :> 60 @@ "s" :> 180))
        @@ ("channel_flow" :> ("x0" :> 150)) @@ ("advdiff_flow_past_array" :> ("dq" :> 30))
        @@ ("linelast_frame_wind" :> ("lambda" :> BIG @@ "mu" :> BIG @@ "qwind_f" :> 500 * W @@ "density" :> 23550 @@ "g" :> 2943))
Default(p, n) == IF p \in DOMAIN Special /\ n \in DOMAIN Special[p] THEN Special[p][n] ELSE IF n \in Ones THEN W ELSE 0
---------------------------------------------------------------------------
\* boundary attributes and their roles before any parameter is set
Battr(p) == CASE p \in {"poisson0", "poisson_component", "poisson_spiral"} -> <<-1>>
  [] p = "periodic_flow_past_array" -> <<5>>
  [] p \in {"backward_facing_step", "linelast_disp", "linelast_disp_lcantilever"} -> <<1, 2, 3>>
  [] OTHER -> <<1, 2, 3, 4, 5>>
Bdr(p) == CASE p \in {"poisson0", "poisson_spiral", "periodic_flow_past_array"} -> <<ZERO>>
  [] p = "poisson_component" -> <<DIR>>
  [] p = "channel_flow" -> <<ZERO, NEU, ZERO, DIR, ZERO>>
  [] p \in {"component_flow", "flow_past_array"} -> <<DIR, DIR, DIR, DIR, ZERO>>
  [] p = "advdiff_flow_past_array" -> <<DIR, DIR, DIR, DIR, NEU>>
  [] p = "backward_facing_step" -> <<DIR, ZERO, NEU>>
  [] p = "lid_driven_cavity" -> <<DIR, ZERO, DIR, ZERO, ZERO>>
  [] p = "force_driven_corner" -> <<ZERO, ZERO, NEU, NEU, ZERO>>
  [] p = "linelast_disp" -> <<DIR, DIR, ZERO>>
  [] p = "linelast_disp_lcantilever" -> <<DIR, DIR, NEU>>
  [] p = "linelast_disp_lattice" -> <<NEU, DIR, NEU, DIR, NEU>>
  [] p \in {"linelast_force_cantilever", "linelast_frame_wind", "linelast_cwtrain"} -> <<NEU, NEU, NEU, DIR, NEU>>
FlowBdr == <<DIR, DIR, DIR, DIR, ZERO>>
\* inflow sides carry Dirichlet data, outflow sides are free
Upwind(b, v) == [b EXCEPT ![4] = IF v["cf.u0_1"] > 0 THEN DIR ELSE NEU, ![2] = IF v["cf.u0_1"] > 0 THEN NEU ELSE DIR,
                          ![1] = IF v["cf.u0_2"] > 0 THEN DIR ELSE NEU, ![3] = IF v["cf.u0_2"] > 0 THEN NEU ELSE DIR]
\* what setting parameters does to the boundary description
Rebattr(p, v, b) == IF p = "poisson_component" THEN <<IF v["pc.bdr_idx"] < 0 THEN -1 ELSE 1 + v["pc.bdr_idx"] \div W>> ELSE b
Rebdr(p, v, b) == IF p \in {"flow_past_array", "advdiff_flow_past_array"} THEN Upwind(b, v) ELSE b
Refbdr(p, v, b) == IF p = "advdiff_flow_past_array" THEN Upwind(b, v) ELSE b
Allowed(p, v) == p = "poisson_component" => v["pc.bdr_idx"] < 4 * W
---------------------------------------------------------------------------
New(p) == /\ prob' = p
          /\ vars' = [x \in DOMAIN vars |-> IF x \in VarTable[p]
                                            THEN Default(p, Params(p)[CHOOSE i \in 1..NumParams(p) : Params(p)[i][2] = x][1]) ELSE vars[x]]
          /\ battr' = Battr(p) /\ bdr' = Bdr(p) /\ fbdr' = IF p = "advdiff_flow_past_array" THEN FlowBdr ELSE <<>>
RECURSIVE Assign(_, _, _)
\* pairs of index (from 0) and value, in order
Assign(v, p, s) == IF s = <<>> THEN v ELSE Assign([v EXCEPT ![Params(p)[Head(s)[1] + 1][2]] = Head(s)[2]], p, Tail(s))
After(v) == /\ vars' = v /\ battr' = Rebattr(prob, v, battr) /\ bdr' = Rebdr(prob, v, bdr) /\ fbdr' = Refbdr(prob, v, fbdr) /\ UNCHANGED prob
Set(s) == Allowed(prob, Assign(vars, prob, s)) /\ After(Assign(vars, prob, s))
---------------------------------------------------------------------------
\* fields: [ok |-> whether the value is representable, v |-> components in 1/U]
SinT == <<0, 2588, 5000, 7071, 8660, 9659, 10000, 9659, 8660, 7071, 5000, 2588>>
Sin24(a) == LET m == a % 24 IN IF m < 12 THEN SinT[m + 1] ELSE -SinT[m - 11]
Exact(num, den) == den # 0 /\ (24 * num) % Abs(den) = 0
Sin(num, den) == Sin24((IF den < 0 THEN -(24 * num) ELSE 24 * num) \div Abs(den))       \* of num/den turns
Div(num, den) == IF den < 0 THEN (-num) \div (-den) ELSE num \div den
RECURSIVE Sum(_, _)
Sum(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + Sum(F, n - 1)
G(x) == vars[x]
I(pre, i) == vars[pre \o ToString(i)]
Yes(v) == [ok |-> TRUE, v |-> v]
No == [ok |-> FALSE, v |-> <<>>]
Wave(num, den, a, b) == IF Exact(num, den) THEN Yes(<<Div(a * U, W) + Div(b * Sin(num, den), W)>>) ELSE No   \* a + b sin
OnlyLast(d, c) == [i \in 1..d |-> IF i = d THEN c ELSE 0]
OnlyFirst(d, c) == [i \in 1..d |-> IF i = 1 THEN c ELSE 0]
TurnsCF(i, x) == Sum(LAMBDA j : vars["cf.k_" \o ToString(j) \o "_" \o ToString(i)] * x[j], Len(x)) - 2 * I("cf.offsets_", i)
CF(x, x0, du) == IF \A i \in 1..Len(x) : Exact(TurnsCF(i, x), 2 * W)
  THEN Yes([i \in 1..Len(x) |-> Div(I("cf.u0_", i) * U, W) + Div(I("cf.du_", i) * Sin(TurnsCF(i, x), 2 * W), W) - Div((x[i] - x0[i]) * du * U, 4)]) ELSE No
Gap == (G("bfs.y1") - G("bfs.y0")) \div W      \* whole
Whole(v) == v % W = 0
BfsOk == Whole(G("bfs.y0")) /\ Whole(G("bfs.y1")) /\ Gap # 0 /\ \A m \in {"0", "1"} : Whole(G("bfs.ky" \o m)) /\ Whole(G("bfs.freq" \o m)) /\ Whole(G("bfs.amp" \o m))
\* parabolic profile, in 1/U: -u0 4/gap^2 (y0 - y)(y1 - y)
Parab(y) == Div(-(G("bfs.u0") * (2 * (G("bfs.y0") \div W) - y) * (2 * (G("bfs.y1") \div W) - y) * U) \div W, Gap * Gap)
T1(m, y) == (G("bfs.ky" \o m) \div W) * (y - 2 * (G("bfs.y0") \div W))                     \* over 4 gap turns
T2(m, t) == G("bfs.freq" \o m) * t + 2 * G("bfs.t_offset" \o m)                            \* over 2W turns
Mode(m, y, t) == Div((G("bfs.amp" \o m) \div W) * Sin(T1(m, y), 4 * Gap) * Sin(T2(m, t), 2 * W), U)
Bfs(x, t) == IF BfsOk /\ \A m \in {"0", "1"} : Exact(T1(m, x[2]), 4 * Gap) /\ Exact(T2(m, t), 2 * W)
  THEN Yes([i \in 1..Len(x) |-> IF i = 1 THEN Parab(x[2]) ELSE IF i = 2 THEN Mode("0", x[2], t) + Mode("1", x[2], t) ELSE 0]) ELSE No
\* a component of the training loads: chosen when its probability reaches one half
TrC(pr, c, a, x) == IF 2 * G("tr." \o pr) >= W
  THEN LET num == (G("tr." \o a \o "_freq") \div W) * (W * x + 12 * G("tr." \o a \o "_offset")) IN
       Wave(num, 12 * W, G("tr." \o c), G("tr." \o a \o "_amp"))
  ELSE Yes(<<0>>)
TrOk(a) == Whole(G("tr." \o a \o "_freq"))
Tr(x, p1, c1, a1, p2, c2, a2) == LET r1 == TrC(p1, c1, a1, x[1]) r2 == TrC(p2, c2, a2, x[2]) IN
  IF TrOk(a1) /\ TrOk(a2) /\ r1.ok /\ r2.ok THEN Yes([i \in 1..Len(x) |-> IF i = 1 THEN r1.v[1] ELSE IF i = 2 THEN r2.v[1] ELSE 0]) ELSE No
\* (x0, du: the flux correction, in halves)
Field(f, x, t, x0, du) == LET d == Len(x) IN
  CASE f = "p0" -> Wave(G("p0.k") * Sum(LAMBDA i : x[i], d) + 2 * G("p0.offset"), 2 * W, 0, W)
  [] f = "pc" -> Wave(Sum(LAMBDA i : vars["pc.k" \o ToString(i - 1)] * x[i], d) + 2 * G("pc.offset"), 2 * W, 0, W)
  [] f = "pcb" -> Wave(Sum(LAMBDA i : vars["pc.bdr_k" \o ToString(i - 1)] * x[i], d) + 2 * G("pc.bdr_offset"), 2 * W, 0, W)
  [] f = "q" -> Wave(Sum(LAMBDA i : I("ad.qk_", i) * x[i], d) + 2 * G("ad.qoffset"), 2 * W, G("ad.q0"), G("ad.dq"))
  [] f = "channel" -> IF G("ch.L") \in {W, 2 * W, -W} /\ Whole(2 * G("ch.x0")) THEN
        LET y == x[2] - (2 * G("ch.x0")) \div W l == G("ch.L") \div W IN
        Yes(OnlyFirst(d, Div(G("ch.U") * U, W) - Div(G("ch.U") * (U \div 4) * 4 * y * y, W * l * l))) ELSE No
  [] f = "cf" -> CF(x, x0, du)
  [] f = "bfs" -> Bfs(x, t)
  [] f = "bfsic" -> IF BfsOk THEN Yes(OnlyFirst(d, IF x[2] < 2 * (G("bfs.y0") \div W) THEN 0 ELSE Parab(x[2]))) ELSE No
  [] f = "zero1" -> Yes(<<0>>)
  [] f = "zero" -> Yes(Rep(d, 0))
  [] f = "lid" -> IF G("lid.L") \in {W, 2 * W, -W} THEN LET l == G("lid.L") \div W IN
        Yes(OnlyFirst(d, Div(G("lid.u0") * (U \div 4) * 4 * x[1] * (2 * l - x[1]), W * l * l))) ELSE No
  [] f = "per" -> Yes([i \in 1..d |-> Div(I("per.f_", i) * U, W)])
  [] f = "disp" -> Yes(OnlyLast(d, Div(-(G("le.rdisp_f") * x[1] * (U \div 10)), W)))
  [] f = "ldisp" -> Yes(OnlyLast(d, Div(-(G("le.rdisp_f") * (x[d] - 10) * (U \div 10)), W)))
  [] f = "tip" -> Yes(OnlyLast(d, Div(-(G("le.rforce_f") * (U \div 100)), W)))
  [] f = "wind" -> IF Abs(G("fw.qwind_f")) < 20000 THEN Yes(OnlyFirst(d, Div(G("fw.qwind_f") * U, W))) ELSE No
  [] f = "gravity" -> IF Abs(G("fw.density")) < 1000 /\ Abs(G("fw.g")) < 3000 THEN Yes(OnlyLast(d, Div(-((G("fw.density") * G("fw.g")) * (U \div 100)), (W * W) \div 100))) ELSE No
  [] f = "left" -> Tr(x, "lx", "l_ux", "xu", "ly", "l_uy", "yu")
  [] f = "right" -> Tr(x, "rx", "r_fx", "xf", "ry", "r_fy", "yf")
  [] f = "up" -> Tr(x, "ux", "u_fx", "xf", "uy", "u_fy", "yf")
  [] f = "down" -> Tr(x, "dx", "d_fx", "xf", "dy", "d_fy", "yf")
  [] f = "body" -> Tr(x, "bx", "b_fx", "bxf", "by", "b_fy", "byf")
  [] f = "lambda" -> IF Abs(G("le.lambda")) < 100000 THEN Yes(<<Div(G("le.lambda") * U, W)>>) ELSE No
  [] f = "mu" -> IF Abs(G("le.mu")) < 100000 THEN Yes(<<Div(G("le.mu") * U, W)>>) ELSE No
\* the source of the spiral problem at m widths from the arm
ExpT == <<10000, 6065, 1353>>
Spiral(m) == LET num == G("ps.k") * m * G("ps.Lw") IN
  IF Exact(num, W * W) THEN Yes(<<Div(ExpT[m + 1] * Sin24((24 * num) \div (W * W) + 6), U)>>) ELSE No
\* which field each slot of a problem holds ("" for none)
SlotsOf(p) == LET None5 == Rep(5, "") IN
  CASE p = "poisson0" -> [srhs |-> <<"p0">>, vrhs |-> <<"">>, sbdr |-> <<"">>, vbdr |-> <<"">>, ic |-> <<>>, gs |-> <<>>, gv |-> <<>>]
  [] p = "poisson_component" -> [srhs |-> <<"pc">>, vrhs |-> <<"">>, sbdr |-> <<"pcb">>, vbdr |-> <<"">>, ic |-> <<>>, gs |-> <<>>, gv |-> <<>>]
  [] p = "poisson_spiral" -> [srhs |-> <<"spiral">>, vrhs |-> <<"">>, sbdr |-> <<"">>, vbdr |-> <<"">>, ic |-> <<>>, gs |-> <<>>, gv |-> <<>>]
  [] p = "channel_flow" -> [srhs |-> <<"">>, vrhs |-> <<"">>, sbdr |-> <<"">>, vbdr |-> Rep(5, "channel"), ic |-> <<>>, gs |-> <<>>, gv |-> <<>>]
  [] p \in {"component_flow", "flow_past_array"} -> [srhs |-> <<"">>, vrhs |-> <<"">>, sbdr |-> <<"">>, vbdr |-> Rep(5, "cf"), ic |-> <<>>, gs |-> <<>>, gv |-> <<>>]
  [] p = "advdiff_flow_past_array" -> [srhs |-> <<"">>, vrhs |-> <<"">>, sbdr |-> Rep(5, "q"), vbdr |-> Rep(5, "cf"), ic |-> <<>>, gs |-> <<>>, gv |-> <<>>]
  [] p = "backward_facing_step" -> [srhs |-> <<"">>, vrhs |-> <<"">>, sbdr |-> <<"">>, vbdr |-> Rep(3, "bfs"), ic |-> <<"bfsic", "zero1">>, gs |-> <<>>, gv |-> <<>>]
  [] p = "lid_driven_cavity" -> [srhs |-> <<"">>, vrhs |-> <<"">>, sbdr |-> <<"">>, vbdr |-> Rep(5, "lid"), ic |-> <<>>, gs |-> <<>>, gv |-> <<>>]
  [] p = "periodic_flow_past_array" -> [srhs |-> <<"">>, vrhs |-> <<"per">>, sbdr |-> <<"">>, vbdr |-> <<"">>, ic |-> <<>>, gs |-> <<>>, gv |-> <<>>]
  [] p = "force_driven_corner" -> [srhs |-> <<"">>, vrhs |-> <<"per">>, sbdr |-> <<"">>, vbdr |-> None5, ic |-> <<>>, gs |-> <<>>, gv |-> <<>>]
  [] p = "linelast_disp" -> [srhs |-> <<"">>, vrhs |-> <<"">>, sbdr |-> <<"">>, vbdr |-> <<"disp", "disp", "">>, ic |-> <<>>, gs |-> <<"lambda", "mu">>, gv |-> <<"disp">>]
  [] p = "linelast_disp_lcantilever" -> [srhs |-> <<"">>, vrhs |-> <<"">>, sbdr |-> <<"">>, vbdr |-> <<"ldisp", "ldisp", "">>, ic |-> <<>>, gs |-> <<"lambda", "mu">>, gv |-> <<"">>]
  [] p = "linelast_disp_lattice" -> [srhs |-> <<"">>, vrhs |-> <<"">>, sbdr |-> <<"">>, vbdr |-> <<"", "disp", "", "disp", "">>, ic |-> <<>>, gs |-> <<"lambda", "mu">>, gv |-> <<"">>]
  [] p = "linelast_force_cantilever" -> [srhs |-> <<"">>, vrhs |-> <<"">>, sbdr |-> <<"">>, vbdr |-> <<"", "tip", "", "disp", "">>, ic |-> <<>>, gs |-> <<"lambda", "mu">>, gv |-> <<"">>]
  [] p = "linelast_frame_wind" -> [srhs |-> <<"">>, vrhs |-> <<"gravity">>, sbdr |-> <<"">>, vbdr |-> <<"wind", "", "", "zero", "">>, ic |-> <<>>, gs |-> <<"lambda", "mu">>, gv |-> <<"">>]
  [] p = "linelast_cwtrain" -> [srhs |-> <<"">>, vrhs |-> <<"">>, sbdr |-> <<"">>, vbdr |-> <<"down", "right", "up", "left", "">>, ic |-> <<>>, gs |-> <<"lambda", "mu">>, gv |-> <<"body">>]
SlotTable == [p \in Problems |-> SlotsOf(p)]
Slots(p) == SlotTable[p]
=============================================================================
