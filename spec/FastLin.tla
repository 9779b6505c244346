------------------------------ MODULE FastLin ------------------------------
(***************************************************************************)
(* OpenFAST linearization files: a header with sizes and operating         *)
(* conditions, the operating points of states, derivatives, inputs and     *)
(* outputs, the state matrices, optionally the Jacobians and the ElastoDyn *)
(* mass matrix.  An empty block (no state, no input, no output) is left    *)
(* out of the file, and a matrix is there when both of its sides are.      *)
(***************************************************************************)
EXTENDS Base
CONSTANTS NXs, NUs, NYs, Jacs, Deriv, Trip, EDMs, Winds, Discs, Ops, K
VARIABLES ds, n, hist
DataSets == [nx : NXs, nu : NUs, ny : NYs, jac : Jacs, der : Deriv, trip : Trip, edm : EDMs, wind : Winds, disc : Discs, salt : {0}]

\* the descriptions and the short names they are shown under
XD0 == <<<<"ED 1st tower fore-aft bending mode DOF (internal DOF index = DOF_TFA1), m", "qt1FA_[m]">>,
        <<"ED Variable speed generator DOF (internal DOF index = DOF_GeAz), rad", "psi_rot_[rad]">>,
        <<"ED First time derivative of 1st tower fore-aft bending mode DOF (internal DOF index = DOF_TFA1), m/s", "d_qt1FA_[m/s]">>,
        <<"ED First time derivative of Variable speed generator DOF (internal DOF index = DOF_GeAz), rad/s", "d_psi_rot_[rad/s]">>,
        <<"ED Platform horizontal surge translation DOF (internal DOF index = DOF_Sg), m", "PtfmSurge_[m]">>,
        <<"ED Nacelle yaw rotation DOF (internal DOF index = DOF_Yaw), rad", "NacYaw_[rad]">>>>
XDD0 == <<<<"First time derivative of ED 1st tower fore-aft bending mode DOF (internal DOF index = DOF_TFA1), m/s", "d_qt1FA_[m/s]">>,
        <<"First time derivative of ED Variable speed generator DOF (internal DOF index = DOF_GeAz), rad/s", "d_psi_rot_[rad/s]">>,
        <<"First time derivative of ED First time derivative of 1st tower fore-aft bending mode DOF (internal DOF index = DOF_TFA1), m/s^2", "dd_qt1FA_[m/s^2]">>,
        <<"First time derivative of ED First time derivative of Variable speed generator DOF (internal DOF index = DOF_GeAz), rad/s^2", "dd_psi_rot_[rad/s^2]">>,
        <<"First time derivative of ED Platform horizontal surge translation DOF (internal DOF index = DOF_Sg), m/s", "d_PtfmSurge_[m/s]">>,
        <<"First time derivative of ED Nacelle yaw rotation DOF (internal DOF index = DOF_Yaw), rad/s", "d_NacYaw_[rad/s]">>>>
UD0 == <<<<"IfW Extended input: horizontal wind speed (steady/uniform wind), m/s", "WS_[m/s]">>,
        <<"ED Blade 1 pitch command, rad", "B1pitch_[rad]">>,
        <<"ED Extended input: collective blade-pitch command, rad", "PitchColl_[rad]">>,
        <<"ED Generator torque, Nm", "Qgen_[Nm]">>,
        <<"ED Platform X force, node 1, N", "PtfmFxN1_[N]">>,
        <<"ED Platform Y moment, node 1, Nm", "PtfmMyN1_[Nm]">>,
        <<"HD Extended input: wave elevation at platform ref point, m", "HDWaveElevRefPoint_[m]">>,
        <<"IfW Extended input: vertical power-law shear exponent, -", "alpha_[-]">>,
        <<"IfW Extended input: propagation direction, rad", "WD_[rad]">>,
        <<"ED Blade 2 pitch command, rad", "B2pitch_[rad]">>>>
YD0 == <<<<"IfW Wind1VelX, (m/s)", "Wind1VelX_[m/s]">>,
        <<"SrvD GenTq, (kN-m)", "SvDGenTq_[kNm]">>,
        <<"ED Tower X orientation angle, node 3, rad", "TwrRxN3_[rad]">>,
        <<"ED RotSpeed, (rpm)", "RotSpeed_[rpm]">>,
        <<"ED Blade 2 Y translation velocity, node 4, m/s", "B2TVyN4_[m/s]">>,
        <<"AD RtAeroPwr, (kW)", "ADRtAeroPwr_[kW]">>,
        <<"ED NcIMUTAxs, (m/s^2)", "NcIMUTAxs_[m/s^2]">>,
        <<"ED BldPitch1, (deg)", "BPitch1_[deg]">>,
        <<"ED RotThrust, (kN)", "RotThrust_[kN]">>>>
XMore == <<<<"ED Platform vertical heave translation DOF (internal DOF index = DOF_Hv)", "m", "PtfmHeave">>, <<"ED Platform horizontal sway translation DOF (internal DOF index = DOF_Sw)", "m", "PtfmSway">>,
           <<"ED Platform roll tilt rotation DOF (internal DOF index = DOF_R)", "rad", "PtfmRoll">>, <<"ED Platform pitch tilt rotation DOF (internal DOF index = DOF_P)", "rad", "PtfmPitch">>, <<"ED Platform yaw rotation DOF (internal DOF index = DOF_Y)", "rad", "PtfmYaw">>,
           <<"ED 2nd tower side-to-side bending mode DOF (internal DOF index = DOF_TSS2)", "m", "qt2SS">>, <<"ED 1st flapwise bending-mode DOF of blade collective", "m", "1stFLAPcoll.">>, <<"ED 2nd edgewise bending-mode DOF of blade cosine", "m", "2ndEDGEcos">>,
           <<"ED 1st edgewise bending-mode DOF of blade sine", "m", "1stEDGEsin">>, <<"BD_1 finite element node 6 rotational displacement in Z", "rad", "BD_B1N6TORS-R">>, <<"BD_2 finite element node 3 translational displacement in X", "m", "BD_B2N3FLAP-D">>,
           <<"BD_2 finite element node 3 translational displacement in Y", "m", "BD_B2N3EDGE-D">>, <<"BD_3 finite element node 12 rotational displacement in X", "rad", "BD_B3N12EDGE-R">>, <<"BD_3 finite element node 12 rotational displacement in Y", "rad", "BD_B3N12FLAP-R">>>>
XD == XD0 \o [i \in 1..Len(XMore) |-> <<XMore[i][1] \o ", " \o XMore[i][2], XMore[i][3] \o "_[" \o XMore[i][2] \o "]">>]
XDD == XDD0 \o [i \in 1..Len(XMore) |-> <<"First time derivative of " \o XMore[i][1] \o ", " \o XMore[i][2] \o "/s", "d_" \o XMore[i][3] \o "_[" \o XMore[i][2] \o "/s]">>]
UD == UD0 \o <<<<"AD X-component inflow on tower node 5, m/s", "ADXTwrN5_[m/s]">>, <<"AD Y-component inflow on blade 1, node 2, m/s", "ADYB1N2_[m/s]">>, <<"AD X-component inflow on blade 2, node 12, m/s", "ADXB2N12_[m/s]">>,
        <<"AD Z-component inflow on blade 3, node 12, m/s", "ADZB3N12_[m/s]">>, <<"IfW Z-component inflow velocity at node 7, m/s", "ZN7_[m/s]">>, <<"MAP Fairlead X-component position of node 3, m", "MAPFairleadXposN3_[m]">>,
        <<"SrvD Yaw moment, Nm", "SvDYawmoment_[Nm]">>, <<"ED NacYaw_cos, -", "NacYaw_cos_[-]">>>>
\* every component of every nodal field of the meshes
KComp == <<<<"X", "x">>, <<"Y", "y">>, <<"Z", "z">>>>
KField == <<<<"translation displacement", "T", "m", "m">>, <<"orientation angle", "R", "rad", "rad">>, <<"translation velocity", "TV", "m/s", "m/s">>, <<"rotation velocity", "RV", "rad/s", "rad/s">>, <<"translation acceleration", "TA", "m/s/s", "m/s^2">>,
            <<"rotation acceleration", "RA", "rad/s/s", "rad/s^2">>, <<"force", "F", "N", "N">>, <<"moment", "M", "Nm", "Nm">>, <<"force", "F", "N/m", "N/m">>, <<"moment", "M", "Nm/m", "Nm/m">>, <<"translation acceleration", "TA", "m/s^2", "m/s^2">>, <<"rotation acceleration", "RA", "rad/s^2", "rad/s^2">>>>
KBody == <<<<"ED Platform", "Ptfm">>, <<"ED Tower Top", "TwrTop">>, <<"ED Nacelle", "Nac">>, <<"AD Blade 3", "ADB3">>, <<"ED Blade root 2", "Broot2">>, <<"ED Hub Nodes motion", "Hub">>>>
Kin == [q \in 1..36 |-> LET f == KField[((q - 1) \div 3) + 1]  c == KComp[((q - 1) % 3) + 1]  b == KBody[((q - 1) % Len(KBody)) + 1] IN
          <<b[1] \o " " \o c[1] \o " " \o f[1] \o ", node " \o Str(q) \o ", " \o f[3], b[2] \o f[2] \o c[2] \o "N" \o Str(q) \o "_[" \o f[4] \o "]">>]
YD == YD0 \o Kin \o <<<<"ED HSS_Spd, (rpm)", "HSSSpd_[rpm]">>, <<"ED TwrBsFxt, (N)", "TwrBsFxt_[N]">>, <<"ED YawBrMzp, (N-m)", "YawBrMzp_[Nm]">>, <<"ED GenAccel, (deg/s^2)", "GenAccel_[deg/s^2]">>, <<"ED TwHt1TPxi, (m)", "TwHt1TPxi_[m]">>,
        <<"ED Az, (rad)", "Az_[rad]">>, <<"ED AzV, (rad/s)", "AzV_[rad/s]">>, <<"ED AzA, (rad/s^2)", "AzA_[rad/s^2]">>, <<"SD M1N1FKXe, (N)", "SDM1N1FKxe_[N]">>, <<"SD M1N1FKYe, (N)", "SDM1N1FKye_[N]">>, <<"SD M1N1FKZe, (N)", "SDM1N1FKze_[N]">>,
        <<"SD M1N1MKXe, (N-m)", "SDM1N1MKxe_[Nm]">>, <<"SD M1N1MKYe, (N-m)", "SDM1N1MKye_[Nm]">>, <<"SD M1N1MKZe, (N-m)", "SDM1N1MKze_[Nm]">>, <<"SD M3N2FXss, (N)", "SDM3N2Fxss_[N]">>, <<"SD M3N2FYss, (N)", "SDM3N2Fyss_[N]">>, <<"SD M3N2FZss, (N)", "SDM3N2Fzss_[N]">>,
        <<"SD M3N2MXss, (N-m)", "SDM3N2Mxss_[Nm]">>, <<"SD M3N2MYss, (N-m)", "SDM3N2Myss_[Nm]">>, <<"SD M3N2MZss, (N-m)", "SDM3N2Mzss_[Nm]">>, <<"AD B1N001Alpha, (deg)", "ADB1N001Alpha_[deg]">>, <<"SD M(1)N(2), (m)", "SDM1N2_[m]">>>>
\* no two descriptions are shown alike
NamesApart == \A t \in {XD, XDD, UD, YD} : Cardinality({t[i][2] : i \in 1..Len(t)}) = Len(t) /\ Cardinality({t[i][1] : i \in 1..Len(t)}) = Len(t)
\* beyond the list the node number makes a description different from the others
Desc(tab, i, c) == IF i <= Len(tab) THEN tab[i][c]
                   ELSE IF c = 1 THEN "ED Tower X force, node " \o Str(i) \o ", N/m" ELSE "TwrFxN" \o Str(i) \o "_[N/m]"
Shorts(tab, k) == [i \in 1..k |-> Desc(tab, i, 2)]

\* --- numbers: (salt, block, row, column) -> value, written like Fortran does
Val(s, b, i, j) == LET q == Q(((s * 211 + b * 97 + i * 37 + j * 13) % 401) - 200, 8) IN IF (i + j) % 3 = 1 THEN OddE(s + 2 * b + 3 * i + j, q) ELSE q
Num(s, b, i, j) == LET v == Val(s, b, i, j) IN IF (i + j) % 3 = 0 THEN Dec(v) \o "E+02" ELSE IF (i + j) % 3 = 1 THEN Dec(v) ELSE Dec(v) \o "E-01"
Seen(s, b, i, j) == LET v == Val(s, b, i, j) IN IF (i + j) % 3 = 0 THEN QMul(v, Q(100, 1)) ELSE IF (i + j) % 3 = 1 THEN v ELSE QMul(v, Q(1, 10))
Rot(b, i) == IF (b + i) % 3 = 0 THEN "T" ELSE "F"
Der(b, i) == (b + i) % 3
\* orientations have three operating points, the first one counts
IsTrip(d, b, i) == d.trip /\ b = 4 /\ i = 3
OPText(d, b, i) == IF IsTrip(d, b, i) THEN Num(d.salt, b, i, 0) \o ", 2.5E-01, -1.25E+00" ELSE Num(d.salt, b, i, 0) \o "                           "
HasDer(d, b) == d.der /\ b \in {1, 2}
Rows(d, b, tab, k) == [i \in 1..k |-> "         " \o Str(i) \o "    " \o OPText(d, b, i) \o "    " \o Rot(b, i) \o "     " \o (IF HasDer(d, b) THEN Str(Der(b, i)) \o "     " ELSE "") \o Desc(tab, i, 1)]
Section(d, b, title, tab, k) == IF k = 0 THEN <<>> ELSE
   <<title, "   Row/Column Operating Point                  Rotating Frame? " \o (IF HasDer(d, b) THEN "Derivative Order " ELSE "") \o "Description", "   ---------- ---------------   --------------- -----------">> \o Rows(d, b, tab, k) \o <<"">>
Mat(d, b, title, r, c) == IF r = 0 \/ c = 0 THEN <<>> ELSE
   <<title \o ": " \o Str(r) \o " x " \o Str(c)>> \o [i \in 1..r |-> "  " \o Join([j \in 1..c |-> Num(d.salt, b, i, j)], "  ")] \o <<"">>
DOFs == [i \in 1..24 |-> IF i = 1 THEN "Sg" ELSE IF i = 24 THEN "TFin" ELSE "Q" \o Str(i)]
Lines(d) == <<"", "Linearized model: Predictions were generated on 16-Feb-2020 at 10:36:41 using OpenFAST", " linked with  NWTC Subroutine Library; ElastoDyn; InflowWind", "", "Description from the FAST input file: Test 24", "", "Simulation information:",
   "   Simulation time:                   100.0000 s", "   Rotor Speed:                         " \o Dec(Q(10 + d.salt, 8)) \o " rad/s", "   Azimuth:                             " \o Dec(Q(47 - d.salt, 8)) \o " rad">>
   \o (IF d.wind THEN <<"   Wind Speed:                          8.5 m/s">> ELSE <<>>)
   \o <<"   Number of continuous states:         " \o Str(d.nx), "   Number of discrete states:           " \o (IF d.disc THEN "2" ELSE "0"), "   Number of constraint states:         0", "   Number of inputs:                    " \o Str(d.nu), "   Number of outputs:                  " \o Str(d.ny),
        "   Jacobians included in this file?    " \o (IF d.jac THEN "Yes" ELSE "No"), "">>
   \o Section(d, 1, "Order of continuous states:", XD, d.nx) \o Section(d, 2, "Order of continuous state derivatives:", XDD, d.nx)
   \o (IF d.disc THEN Section(d, 5, "Order of discrete states:", XD, 2) ELSE <<>>)
   \o Section(d, 3, "Order of inputs:", UD, d.nu) \o Section(d, 4, "Order of outputs:", YD, d.ny)
   \o <<"Linearized state matrices:", "">>
   \o Mat(d, 11, "A", d.nx, d.nx) \o Mat(d, 12, "B", d.nx, d.nu) \o Mat(d, 13, "C", d.ny, d.nx) \o Mat(d, 14, "D", d.ny, d.nu)
   \o (IF d.jac THEN <<"Jacobian matrices:", "">> \o Mat(d, 15, "dUdu", d.nu, d.nu) \o Mat(d, 16, "dUdy", d.nu, d.ny) ELSE <<>>)
   \o (IF d.edm THEN <<"ED M:   " \o Join(DOFs, "   ")>> \o [i \in 1..24 |-> Join([j \in 1..24 |-> Num(d.salt, 17, i, j)], " ")] ELSE <<>>)

\* --- what must be seen
Call(o, m) == [op |-> "call", o |-> o, at |-> <<>>, m |-> m, args |-> <<>>]
OPs(d, b, k) == [i \in 1..k |-> Seen(d.salt, b, i, 0)]
Block(b, d, r, c) == [i \in 1..r |-> [j \in 1..c |-> Seen(d.salt, b, i, j)]]
Has(o, k, e) == [op |-> "has", o |-> o, key |-> k, expect |-> e]
SeeOP(d, o, key, b, tab, k) == <<Has(o, key, k > 0), Has(o, key \o "_info", k > 0)>> \o (IF k = 0 THEN <<>> ELSE
   <<Get(o, <<key>>, OPs(d, b, k), "f8"), Get(o, <<key \o "_info", "RotatingFrame">>, [i \in 1..k |-> Rot(b, i)], "exact"),
     Get(o, <<key \o "_info", "DerivativeOrder">>, [i \in 1..k |-> IF HasDer(d, b) THEN Der(b, i) ELSE -1], "exact"), Get(o, <<key \o "_info", "Description">>, [i \in 1..k |-> Desc(tab, i, 1)], "exact")>>)
SeeMat(d, o, key, b, r, c) == <<Has(o, key, r > 0 /\ c > 0)>> \o (IF r = 0 \/ c = 0 THEN <<>> ELSE <<Get(o, <<key>>, Block(b, d, r, c), "f8"), Shape(o, <<key>>, <<r, c>>)>>)
Jac(d, k) == IF d.jac THEN k ELSE 0
XS(d) == Shorts(XD, d.nx)
XDS(d) == Shorts(XDD, d.nx)
US(d) == Shorts(UD, d.nu)
YS(d) == Shorts(YD, d.ny)
\* tables: the matrices with the short names on both sides, the operating points as one row
One(name, cols, row) == IF cols = <<>> THEN <<>> ELSE <<<<name, Table(cols, <<row>>)>>>>
Two(name, cols, rows) == IF cols = <<>> \/ rows = <<>> THEN <<>> ELSE <<<<name, Table(cols, rows)>>>>
Tabs(d) == Two("A", XS(d), Block(11, d, d.nx, d.nx)) \o Two("B", US(d), Block(12, d, d.nx, d.nu)) \o Two("C", XS(d), Block(13, d, d.ny, d.nx)) \o Two("D", US(d), Block(14, d, d.ny, d.nu))
   \o One("x", XS(d), OPs(d, 1, d.nx)) \o One("xdot", XDS(d), OPs(d, 2, d.nx)) \o One("u", US(d), OPs(d, 3, d.nu)) \o One("y", YS(d), OPs(d, 4, d.ny))
   \o (IF d.edm THEN Two("M", DOFs, Block(17, d, 24, 24)) ELSE <<>>)
   \o (IF d.jac THEN Two("dUdu", US(d), Block(15, d, d.nu, d.nu)) \o Two("dUdy", YS(d), Block(16, d, d.nu, d.ny)) ELSE <<>>)
Idx(key, r, cs) == IF r = <<>> \/ cs = 0 THEN <<>> ELSE <<Get("T", <<key, Attr("index"), Attr("values")>>, r, "exact")>>
Indices(d, o) == <<[op |-> "call", o |-> o, at |-> <<>>, m |-> "toDataFrame", args |-> <<>>, as |-> "T"]>>
   \o Idx("A", XS(d), d.nx) \o Idx("B", XS(d), d.nu) \o Idx("C", YS(d), d.nx) \o Idx("D", YS(d), d.nu) \o (IF d.jac THEN Idx("dUdu", US(d), d.nu) \o Idx("dUdy", US(d), d.ny) ELSE <<>>) \o (IF d.edm THEN Idx("M", DOFs, 24) ELSE <<>>)
See(d, o) == <<Get(o, <<"RotSpeed">>, Q(10 + d.salt, 8), "f8"), Get(o, <<"Azimuth">>, Q(47 - d.salt, 8), "f8"), Get(o, <<"WindSpeed">>, IF d.wind THEN Q(17, 2) ELSE None, "f8")>>
   \o SeeOP(d, o, "x", 1, XD, d.nx) \o SeeOP(d, o, "xdot", 2, XDD, d.nx) \o SeeOP(d, o, "u", 3, UD, d.nu) \o SeeOP(d, o, "y", 4, YD, d.ny)
   \o SeeMat(d, o, "A", 11, d.nx, d.nx) \o SeeMat(d, o, "B", 12, d.nx, d.nu) \o SeeMat(d, o, "C", 13, d.ny, d.nx) \o SeeMat(d, o, "D", 14, d.ny, d.nu)
   \o SeeMat(d, o, "dUdu", 15, Jac(d, d.nu), Jac(d, d.nu)) \o SeeMat(d, o, "dUdy", 16, Jac(d, d.nu), Jac(d, d.ny))
   \o <<Has(o, "M", d.edm)>> \o (IF d.edm THEN <<Get(o, <<"EDDOF">>, DOFs, "exact"), Get(o, <<"M">>, Block(17, d, 24, 24), "f8")>> ELSE <<>>)
   \o <<Call(o, "xdescr") @@ [expect |-> XS(d), tol |-> "exact"], Call(o, "xdotdescr") @@ [expect |-> XDS(d), tol |-> "exact"], Call(o, "udescr") @@ [expect |-> US(d), tol |-> "exact"], Call(o, "ydescr") @@ [expect |-> YS(d), tol |-> "exact"]>>
   \o <<DF(o, [dfs |-> Tabs(d)], "f8")>> \o Indices(d, o)
Init == /\ ds \in DataSets /\ n = 0
        /\ hist = <<MkText("a.lin", Lines(ds)), Open("A", "FASTLinearizationFile", "a.lin")>> \o See(ds, "A")
\* changing a matrix changes the table, and only it; the file cannot be written
Again == /\ "again" \in Ops /\ n < K /\ n' = n + 1 /\ UNCHANGED ds
         /\ hist' = hist \o <<[op |-> "read", o |-> "A"]>> \o See(ds, "A")
Refuse == /\ "write" \in Ops /\ n < K /\ n' = n + 1 /\ UNCHANGED ds
          /\ hist' = hist \o <<[op |-> "write", o |-> "A", path |-> "no.lin", err |-> "NotImplementedError"], [op |-> "exists", path |-> "no.lin", expect |-> FALSE], Read("A", "a.lin")>> \o See(ds, "A")
Another == /\ "another" \in Ops /\ n < K /\ n' = n + 1
           /\ \E e \in {x \in DataSets : x # ds /\ x.der = ds.der /\ x.trip = ds.trip} :
              LET f == [e EXCEPT !.salt = n + 1] IN
              ds' = f /\ hist' = hist \o <<MkText("a.lin", Lines(f)), Read("A", "a.lin")>> \o See(f, "A")
Next == Again \/ Refuse \/ Another
Emit == n = K => PrintT(ToJson([ops |-> hist]))
=============================================================================
