--------------------------- MODULE FastInSpecial ---------------------------
(***************************************************************************)
(* OpenFAST input files with a layout of their own: airfoil polars (one or *)
(* several tables), BeamDyn sections, damping matrices, towers, ExtPtfm,   *)
(* AeroDyn 14 polars, SubDyn output lists, airfoil coordinates.            *)
(***************************************************************************)
EXTENDS Base
CONSTANTS Files, N1s, N2s, N3s, OpNames, K
VARIABLES ds, n, mod, hist
vars == <<ds, n, mod, hist>>
DataSets == {d \in [f : Files, n1 : N1s, n2 : N2s, n3 : N3s] :
               CASE d.f \in {"guyan", "ssout", "coords"} -> d.n2 = 1 /\ d.n3 = 0
                 [] d.f \in {"beam", "tower", "memout"} -> d.n3 = 0 /\ (d.f = "beam" => d.n2 = 1)
                 [] OTHER -> TRUE}
Tol == [rel |-> Q(1, 100000000), abs |-> 0]
TolS == [rel |-> Q(1, 100000000), abs |-> Q(1, 1000000000)]
V0(i, r, c) == Q((IF (r + c + i) % 2 = 0 THEN 1 ELSE -1) * (1000 * i + 100 * r + 10 * c + 1), 8)
V(i, r, c) == OddE(7 * i + 3 * r + c, V0(i, r, c))
Mat(i, nr, nc) == [r \in 1..nr |-> [c \in 1..nc |-> V(i, r, c)]]
Words(s) == Join(s, "   ")
RowTxt(row) == "  " \o Words([c \in 1..Len(row) |-> Dec(row[c])])
MatTxt(m) == [r \in 1..Len(m) |-> RowTxt(m[r])]
P(x, lab) == "  " \o x \o "    " \o lab \o "    - description of " \o lab

\* --- airfoil polars: n1 tables of n2 rows; n3 = 0: no unsteady data, 1: with, 2: without Cm column
NTab(d) == d.n1
Suf(d, t) == IF d.n1 = 1 THEN "" ELSE "_" \o Str(t)
Ang(r) == Q(30 * r - 40, 1)
NCol(d) == IF d.n3 = 2 THEN 3 ELSE 4
Pol(d, t) == [r \in 1..(d.n2 + t) |-> [c \in 1..NCol(d) |-> IF c = 1 THEN Ang(r) ELSE QAbs(V0(t, r, c))]]
UAs == <<"alpha1", "alpha2", "eta_e", "T_f0", "T_V0", "T_p", "T_VL", "b1", "b2", "b5", "A1", "A2", "A5", "S1", "S2", "S3", "S4", "Cn1", "Cn2", "St_sh", "Cm0", "k0", "k1", "k2", "k3", "k1_hat", "x_cp_bar", "UACutout", "filtCutOff">>
PolTab(d, t) == <<"! ------------------------------", "! data for table " \o Str(t), P(Dec(Q(t, 2)), "Re"), P("0", "UserProp"), P(IF d.n3 = 1 THEN "True" ELSE "False", "InclUAdata")>>
     \o (IF d.n3 # 1 THEN <<>> ELSE <<P(Dec(Q(t, 4)), "alpha0")>> \o [i \in 1..Len(UAs) |-> IF i % 3 = 0 THEN P("\"DEFAULT\"", UAs[i]) ELSE P(Dec(Q(i + t, 2)), UAs[i])] \o <<P(Dec(Q(t, 8)), "Cd0"), P(Dec(Q(10 + t, 2)), "C_nalpha")>>)
     \o <<P(Str(d.n2 + t), "NumAlf"), "!  " \o Words(<<"Alpha", "Cl", "Cd", "Cm">>), "! " \o Words(<<"(deg)", "(-)", "(-)", "(-)">>)>> \o MatTxt(Pol(d, t))
PolHdr(d, t) == IF d.n3 = 2 THEN [PolTab(d, t) EXCEPT ![Len(PolTab(d, t)) - (d.n2 + t) - 1] = "!  Alpha  Cl   Cd", ![Len(PolTab(d, t)) - (d.n2 + t)] = "!  (deg)  (-)   (-)"] ELSE PolTab(d, t)
PolarLines(d) == <<"! ------------ AirfoilInfo v1.01.x Input File -----", "! My airfoil, corrected", P("\"DEFAULT\"", "InterpOrd"), P("0.18", "RelThickness"), P("1", "NonDimArea"), P("0", "NumCoords"), P("\"unused\"", "BL_file"), P(Str(d.n1), "NumTabs")>>
                 \o Flatten([t \in 1..d.n1 |-> PolHdr(d, t)])
PolCols(d) == IF d.n3 = 2 THEN <<"Alpha_[deg]", "Cl_[-]", "Cd_[-]">> ELSE <<"Alpha_[deg]", "Cl_[-]", "Cd_[-]", "Cm_[-]">>
PolDf(d, t, m) == Table(PolCols(d), m) @@ [pre |-> 1]
PolarSeen(o, d, m) == Flatten([t \in 1..d.n1 |-> <<Get(o, <<"AFCoeff" \o Suf(d, t)>>, m[t], Tol), Get(o, <<"NumAlf" \o Suf(d, t)>>, Len(m[t]), "exact"), Get(o, <<"Re" \o Suf(d, t)>>, Q(t, 2), Tol)>>
                         \o (IF d.n3 # 1 THEN <<>> ELSE <<Get(o, <<"Cd0" \o Suf(d, t)>>, Q(t, 8), Tol), Get(o, <<"T_f0" \o Suf(d, t)>>, Q(4 + t, 2), Tol), Get(o, <<"eta_e" \o Suf(d, t)>>, "\"DEFAULT\"", "exact")>>)])
                    \o <<DF(o, IF d.n1 = 1 THEN PolDf(d, 1, m[1]) ELSE [dfs |-> [t \in 1..d.n1 |-> <<"AFCoeff_" \o Str(t), PolDf(d, t, m[t])>>]], Tol),
                         Get(o, <<"NumTabs">>, d.n1, "exact"), Get(o, <<Attr("comment")>>, "My airfoil, corrected", "exact")>>
Polar0(d) == [t \in 1..d.n1 |-> Pol(d, t)]

\* --- BeamDyn blade: n1 stations
BeamLines(d) == <<"------- BEAMDYN V1.00.* INDIVIDUAL BLADE INPUT FILE ---", "! a blade", "---------------------- BLADE PARAMETERS ---", P(Str(d.n1), "station_total"), P("1", "damp_type"), "---------------------- DAMPING COEFFICIENT---",
                  "   mu1   mu2   mu3   mu4   mu5   mu6", "  (-)   (-)   (-)   (-)   (-)   (-)", RowTxt([c \in 1..6 |-> Q(c, 8)]), "---------------------- DISTRIBUTED PROPERTIES----">>
                \o Flatten([s \in 1..d.n1 |-> <<"  " \o Dec(Q(s - 1, 8))>> \o MatTxt(Mat(s, 6, 6)) \o <<"">> \o MatTxt(Mat(s + 10, 6, 6)) \o <<"">>])
Stiff(s, m) == IF m /\ s = 1 THEN [Mat(s, 6, 6) EXCEPT ![3][5] = Q(1, 3)] ELSE Mat(s, 6, 6)
MainT == [i \in 1..6 |-> (i - 1) * 6 + i]
BeamCols == <<"Span">> \o [i \in 1..6 |-> "K" \o Str(i) \o Str(i)] \o [i \in 1..6 |-> "M" \o Str(i) \o Str(i)]
BeamSeen(o, d, m) == <<Get(o, <<"BeamProperties", "span">>, [s \in 1..d.n1 |-> Q(s - 1, 8)], Tol), Get(o, <<"BeamProperties", "K">>, [s \in 1..d.n1 |-> Stiff(s, m)], Tol), Get(o, <<"BeamProperties", "M">>, [s \in 1..d.n1 |-> Mat(s + 10, 6, 6)], Tol),
                       Get(o, <<"DampingCoeffs">>, <<[c \in 1..6 |-> Q(c, 8)]>>, Tol), Get(o, <<"station_total">>, d.n1, "exact"),
                       DF(o, Table(BeamCols, [s \in 1..d.n1 |-> <<Q(s - 1, 8)>> \o [i \in 1..6 |-> Stiff(s, m)[i][i]] \o [i \in 1..6 |-> Mat(s + 10, 6, 6)[i][i]]]) @@ [pre |-> 1], Tol)>>
                     \o (IF d.n1 < 1 THEN <<>> ELSE <<Get(o, <<[c |-> "toDataFrame"], "K35">>, [s \in 1..d.n1 |-> Stiff(s, m)[3][5]], Tol), Get(o, <<[c |-> "toDataFrame"], "M61">>, [s \in 1..d.n1 |-> Mat(s + 10, 6, 6)[6][1]], Tol)>>)

\* --- Guyan damping matrix
GuyLines(d) == <<"----------- SubDyn MultiMember Support Structure Input File ------------", P("False", "Echo"), P("3", "IntMethod"), P("True", "CBMod"), P("2.5", "JDampings"), P("1", "GuyanDampMod"), "  0.0, 0.5   RayleighDamp  - Mass and stiffness",
                 P("6", "GuyanDampSize")>> \o MatTxt(Mat(2, 6, 6)) \o <<"---- STRUCTURE JOINTS ---", P(Str(d.n1), "NJoints"), "JointID   JointXss   JointYss   JointZss   [Coordinates of Member joints]", "  (-)   (m)   (m)   (m)">>
                 \o MatTxt(Mat(1, d.n1, 4)) \o <<P("2", "NDiv")>>
GuyM(m) == IF m THEN [Mat(2, 6, 6) EXCEPT ![3][5] = Q(1, 3)] ELSE Mat(2, 6, 6)
GuySeen(o, d, m) == <<Get(o, <<"GuyanDampMatrix">>, GuyM(m), Tol), Get(o, <<"GuyanDampSize">>, 6, "exact"), Get(o, <<"RayleighDamp">>, <<0, Q(1, 2)>>, "exact"), Shape(o, <<"Joints">>, <<d.n1, 4>>), Get(o, <<"Joints">>, Mat(1, d.n1, 4), Tol), Get(o, <<"NDiv">>, 2, "exact")>>

\* --- SubDyn list of outputs: its lines are kept as they are
SSLines(d) == <<"---- SUBDYN ----", P("2", "NDiv"), P("False", "OutAll"), P("2", "OutSwtch"), P("True", "TabDelim"), P("1", "OutDec"), P("3", "Other1"), P("3", "Other2"), P("3", "Other3"), P("3", "Other4"), P("3", "Other5"), P("3", "Other6"),
                "------------------------- SSOutList: The next line(s) contains a list of output parameters ------">> \o [i \in 1..d.n1 |-> "\"M" \o Str(i) \o "N1MKxe, M1N1MKye\"    - The moments of " \o Str(i)]
SSTail == <<"END of output channels and end of file. (the word \"END\" must appear in the first 3 columns of this line)">>
SSSeen(o, d, m) == <<Get(o, <<"Other6">>, 3, "exact"), Get(o, <<"NDiv">>, 2, "exact")>>
SSRaw(d) == [j \in 1..Len(SSLines(d)) |-> IF j = 1 \/ j > 12 THEN [raw |-> SSLines(d)[j]] ELSE Whatever] \o <<Whatever, Whatever>>

\* --- member outputs with n2 nodes per member
MOTab(d) == [r \in 1..d.n1 |-> <<Q(r, 1), Q(d.n2, 1)>> \o [k \in 1..d.n2 |-> Q(10 * r + k, 1)]]
MOLines(d) == <<"---- SUBDYN ----", P("2", "NDiv"), P("False", "OutAll"), P("2", "OutSwtch"), P("True", "TabDelim"), P("1", "OutDec"), "---- MEMBER OUTPUT LIST ---", P(Str(d.n1), "NMOutputs"),
                "MemberID   NOutCnt    NodeCnt [NOutCnt=how many nodes to get output for]", "  (-)        (-)        (-)">> \o MatTxt(MOTab(d)) \o <<P("7", "Last")>>
MOSeen(o, d, m) == <<Get(o, <<"MemberOuts">>, MOTab(d), Tol), Get(o, <<"NMOutputs">>, d.n1, "exact"), Get(o, <<"Last">>, 7, "exact")>>

\* --- tower file: n1 stations, mode shapes added to the data frame
TwS == <<"TwFAM1Sh", "TwFAM2Sh", "TwSSM1Sh", "TwSSM2Sh">>
TwTab(d) == [r \in 1..d.n1 |-> <<Q(r - 1, 2), V(1, r, 2), V(1, r, 3)>>]
TwC(i, p) == Q(((i * p) % 5) - 2, 4)
TwLines(d) == <<"------- ELASTODYN V1.00.* TOWER INPUT FILE -----", "! A tower", P(Str(d.n1), "NTwInpSt"), P("1.5", "TwrFADmp(1)"), P("1.5", "TwrFADmp(2)"), "---------------------- DISTRIBUTED TOWER PROPERTIES ---", "  HtFract  TMassDen   TwFAStif", "   (-)   (kg/m)   (Nm^2)">> \o MatTxt(TwTab(d))
              \o Flatten([i \in 1..4 |-> [p \in 1..5 |-> P(Dec(TwC(i, p)), TwS[i] \o "(" \o Str(p + 1) \o ")")]])
RECURSIVE Pw(_, _)
Pw(q, p) == IF p = 0 THEN Q(1, 1) ELSE QNorm(QMul(q, Pw(q, p - 1)))
RECURSIVE Poly(_, _, _)
Poly(i, x, p) == IF p = 0 THEN Q(0, 1) ELSE QNorm(QAdd(Poly(i, x, p - 1), QNorm(QMul(TwC(i, p), Pw(x, p + 1)))))
TwSeen(o, d, m) == <<Get(o, <<"TowProp">>, TwTab(d), Tol), Get(o, <<"TwSSM2Sh(6)">>, TwC(4, 5), Tol),
                     DF(o, Table(<<"HtFract_[-]", "TMassDen_[kg/m]", "TwFAStif_[Nm^2]", "ShapeForeAft1_[-]", "ShapeForeAft2_[-]", "ShapeSideSide1_[-]", "ShapeSideSide2_[-]">>, [r \in 1..d.n1 |-> TwTab(d)[r] \o [i \in 1..4 |-> Poly(i, Q(r - 1, 2), 5)]]), TolS)>>

\* --- ExtPtfm superelement: n1 degrees of freedom, n2 + 1 steps, n3 chooses the time step
Dt(d) == <<Q(1, 10), Q(1, 4), Q(1, 100)>>[d.n3 + 1]
TT(d) == QNorm(QMul(Dt(d), Int2Q(d.n2)))
ExtLines(d) == <<"!Comment", "!Comment Flex 5 Format", "!Dimension: " \o Str(d.n1), "!Time increment in simulation: " \o Dec(Dt(d)), "!Total simulation time in file: " \o Dec(TT(d)), "",
                 "!Mass Matrix", "!Dimension: " \o Str(d.n1)>> \o MatTxt(Mat(1, d.n1, d.n1)) \o <<"", "!Stiffness Matrix", "!Dimension: " \o Str(d.n1)>> \o MatTxt(Mat(2, d.n1, d.n1))
               \o <<"", "!Damping Matrix", "!Dimension: " \o Str(d.n1)>> \o MatTxt(Mat(3, d.n1, d.n1)) \o <<"", "!Loading and Wave Elevation", "!Dimension: 1 time column - " \o Str(d.n1) \o " force columns">> \o MatTxt(Mat(4, d.n2 + 1, d.n1 + 1))
ExtCols(d) == SubSeq(<<"Time_[s]","InpF_Fx_[N]", "InpF_Fy_[N]", "InpF_Fz_[N]", "InpF_Mx_[Nm]", "InpF_My_[Nm]", "InpF_Mz_[Nm]", "CBF_001_[-]", "CBF_002_[-]">>, 1, d.n1 + 1)
ExtM(m) == IF m THEN Q(1, 3) ELSE V(1, 1, 1)
ExtSeen(o, d, m) == <<Get(o, <<"nDOF">>, d.n1, "exact"), Get(o, <<"dt">>, Dt(d), Tol), Get(o, <<"T">>, TT(d), Tol), Get(o, <<"MassMatrix">>, [Mat(1, d.n1, d.n1) EXCEPT ![1][1] = ExtM(m)], Tol), Get(o, <<"StiffnessMatrix">>, Mat(2, d.n1, d.n1), Tol),
                      Get(o, <<"DampingMatrix">>, Mat(3, d.n1, d.n1), Tol), Get(o, <<"Loading">>, Mat(4, d.n2 + 1, d.n1 + 1), Tol), DF(o, Table(ExtCols(d), Mat(4, d.n2 + 1, d.n1 + 1)), Tol)>>

\* --- AeroDyn 14 polar: n1 tables, n2 rows, n3 = 0: Cl Cd, 1: Cl Cd Cm
ADc(d) == IF d.n3 = 0 THEN 2 ELSE 3
ADTab(d) == [r \in 1..d.n2 |-> [c \in 1..(1 + d.n1 * ADc(d)) |-> V(3, r, c)]]
Rep(d, f(_)) == Words([t \in 1..d.n1 |-> f(t)])
ADI(t) == Dec(Q(t, 2))
ADLines(d) == <<"SH3052 data", "Reinterpolated", Str(d.n1) \o "   Number of airfoil tables in this file", Rep(d, ADI) \o "   Table ID parameter", Rep(d, ADI) \o "   Stall angle (deg)", Rep(d, ADI) \o "   No longer used, enter zero", Rep(d, ADI) \o "   No longer used, enter zero", Rep(d, ADI) \o "   No longer used, enter zero",
                Rep(d, ADI) \o "   Zero Cn angle of attack (deg)", Rep(d, ADI) \o "   Cn slope for zero lift (dimensionless)", Rep(d, ADI) \o "   Cn extrapolated", Rep(d, ADI) \o "   Cn at stall", Rep(d, ADI) \o "   Angle of attack for minimum CD (deg)", Rep(d, ADI) \o "   Minimum CD value">> \o MatTxt(ADTab(d)) \o <<"">>
ADid(d, t) == IF d.n1 = 1 THEN "" ELSE Dec(Q(t, 2))
ADCols(d) == <<"Alpha_[deg]">> \o Flatten([t \in 1..d.n1 |-> IF d.n3 = 0 THEN <<"Cl" \o ADid(d, t) \o "_[-]", "Cd" \o ADid(d, t) \o "_[-]">> ELSE <<"Cl" \o ADid(d, t) \o "_[-]", "Cd" \o ADid(d, t) \o "_[-]", "Cm" \o ADid(d, t) \o "_[-]">>])
ADSeen(o, d, m) == <<Get(o, <<"Polar">>, ADTab(d), Tol), DF(o, Table(ADCols(d), ADTab(d)), Tol)>>

\* --- airfoil coordinates: n1 points after the reference point
CoLines(d) == <<"  " \o Str(d.n1 + 1) \o "   NumCoords   ! The number of coordinates", "! ......... x-y coordinates are next if NumCoords > 0", "! x-y coordinate of airfoil reference", "!  x/c        y/c", "0.250    0", "! coordinates of airfoil shape", "! NACA 64-618", "!  x/c        y/c">> \o MatTxt(Mat(1, d.n1, 2))
CoSeen(o, d, m) == <<Get(o, <<"AirfoilCoord">>, Mat(1, d.n1, 2), Tol), Get(o, <<"AirfoilRefPoint">>, <<Q(1, 4), 0>>, Tol), Get(o, <<"NumCoords">>, d.n1 + 1, "exact"), DF(o, Table(<<"x/c_[-]", "y/c_[-]">>, Mat(1, d.n1, 2)), Tol)>>

Lines(d) == CASE d.f = "polar" -> PolarLines(d) [] d.f = "beam" -> BeamLines(d) [] d.f = "guyan" -> GuyLines(d) [] d.f = "ssout" -> SSLines(d) \o SSTail [] d.f = "memout" -> MOLines(d)
              [] d.f = "tower" -> TwLines(d) [] d.f = "ext" -> ExtLines(d) [] d.f = "ad14" -> ADLines(d) [] OTHER -> CoLines(d)
Polar1(d) == [Polar0(d) EXCEPT ![d.n1] = Append(@, [c \in 1..NCol(d) |-> Q(170 + c, 1)])]
Seen(o, d, m) == CASE d.f = "polar" -> PolarSeen(o, d, IF m THEN Polar1(d) ELSE Polar0(d)) [] d.f = "beam" -> BeamSeen(o, d, m) [] d.f = "guyan" -> GuySeen(o, d, m) [] d.f = "ssout" -> SSSeen(o, d, m) [] d.f = "memout" -> MOSeen(o, d, m)
              [] d.f = "tower" -> TwSeen(o, d, m) [] d.f = "ext" -> ExtSeen(o, d, m) [] d.f = "ad14" -> ADSeen(o, d, m) [] OTHER -> CoSeen(o, d, m)
Editable(d) == d.f \in {"polar", "beam", "guyan", "ext"}
\* polars: a row is added to the last table, its dimension follows when the file is written; others: one entry is changed
EditOps(d) == CASE d.f = "polar" -> <<Set("A", <<"AFCoeff" \o Suf(d, d.n1)>>, [arr |-> Polar1(d)[d.n1]])>>
                [] d.f = "beam"  -> <<Set("A", <<"BeamProperties", "K", [ix |-> <<0, 2, 4>>]>>, Q(1, 3))>>
                [] d.f = "guyan" -> <<Set("A", <<"GuyanDampMatrix", [ix |-> <<2, 4>>]>>, Q(1, 3))>>
                [] OTHER         -> <<Set("A", <<"MassMatrix", [ix |-> <<0, 0>>]>>, Q(1, 3))>>
Writable(d) == d.f # "ad14"
Init == /\ ds \in DataSets /\ n = 0 /\ mod = FALSE
        /\ hist = <<MkText("a.dat", Lines(ds)), Open("A", "FASTInputFile", "a.dat")>> \o Seen("A", ds, FALSE) \o Seen("A", ds, FALSE)
Do(ops) == hist' = hist \o ops /\ n' = n + 1 /\ UNCHANGED ds
Edit == "edit" \in OpNames /\ n < K - 1 /\ Editable(ds) /\ ~mod /\ mod' = TRUE /\ Do(EditOps(ds))
Reread == "reread" \in OpNames /\ n < K - 1 /\ mod' = FALSE /\ Do(<<Read("A", "a.dat")>> \o Seen("A", ds, FALSE))
WriteRead == /\ n < K /\ UNCHANGED mod
             /\ IF ~Writable(ds)
                THEN Do(<<MkText("keep.dat", <<"keep">>), [op |-> "write", o |-> "A", path |-> "keep.dat", err |-> "any"], [op |-> "linesof", path |-> "keep.dat", expect |-> <<[raw |-> "keep"]>>]>>)
                ELSE LET p == "b" \o Str(n) \o ".dat" IN
                     Do(<<Write("A", p)>> \o Seen("A", ds, mod) \o <<Open("B", "FASTInputFile", p)>> \o Seen("B", ds, mod) \o <<Write("B", "c.dat"), Open("C", "FASTInputFile", "c.dat")>> \o Seen("C", ds, mod)
                        \o <<[op |-> "same", a |-> p, b |-> "c.dat"]>> \o (IF ds.f = "ssout" THEN <<[op |-> "linesof", path |-> p, expect |-> SSRaw(ds)]>> ELSE <<>>))
Next == IF n = K - 1 THEN WriteRead ELSE Edit \/ Reread \/ (n < K - 1 /\ WriteRead)
Rect == ds.f = "polar" => \A t \in 1..ds.n1 : \A r \in 1..Len(Polar1(ds)[t]) : Len(Polar1(ds)[t][r]) = NCol(ds)
Emit == (n = K) => PrintT(ToJson([ops |-> hist]))
=============================================================================
