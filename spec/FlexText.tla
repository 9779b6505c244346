------------------------------ MODULE FlexText ------------------------------
(***************************************************************************)
(* FLEX text files: blades (four generations), profiles (sets of polars),  *)
(* wave kinematics and documentation.                                      *)
(***************************************************************************)
EXTENDS Base
CONSTANTS Kinds, Gens, NAs, NBs, NCs, Forms, Ops, K
VARIABLES ds, n, cur, hist
DataSets == {d \in [k : Kinds, g : Gens, na : NAs, nb : NBs, nc : NCs, f : Forms] :
               /\ (d.k = "bld" => d.nb = 1 /\ d.nc = 1) /\ (d.k # "bld" => d.g = 0)}
Tol == [rel |-> Q(1, 10000000), abs |-> QE(1, 1, -19)]
V(r, c) == OddE(r * 5 + c, Q((IF (r + c) % 3 = 0 THEN -1 ELSE 1) * (1000 * r + 125 * c), 8))
SepS(d) == IF d.f % 2 = 0 THEN "  " ELSE "\t"
Nums(d, row) == Join([c \in 1..Len(row) |-> Dec(row[c])], SepS(d))
\* ------------------------------------------------------------------ blades
All == <<"r_[m]", "EIFlap_[Nm2]", "EIEdge_[Nm2]", "GKt_[Nm2]", "Mass_[kg/m]", "Jxx_[kg.m]", "PreBendFlap_[m]", "PreBendEdge_[m]", "Str.Twist_[deg]", "PhiOut_[deg]", "Ycog_[m]", "Yshc_[m]",
         "CalcOutput_[0/1]", "Chord_[m]", "AeroTwist_[deg]", "RelThickness_[%]", "AeroCenter_[m]", "AeroTorsion_[0/1]", "ProfileSet_[#]">>
\* for each generation, the column of the table in which each column of the structural and of the aerodynamic part of the file goes
SCols(g) == IF g < 2 THEN <<1, 2, 3, 5, 9, 13, 7, 8>> ELSE IF g = 2 THEN <<1, 2, 3, 5, 9, 13, 7, 8, 4>> ELSE <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13>>
ACols(g) == IF g = 0 THEN <<14, 15, 16, 17>> ELSE IF g = 1 THEN <<14, 15, 16, 17, 18>> ELSE <<14, 15, 16, 17, 18, 19>>
BTab(d) == [r \in 1..d.na |-> [c \in 1..19 |-> IF c \in Rng(SCols(d.g)) \cup Rng(ACols(d.g)) THEN V(r, c) ELSE NaN]]
BLines(d) == <<(IF d.g = 0 THEN "Blade comment" ELSE "#00" \o Str(d.g) \o " Comment 123"), Str(d.na) \o " r[m] EI_Flp[Nm2] 12">>
   \o [r \in 1..d.na |-> Nums(d, [c \in 1..Len(SCols(d.g)) |-> V(r, SCols(d.g)[c])]) \o (IF d.f > 1 THEN "  ! section 1.0" ELSE "")]
   \o <<"-1.500" \o (IF d.f > 1 THEN "  ! BetaC 2.5" ELSE "")>>
   \o (IF d.g = 3 THEN <<"#LOGD", "0.125 0.250 ; Flapwise LOGD 1", "0.375 0.500 0.625 ; Edgewise", "0.750 ; Torsion", "#AERO", "; X[m]  C[m]">> ELSE <<"0.125 0.250 0.375 0.500 0.9 0.9 log decr. For mode 1-4">>)
   \o [r \in 1..d.na |-> Nums(d, <<V(r, 1)>> \o [c \in 1..Len(ACols(d.g)) |-> V(r, ACols(d.g)[c])]) \o (IF d.f > 1 THEN "  99 aero" ELSE "")]
   \o <<"data/My profiles.pro", "99.0">>
BSee(o, d) == <<DF(o, Table(All, BTab(d)), Tol), Get(o, <<Attr("version")>>, d.g, "exact"), Get(o, <<Attr("BetaC")>>, Q(-3, 2), "exact"),
               Get(o, <<Attr("FlapDamping")>>, <<Q(1, 8), Q(2, 8)>>, "exact"), Get(o, <<Attr("EdgeDamping")>>, IF d.g = 3 THEN <<Q(3, 8), Q(4, 8), Q(5, 8)>> ELSE <<Q(3, 8), Q(4, 8)>>, "exact"),
               Get(o, <<Attr("TorsDamping")>>, IF d.g = 3 THEN <<Q(6, 8)>> ELSE <<>>, "exact"), Get(o, <<Attr("ProfileFile")>>, "data/My profiles.pro", "exact")>>
\* ---------------------------------------------------------------- profiles: na sets of up to nb polars of up to nc angles
NT(d, s) == 1 + ((s + d.nb - 2) % d.nb)
NAl(d, s) == 1 + ((s + d.nc - 2) % d.nc)
Thick(s, i) == 10 * s + 9 * i
Pre(d) == IF d.na = 1 /\ d.f % 2 = 1 THEN "" ELSE IF d.f > 1 THEN "Profile set" ELSE "PROFILE SET"
PHead(d, s) == IF Pre(d) = "" THEN "A comment" ELSE " " \o Str(s) \o ": Comment"
PHdr(s, i) == "Profile " \o Str(i) \o ", Set " \o Str(s) \o " 18 %"
Polar(d, s, i) == [a \in 1..NAl(d, s) |-> [c \in 1..4 |-> V(10 * s + 3 * i + a, c)]]
P0(d) == [s \in 1..d.na |-> [th |-> [i \in 1..NT(d, s) |-> Thick(s, i)], pol |-> [i \in 1..NT(d, s) |-> Polar(d, s, i)]]]
PLines(d) == Flatten([s \in 1..d.na |-> <<Pre(d) \o PHead(d, s), " " \o Str(NT(d, s)) \o "  ", Join([i \in 1..NT(d, s) |-> Str(Thick(s, i)) \o ".00"], SepS(d)), Str(NAl(d, s))>>
   \o Flatten([i \in 1..NT(d, s) |-> <<PHdr(s, i)>> \o [a \in 1..NAl(d, s) |-> Nums(d, Polar(d, s, i)[a]) \o SepS(d)]])]) \o (IF d.f = 3 THEN <<"", "">> ELSE <<>>)
PTables(d, p) == Flatten([s \in 1..d.na |-> [i \in 1..NT(d, s) |-> <<"pc_set_" \o Str(s) \o "_t_" \o Str(p[s].th[i]) \o ".0", Table(<<"Alpha_[deg]", "Cl_[-]", "Cd_[-]", "Cm_[-]">>, p[s].pol[i])>>]])
PSee(o, d, p) == <<DF(o, [dfs |-> PTables(d, p)], Tol), Get(o, <<Attr("ProfileSets"), [c |-> "__len__"]>>, d.na, "exact")>>
   \o [s \in 1..d.na |-> Get(o, <<Attr("ProfileSets"), s - 1, Attr("header")>>, PHead(d, s), "exact")]
   \o [s \in 1..d.na |-> Get(o, <<Attr("ProfileSets"), s - 1, Attr("thickness")>>, p[s].th, "exact")]
   \o [s \in 1..d.na |-> Get(o, <<Attr("ProfileSets"), s - 1, Attr("polar_headers")>>, [i \in 1..NT(d, s) |-> PHdr(s, i)], "exact")]
PRaw(d, p) == Flatten([s \in 1..d.na |-> <<[raw |-> Pre(d) \o PHead(d, s)], [words |-> <<NT(d, s)>>], [words |-> p[s].th], [words |-> <<NAl(d, s)>>]>>
   \o Flatten([i \in 1..NT(d, s) |-> <<[raw |-> PHdr(s, i)]>> \o [a \in 1..NAl(d, s) |-> [words |-> p[s].pol[i][a]]]])])
\* --------------------------------------------------------- wave kinematics: na displacements, nb depths, nc rows
Depth == 20
Rel(i) == Q(i - 1, 4)
\* names use the depth in metres with one decimal; the surface is "-0.0" for velocities
ZName(i, neg) == (IF neg THEN "-" ELSE "") \o Str(((i - 1) * Depth) \div 4) \o ".0"
XName(j) == Str(10 * (j - 1)) \o ".0"
WCols(d) == <<"Time_[s]">> \o Flatten([j \in 1..d.na |-> <<IF d.na = 1 THEN "WaveElev_[m]" ELSE "WaveElev_x=" \o XName(j) \o "_[m]">>
    \o [i \in 1..d.nb |-> "u_z=" \o ZName(i, TRUE) \o "_x=" \o XName(j) \o "_[m/s]"] \o [i \in 1..d.nb |-> "a_z=" \o ZName(i, FALSE) \o "_x=" \o XName(j) \o "_[m/s^2]"]])
NW(d) == 1 + d.na * (1 + 2 * d.nb)
WTab(d) == [r \in 1..d.nc |-> [c \in 1..NW(d) |-> IF c = 1 THEN Q(r - 1, 4) ELSE V(r, c)]]
WLines(d) == <<"Wave kinematics", " 3", "CrestHeightMax               2.695 m", "LongitudinalVelocityMax      2.0640E+00 m/s", "LongitudinalAccelerationMax  -1.034 m/s",
               "  20.00     5.375    12.50     11    Water Depth/Hs/Tp/spectype", " " \o Str(d.na) \o "     Number of displacements", "   " \o Join([j \in 1..d.na |-> XName(j)], "   "),
               " " \o Str(d.nb) \o "     Number of Relative Depths", " " \o Join([i \in 1..d.nb |-> Dec(Rel(i))], "  "), " t  [eta  u_1..u_nDepths  a_1..a_nDepths](x,t) * nDisplacements">>
             \o [r \in 1..d.nc |-> "   " \o Join([c \in 1..NW(d) |-> Dec(WTab(d)[r][c])], "  ")]
WSee(o, d) == <<DF(o, Table(WCols(d), WTab(d)), Tol), Get(o, <<"MaxCrestHeight">>, Q(2695, 1000), Tol), Get(o, <<"MaxLongiVel">>, Q(2064, 1000), Tol), Get(o, <<"MaxLongiAcc">>, Q(-1034, 1000), Tol),
               Get(o, <<"WaterDepth">>, Depth, "exact"), Get(o, <<"Hs">>, Q(43, 8), "exact"), Get(o, <<"Tp">>, Q(25, 2), "exact"), Get(o, <<"SpecType">>, 11, "exact"),
               Get(o, <<"RelDepth">>, [i \in 1..d.nb |-> Rel(i)], Tol), Get(o, <<"Displacements">>, [j \in 1..d.na |-> 10 * (j - 1)], Tol)>>
\* ------------------------------------------------------------------ documentation: items na, nb, nc in this order
Cells(r0, nr, ncc) == [r \in 1..nr |-> [c \in 1..ncc |-> V(r0 + r, c)]]
Rows(t) == [r \in 1..Len(t) |-> "  " \o Join([c \in 1..Len(t[r]) |-> Dec(t[r][c])], "  ")]
Item(i) == CASE i = 1 -> [l |-> <<"#BaseName MT100">>, at |-> <<"BaseName">>, e |-> [v |-> "MT100"]]
   [] i = 2 -> [l |-> <<"#WTGName                  Unknown turbine">>, at |-> <<"WTGName">>, e |-> [v |-> "Unknown turbine"]]
   [] i = 3 -> [l |-> <<"### Rotor", "#Rotor_NumberBlades         3">>, at |-> <<"Rotor", "NumberBlades">>, e |-> [v |-> 3]]
   [] i = 4 -> [l |-> <<"#Rotor_PitchOffset   0.500  -1.250       2.000 [deg]">>, at |-> <<"Rotor", "PitchOffset">>, e |-> [v |-> <<Q(1, 2), Q(-5, 4), 2>>]]
   [] i = 5 -> [l |-> <<"#Hub_FrontDrag        1.25E+01 [m2] (S3=2)", "">>, at |-> <<"Hub", "FrontDrag">>, e |-> [v |-> Q(25, 2)]]
   [] i = 6 -> [l |-> <<"#Input_Filename           .\\MT100.inf">>, at |-> <<"Input", "Filename">>, e |-> [v |-> ".\\MT100.inf"]]
   [] i = 7 -> [l |-> <<"#EVA_MassMatrix">> \o Rows(Cells(1, 2, 2)), at |-> <<"EVA", "MassMatrix">>, e |-> [v |-> Cells(1, 2, 2)]]
   [] i = 8 -> [l |-> <<"#EVA_Eigenfrequencies">> \o Rows(Cells(3, 1, 15)) \o <<"">>, at |-> <<"EVA", "Eigenfrequencies">>, e |-> [v |-> Cells(3, 1, 15)]]
   [] i = 9 -> [l |-> <<"#Blade_IsolatedMassMatrix (Blade system)">> \o Rows(Cells(4, 3, 3)), at |-> <<"Blade", "IsolatedMassMatrix">>, e |-> [v |-> Cells(4, 3, 3)]]
   [] i = 10 -> [l |-> <<"#Tower_SectionData", "3   h[m]     D [m]    M_lump[kg]   n  rough  EI[Nm2]">> \o Rows(Cells(5, 3, 6)), at |-> <<"Tower", "SectionData">>,
                 e |-> [df |-> Table(<<"h_[m]", "D_[m]", "M_lump_[kg]", "n_[-]", "rough_[-]", "EI_[Nm2]">>, Cells(5, 3, 6))]]
   [] i = 11 -> [l |-> <<"#Blade_ShapeFunction_DOF1_Shape ", "   x         Uy         Uz       U_dir">> \o Rows(Cells(6, 2, 4)), at |-> <<"Blade", "ShapeFunction_DOF1_Shape">>,
                 e |-> [df |-> Table(<<"x", "Uy", "Uz", "U_dir">>, Cells(6, 2, 4))]]
   [] i = 12 -> [l |-> <<"#Foundation_ShapeFunction_DOF2_Shape", "   H [m]    K [rad/m]   V [rad]    U [m]">> \o Rows(Cells(7, 1, 4)), at |-> <<"Foundation", "ShapeFunction_DOF2_Shape">>,
                 e |-> [df |-> Table(<<"H_[m]", "K_[rad/m]", "V_[rad]", "U_[m]">>, Cells(7, 1, 4))]]
   [] i = 13 -> [l |-> <<"#Tower_ShapeFunctionFrequencies  7199530.49745924169.160   [Hz] (NOT clamped frequency)">>, at |-> <<"Tower", "ShapeFunctionFrequencies">>, e |-> [v |-> Whatever]]
   [] i = 14 -> [l |-> <<"#BaseName MT200">>, at |-> <<"BaseName">>, e |-> [v |-> "MT200"]]
   [] i = 15 -> [l |-> <<"#Program  Flex6">>, at |-> <<"Program">>, e |-> [v |-> "Flex6"]]
Items(d) == <<d.na, d.nb, d.nc>>
DLines(d) == <<"#Program  Flex5", "########################">> \o Flatten([j \in 1..3 |-> Item(Items(d)[j]).l])
\* 14 and 15: a single value, and a single title, given twice
Again(d) == (14 \in Rng(Items(d)) /\ 1 \in Rng(Items(d))) \/ 15 \in Rng(Items(d))
Get1(o, i) == IF "df" \in DOMAIN Item(i).e THEN <<[op |-> "getdf", o |-> o, at |-> Item(i).at, expect |-> Item(i).e.df, tol |-> Tol]>> ELSE <<Get(o, Item(i).at, Item(i).e.v, Tol)>>
Tops(d) == {Item(i).at[1] : i \in Rng(Items(d))} \cup {"Program"}
SetSeq(S0) == LET F[T \in SUBSET S0] == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o F[T \ {x}] IN F[S0]
DTables(d) == LET js == SelectSeq(SetSeq(Rng(Items(d))), LAMBDA i : "df" \in DOMAIN Item(i).e) IN [j \in 1..Len(js) |-> <<Item(js[j]).at[1] \o "_" \o Item(js[j]).at[2], Item(js[j]).e.df>>]
DSee(o, d) == <<[op |-> "keys", o |-> o, expect |-> [set |-> SetSeq(Tops(d))]], Get(o, <<"Program">>, "Flex5", "exact"), DF(o, [dfs |-> DTables(d)], Tol)>>
   \o Flatten([j \in 1..3 |-> Get1(o, Items(d)[j])])
\* ------------------------------------------------------------------ the client
Distinct(d) == d.k = "doc" => Cardinality(Rng(Items(d))) = 3
Cls(d) == CASE d.k = "bld" -> "FLEXBladeFile" [] d.k = "pro" -> "FLEXProfileFile" [] d.k = "wko" -> "FLEXWaveKinFile" [] d.k = "doc" -> "FLEXDocFile"
Path(d, s) == s \o (CASE d.k = "bld" -> ".bld" [] d.k = "pro" -> ".pro" [] d.k = "wko" -> ".wko" [] d.k = "doc" -> ".out")
Lines(d) == CASE d.k = "bld" -> BLines(d) [] d.k = "pro" -> PLines(d) [] d.k = "wko" -> WLines(d) [] d.k = "doc" -> DLines(d)
See(o, d, p) == CASE d.k = "bld" -> BSee(o, d) [] d.k = "pro" -> PSee(o, d, p) [] d.k = "wko" -> WSee(o, d) [] d.k = "doc" -> DSee(o, d)
Cur0(d) == IF d.k = "pro" THEN P0(d) ELSE <<>>
Init == /\ ds \in DataSets /\ Distinct(ds) /\ n = 0 /\ cur = Cur0(ds)
        /\ hist = IF ds.k = "doc" /\ Again(ds) THEN <<MkText(Path(ds, "a"), Lines(ds)), [op |-> "open", o |-> "A", cls |-> Cls(ds), path |-> Path(ds, "a"), err |-> "Exception"]>>
                  ELSE <<MkText(Path(ds, "a"), Lines(ds)), Open("A", Cls(ds), Path(ds, "a"))>> \o See("A", ds, Cur0(ds)) \o See("A", ds, Cur0(ds))
Do(ops) == hist' = hist \o ops /\ n' = n + 1
Edit == /\ "edit" \in Ops /\ ds.k = "pro" /\ n < K - 1 /\ UNCHANGED ds
        /\ LET s == ds.na  i == NT(ds, ds.na) IN
           /\ cur' = [cur EXCEPT ![s].pol[i][1][2] = Q(77, 8), ![s].th[i] = 97] /\ cur' # cur
           /\ Do(<<Set("A", <<Attr("ProfileSets"), s - 1, Attr("polars"), i - 1, [ix |-> <<0, 1>>]>>, Q(77, 8)), Set("A", <<Attr("ProfileSets"), s - 1, Attr("thickness"), i - 1>>, 97)>>)
Another == /\ "another" \in Ops /\ n < K - 1 /\ ds.k # "x"
           /\ \E e \in DataSets : /\ e.k = ds.k /\ e # ds /\ Distinct(e) /\ (e.k = "doc" => ~Again(e)) /\ ds' = e /\ cur' = Cur0(e)
                                 /\ Do(<<MkText(Path(e, "z" \o Str(n)), Lines(e)), Read("A", Path(e, "z" \o Str(n)))>> \o See("A", e, Cur0(e)))
WriteIt == /\ ds.k = "pro" /\ n < K /\ UNCHANGED <<ds, cur>>
           /\ LET p == Path(ds, "b" \o Str(n)) q == Path(ds, "c") IN
              Do(<<Write("A", p)>> \o See("A", ds, cur) \o <<[op |-> "linesof", path |-> p, expect |-> PRaw(ds, cur), tol |-> Tol], Open("B", Cls(ds), p)>> \o See("B", ds, cur)
                 \o <<Write("B", q), [op |-> "same", a |-> p, b |-> q]>>)
NoWrite == /\ ds.k # "pro" /\ ~(ds.k = "doc" /\ Again(ds)) /\ n = K - 1 /\ UNCHANGED <<ds, cur>> /\ Do(<<[op |-> "write", o |-> "A", path |-> "no.txt", err |-> "NotImplementedError"]>> \o See("A", ds, cur))
Refused == ds.k = "doc" /\ Again(ds) /\ n < K /\ n' = K /\ UNCHANGED <<ds, cur, hist>>
Next == Refused \/ Edit \/ Another \/ WriteIt \/ NoWrite
\* every stored column has its own place in the common table
ColumnsApart == \A g \in 0..3 : Cardinality(Rng(SCols(g)) \cup Rng(ACols(g))) = Len(SCols(g)) + Len(ACols(g))
NamesApart == ds.k = "wko" => Cardinality(Rng(WCols(ds))) = NW(ds) /\ Len(WCols(ds)) = NW(ds)
Emit == (n = K) => PrintT(ToJson([ops |-> hist]))
=============================================================================
