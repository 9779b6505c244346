-------------------------------- MODULE HStab --------------------------------
(***************************************************************************)
(* Small tables of other tools: HAWCStab2 performance (pwr), induction     *)
(* (ind, fext, defl) and Campbell (cmb) files, BModes outputs and ROSCO    *)
(* performance tables.  The specification keeps the table, says how it is  *)
(* spelled and what a client sees after reading, reading again, reading    *)
(* another file with the same object, and (ROSCO) editing and writing.     *)
(***************************************************************************)
EXTENDS Base
CONSTANTS Kinds, NRs, NMs, Forms, Gens, Ops, K
VARIABLES ds, c, n, hist
DataSets == [kind : Kinds, nr : NRs, nm : NMs, form : Forms, gen : Gens]
Cls == [pwr |-> "HAWCStab2PwrFile", ind |-> "HAWCStab2IndFile", fext |-> "HAWCStab2IndFile", defl |-> "HAWCStab2IndFile",
        cmb |-> "HAWCStab2CmbFile", bmodes |-> "BModesOutFile", rosco |-> "ROSCOPerformanceFile"]
Ext == [pwr |-> ".pwr", ind |-> ".ind", fext |-> ".ind", defl |-> ".ind", cmb |-> ".cmb", bmodes |-> ".out", rosco |-> ".txt"]
\* --- names: <<name, unit>>, as the program prints them
PwrN == <<<<"V", "m/s">>, <<"P", "kW">>, <<"T", "kN">>, <<"Cp", "-">>, <<"Ct", "-">>, <<"Pitch Q", "Nm">>, <<"Flap M", "kNm">>, <<"Edge M", "kNm">>, <<"Pitch", "deg">>, <<"Speed", "rpm">>,
          <<"Tip x", "m">>, <<"Tip y", "m">>, <<"Tip z", "m">>, <<"J_rot", "kg*m^2">>, <<"J_DT", "kg*m^2">>>>
IndN == <<<<"s", "m">>, <<"A", "-">>, <<"AP", "-">>, <<"PHI0", "rad">>, <<"ALPHA0", "rad">>, <<"U0", "m/s">>, <<"FX0", "N/m">>, <<"FY0", "N/m">>, <<"M0", "Nm/m">>, <<"UX0", "m">>, <<"UY0", "m">>, <<"UZ0", "m">>,
          <<"Twist", "rad">>, <<"X_AC0", "m">>, <<"Y_AC0", "m">>, <<"Z_AC0", "m">>, <<"CL0", "-">>, <<"CD0", "-">>, <<"CM0", "-">>, <<"CLp0", "1/rad">>, <<"CDp0", "1/rad">>, <<"CMp0", "1/rad">>, <<"F0", "-">>,
          <<"F'", "1/rad">>, <<"CL_FS0", "-">>, <<"CLFS'", "1/rad">>, <<"V_a", "m/s">>, <<"V_t", "m/s">>, <<"Tors.", "rad">>, <<"vx", "m/s">>, <<"vy", "m/s">>, <<"chord", "m">>, <<"CT", "-">>, <<"CP", "-">>,
          <<"angle", "rad">>, <<"v_1", "-">>, <<"v_2", "-">>, <<"v_3", "-">>>>
FextN == <<<<"s", "m">>, <<"Node", "-">>, <<"Fx_e", "N">>, <<"Fy_e", "N">>, <<"Fz_e", "N">>, <<"Mx_e", "Nm">>, <<"My_e", "Nm">>, <<"Mz_e", "Nm">>, <<"Fx_r", "N">>, <<"Fy_r", "N">>, <<"Fz_r", "N">>, <<"Mx_r", "Nm">>, <<"My_r", "Nm">>, <<"Mz_r", "Nm">>>>
DeflN == <<<<"s", "m">>, <<"Element no", "-">>, <<"pos_xR", "m">>, <<"pos_yR", "m">>, <<"pos_zR", "m">>, <<"Elem angle", "rad">>, <<"Elem v_1", "-">>, <<"Elem v_2", "-">>, <<"Elem v_3", "-">>,
          <<"Node 1 angle", "rad">>, <<"Node 1 v_1", "-">>, <<"Node 1 v_2", "-">>, <<"Node 1 v_3", "-">>, <<"Node 2 angle", "rad">>, <<"Node 2 v_1", "-">>, <<"Node 2 v_2", "-">>, <<"Node 2 v_3", "-">>, <<"Elongation", "m">>>>
Raw(d) == CASE d.kind = "pwr" -> PwrN [] d.kind = "ind" -> IndN [] d.kind = "fext" -> FextN [] d.kind = "defl" -> DeflN
\* blanks inside a name are written as underscores in the table
Under(s) == CASE s = "Pitch Q" -> "Pitch_Q" [] s = "Flap M" -> "Flap_M" [] s = "Edge M" -> "Edge_M" [] s = "Tip x" -> "Tip_x" [] s = "Tip y" -> "Tip_y" [] s = "Tip z" -> "Tip_z"
            [] s = "Element no" -> "Element_no" [] s = "Elem angle" -> "Elem_angle" [] s = "Elem v_1" -> "Elem_v_1" [] s = "Elem v_2" -> "Elem_v_2" [] s = "Elem v_3" -> "Elem_v_3"
            [] s = "Node 1 angle" -> "Node_1_angle" [] s = "Node 1 v_1" -> "Node_1_v_1" [] s = "Node 1 v_2" -> "Node_1_v_2" [] s = "Node 1 v_3" -> "Node_1_v_3"
            [] s = "Node 2 angle" -> "Node_2_angle" [] s = "Node 2 v_1" -> "Node_2_v_1" [] s = "Node 2 v_2" -> "Node_2_v_2" [] s = "Node 2 v_3" -> "Node_2_v_3" [] OTHER -> s
Iter(s, k) == [i \in 1..k |-> s \o Str(i)]
Parts(d) == 1 + (d.gen % 3)          \* Campbell: frequencies, damping ratios, residuals
Cols(d) == CASE d.kind = "cmb" -> <<"Wind_[m/s]">> \o Iter("F", d.nm) \o (IF Parts(d) > 1 THEN Iter("D", d.nm) ELSE <<>>) \o (IF Parts(d) > 2 THEN Iter("R", d.nm) ELSE <<>>)
           [] d.kind \in {"pwr", "ind", "fext", "defl"} -> [i \in 1..Len(Raw(d)) |-> Under(Raw(d)[i][1]) \o "_[" \o Raw(d)[i][2] \o "]"]
           [] d.kind = "bmodes" -> <<"span_loc", "s-s disp", "s-s slope", "f-a disp", "f-a slope", "twist">>
\* --- contents: a sequence of tables of rationals
Cell(d, m, r, q) == IF q = 1 THEN Q(r * 8 + d.gen, 8) ELSE IF (r + q + m + d.gen) % 9 = 4 THEN Q(0, 1) ELSE OddE(m * 3 + r * 2 + q, Q(((m * 37 + r * 13 + q * 5 + d.gen * 3) % 127) - 63, 64))
Tab(d, m, nr, nc) == [r \in 1..nr |-> [q \in 1..nc |-> Cell(d, m, r, q)]]
Freq(d, m) == Q(m * 48 + d.gen * 5, 64)
\* pitch angles and tip speed ratios of a ROSCO table
Pitch(d) == [i \in 1..d.nm |-> Q(i * 5 - 11 + 8 * d.gen, 4)]
Tsr(d) == [i \in 1..d.nr |-> Q(6 + i * 3 + 2 * d.gen, 4)]
WS(d) == [i \in 1..(1 + d.gen) |-> Q(45 + 3 * i, 4)]
Surf(d, m) == [r \in 1..d.nr |-> [q \in 1..d.nm |-> Q(((m * 41 + r * 17 + q * 7 + d.gen) % 131) - 40, 64)]]
Contents(d) == CASE d.kind = "bmodes" -> [m \in 1..d.nm |-> Tab(d, m, 1 + ((d.nr + m) % 3), 6)]
               [] d.kind = "rosco" -> [m \in 1..3 |-> Surf(d, m)]
               [] OTHER -> <<Tab(d, 1, d.nr, Len(Cols(d)))>>
\* --- spelling
RECURSIVE Left(_, _)
Left(s, k) == IF k <= 0 THEN s ELSE " " \o Left(s, k - 1)
Dig6(k) == CASE k < 10 -> "00000" \o Str(k) [] k < 100 -> "0000" \o Str(k) [] k < 1000 -> "000" \o Str(k) [] k < 10000 -> "00" \o Str(k) [] k < 100000 -> "0" \o Str(k) [] OTHER -> Str(k)
Neg(q) == IF q.n < 0 THEN "-" ELSE ""
Dec6(q) == LET a == QAbs(q) IN Neg(q) \o Str(a.n \div a.d) \o "." \o Dig6(((a.n % a.d) * 1000000) \div a.d)
Dec2(q) == LET a == QAbs(q)  f == ((a.n % a.d) * 100) \div a.d IN Neg(q) \o Str(a.n \div a.d) \o "." \o (IF f < 10 THEN "0" ELSE "") \o Str(f)
Num(d, q) == IF "e" \in DOMAIN q \/ q.d >= 10000 THEN Dec(q) ELSE CASE d.form = 0 -> Dec6(q) \o "E+00" [] d.form = 1 -> Dec6(q) [] OTHER -> (IF q.n < 0 THEN "" ELSE " ") \o Dec6(q) \o "e0"
Gap(d) == CASE d.form = 0 -> "    " [] d.form = 1 -> " " [] OTHER -> "\t"
RowTxt(d, row) == (IF d.form = 0 THEN "  " ELSE "") \o Join([q \in 1..Len(row) |-> Num(d, row[q])], Gap(d)) \o (IF d.form = 2 THEN "  " ELSE "")
RowsTxt(d, t) == [r \in 1..Len(t) |-> RowTxt(d, t[r])]
\* headers: names right justified (form 0, so that a long name touches the number before it), or spaced by single or double blanks
Width(d) == IF d.kind = "ind" THEN 12 ELSE 20
Title(d, i) == LET x == Raw(d)[i] IN x[1] \o (IF d.kind = "ind" /\ d.form = 0 /\ x[2] = "1/rad" THEN "[" ELSE " [") \o x[2] \o "]"
\* (TLA+ strings cannot be measured: the length of each title is known from the length of its name and unit)
Glued(d, i) == d.kind = "ind" /\ d.form = 0 /\ Raw(d)[i][1] \in {"ALPHA0", "CLFS'"}
Header(d) == (IF d.form = 0 THEN " #  " ELSE "# ") \o Join([i \in 1..Len(Raw(d)) |-> (IF Glued(d, i) THEN "" ELSE IF i = 1 THEN "   " ELSE CASE d.form = 0 -> "       " [] d.form = 1 -> " " [] OTHER -> "  ")
                                                            \o Title(d, i) \o (IF d.form = 0 /\ i >= 20 THEN "" ELSE " ") \o Str(i)], "")
Text(d, x) ==
  CASE d.kind \in {"pwr", "ind", "fext", "defl"} -> <<Header(d)>> \o RowsTxt(d, x[1])
  [] d.kind = "cmb" -> <<CASE d.form = 0 -> "#   Mode number, number of modes:   " \o Str(d.nm) [] d.form = 1 -> "# " \o Str(d.nm) [] OTHER -> " # Campbell modes  " \o Str(d.nm) \o "  ">> \o RowsTxt(d, x[1])
  [] d.kind = "bmodes" -> <<(IF d.form = 1 THEN "BModes v3" ELSE "Results generated by BModes (v1.03.01, 25-Sept-2007)"), "Some tower", "=================================================", "", "            tower frequencies & mode shapes", "">>
        \o Flatten([m \in 1..Len(x) |-> <<" -------- Mode No.   " \o Str(m) \o "  (freq = " \o Dec6(Freq(d, m)) \o (IF d.form = 0 THEN "E+00 Hz)" ELSE "E+00) Hz"), "", "span_loc\ts-s disp\ts-s slope\tf-a disp\tf-a slope\ttwist", "">> \o RowsTxt(d, x[m])
               \o (IF m = Len(x) /\ d.form = 2 THEN <<>> ELSE IF d.form = 1 /\ m = Len(x) THEN <<"=============================================">> ELSE IF d.form = 1 THEN <<"  ">> ELSE <<"", "">>)])
  [] d.kind = "rosco" -> <<"# ----- Rotor performance tables for the NREL-5MW wind turbine ----- ", "# ------------ Written on Oct-30-19 using the ROSCO toolbox ------------ ", "",
          "# Pitch angle vector" \o (IF d.form = 1 THEN ", 4 entries" ELSE "") \o " - x axis (matrix columns) (deg)", RowTxt(d, Pitch(d)),
          "# TSR vector - y axis (matrix rows) (-)", RowTxt(d, Tsr(d))>>
        \o (IF d.form = 2 THEN <<>> ELSE <<"# Wind speed vector - z axis (m/s)", RowTxt(d, WS(d))>>)
        \o <<"", "# Power coefficient", "">> \o RowsTxt(d, x[1]) \o <<"", "", "#  Thrust coefficient", "">> \o RowsTxt(d, x[2]) \o <<"", "", "# Torque coefficient", "">> \o RowsTxt(d, x[3]) \o <<"">>
\* the wind speed is part of the file name, if it is there at all
Wsp(d) == IF d.gen = 2 THEN NaN ELSE Q(3 + 2 * d.gen, 2)
Names == [pwr |-> "my_rotor", ind |-> "my_rotor_u", fext |-> "my_rotor_fext_u", defl |-> "x_defl_u", cmb |-> "my_rotor", bmodes |-> "tower", rosco |-> "CpCtCq"]
Path(d, s) == s \o "/" \o Names[d.kind] \o (IF d.kind \in {"ind", "fext", "defl"} THEN (IF d.gen = 2 THEN "n" ELSE Str(1500 + 1000 * d.gen)) ELSE "") \o Ext[d.kind]
File(d, x, p) == [op |-> "mktext", path |-> p, lines |-> Text(d, x), nl |-> IF d.form = 2 THEN "\r\n" ELSE "\n", endnl |-> d.form # 2]
\* --- what a client sees
Tables(d, x) == CASE d.kind = "bmodes" -> [dfs |-> [m \in 1..Len(x) |-> <<"Mode_" \o Str(m), Table(Cols(d), x[m])>>]]
                [] d.kind = "rosco" -> LET cs == <<"TSR_[-]">> \o [i \in 1..d.nm |-> "Pitch_" \o Dec2(Pitch(d)[i]) \o "_[deg]"]
                                           t(m) == Table(cs, [r \in 1..d.nr |-> <<Tsr(d)[r]>> \o x[m][r]]) IN
                                       [dfs |-> <<<<"CP", t(1)>>, <<"CT", t(2)>>, <<"CQ", t(3)>>>>]
                [] OTHER -> Table(Cols(d), x[1])
More(d, x, o) ==
  CASE d.kind \in {"ind", "fext", "defl"} -> <<Get(o, <<Attr("wsp")>>, Wsp(d), "f8"), Get(o, <<Attr("type")>>, d.kind, "f8")>>
  [] d.kind = "bmodes" -> <<Get(o, <<"frequencies">>, [m \in 1..Len(x) |-> Freq(d, m)], "f8"), [op |-> "count", o |-> o, at |-> <<"mode_shapes">>, expect |-> Len(x)]>>
                          \o [m \in 1..Len(x) |-> Get(o, <<"mode_shapes", m - 1>>, x[m], "f8")] \o <<[op |-> "repr", o |-> o]>>
  [] d.kind = "rosco" -> <<Get(o, <<"pitch">>, Pitch(d), "f8"), Get(o, <<"TSR">>, Tsr(d), "f8"), Get(o, <<"WS">>, IF d.form = 2 THEN None ELSE WS(d), "f8"),
                           Get(o, <<"CP">>, x[1], "f8"), Get(o, <<"CT">>, x[2], "f8"), Get(o, <<"CQ">>, x[3], "f8"), [op |-> "repr", o |-> o]>>
  [] OTHER -> <<>>
See(d, x, o) == <<DF(o, Tables(d, x), "f8")>> \o More(d, x, o) \o <<DF(o, Tables(d, x), "f8")>>
CanOpen(d) == d.kind \in {"pwr", "ind", "fext", "defl", "cmb"}      \* recognised by extension and content
OpenIt(d, o, p) == IF CanOpen(d) /\ d.form = 1 THEN WRead(o, Cls[d.kind], p) ELSE Open(o, Cls[d.kind], p)
Init == /\ ds \in {d \in DataSets : (d.kind \in {"pwr", "ind", "fext", "defl"} => d.nm = MinOf(NMs)) /\ (d.kind \in {"cmb", "rosco"} => d.nm > 0)}
        /\ c = Contents(ds) /\ n = 0
        /\ hist = <<File(ds, c, Path(ds, "a")), OpenIt(ds, "A", Path(ds, "a"))>> \o See(ds, c, "A")
Another == /\ "another" \in Ops /\ n < K /\ n' = n + 1
           /\ \E e \in {y \in DataSets : y.kind = ds.kind /\ y # ds /\ y.nm > 0 /\ (y.kind \in {"pwr", "ind", "fext", "defl"} => y.nm = ds.nm)} :
              /\ ds' = e /\ c' = Contents(e)
              /\ hist' = hist \o <<File(e, c', Path(e, "b" \o Str(n))), Read("A", Path(e, "b" \o Str(n)))>> \o See(e, c', "A")
Edit == /\ "edit" \in Ops /\ n < K /\ n' = n + 1 /\ UNCHANGED ds /\ ds.kind = "rosco"
        /\ \E m \in 1..3 : LET v == Q(13 + n, 64) IN
           /\ c' = [c EXCEPT ![m][ds.nr][1] = v]
           /\ hist' = hist \o <<Set("A", <<(<<"CP", "CT", "CQ">>)[m], [ix |-> <<ds.nr - 1, 0>>]>>, v)>> \o See(ds, c', "A")
WriteIt == /\ "write" \in Ops /\ n < K /\ n' = n + 1 /\ UNCHANGED <<ds, c>> /\ ds.kind = "rosco"
           /\ LET w == "w" \o Str(n) \o ".txt" IN hist' = hist \o <<Write("A", w)>> \o See(ds, c, "A") \o <<Open("B", Cls[ds.kind], w)>> \o See(ds, c, "B")
Next == Another \/ Edit \/ WriteIt
\* --- files that are not of the format, or are damaged
BadKinds == {"pwr", "ind", "bmodes", "rosco"}
Drop(s, k) == [i \in 1..(Len(s) - 1) |-> IF i < k THEN s[i] ELSE s[i + 1]]
Bad(d, x, how) == LET t == Text(d, x) IN
  CASE how = "first" -> <<<<"Something else">> \o Tail(t), "WrongFormatError">>
  [] how = "short" -> <<(IF d.kind = "rosco" THEN <<"a b", "1 2">> ELSE IF d.kind = "bmodes" THEN <<"some text">> ELSE <<"# a [m] 1 b [-] 2", "1 2">>), "WrongFormatError">>
  [] how = "ragged" -> <<[t EXCEPT ![Len(t)] = @ \o Gap(d) \o Num(d, Q(1, 2))], "BrokenFormatError">>
  [] how = "cols" -> <<<<t[1]>> \o [r \in 1..Len(x[1]) |-> RowTxt(d, Tail(x[1][r]))], "BrokenFormatError">>
BadInit == /\ ds \in {d \in DataSets : d.kind \in BadKinds /\ d.nm > 0} /\ c = Contents(ds) /\ n = 0
           /\ \E how \in {"first", "short", "ragged", "cols"} :
              /\ (how \in {"ragged", "cols"} => ds.kind \in {"pwr", "ind"}) /\ (how = "ragged" => ds.nr > 1) /\ (how = "first" => ds.kind # "rosco")
              /\ LET b == Bad(ds, c, how)  p == Path(ds, "bad")  g == Path(ds, "good") IN
                 hist = <<[op |-> "mktext", path |-> p, lines |-> b[1], nl |-> "\n", endnl |-> TRUE], OpenErr("A", Cls[ds.kind], p, b[2]),
                          File(ds, c, g), Open("B", Cls[ds.kind], g)>> \o See(ds, c, "B")
\* every name is used once, and a mode or surface has as many values as names
Consistent == (ds.kind \notin {"rosco"} => Cardinality(Rng(Cols(ds))) = Len(Cols(ds)))
Emit == n = K => PrintT(ToJson([ops |-> hist]))
=============================================================================
