------------------------------ MODULE Hawc2Tab ------------------------------
(***************************************************************************)
(* HAWC2 tables: structural (st), profile coefficients (pc) and planform   *)
(* (ae) files.  Each is a numbered collection of sets; the specification   *)
(* keeps the sets, produces the text in the forms users write it, and says *)
(* what is seen after reading, adding sets, changing values, writing and   *)
(* reading another file with the same object.                              *)
(***************************************************************************)
EXTENDS Base
CONSTANTS Kinds, Gens, NAs, NBs, NRs, Forms, Ops, K
VARIABLES ds, c, n, hist
\* c : the contents, a sequence of sets;  pc and st sets are sequences of subsets
DataSets == [kind : Kinds, gen : Gens, na : NAs, nb : NBs, nr : NRs, form : Forms]
Cls == [st |-> "HAWC2StFile", pc |-> "HAWC2PCFile", ae |-> "HAWC2AEFile"]
NCol(d) == IF d.kind = "st" THEN (IF d.gen = 0 THEN 19 ELSE 30) ELSE 4
\* rows may differ in number from one subset to the next
Rows(d, i, j) == 1 + ((d.nr + i + 2 * j) % 4) + (IF d.kind = "st" THEN 0 ELSE 1)
\* first column increasing; the others anything
Cell(d, i, j, r, q) == IF q = 1 THEN (IF d.kind = "ae" THEN Q(r * 5 + i - 6, 2) ELSE Q(r * 5 + i - 12, 2))
                       ELSE IF d.kind = "ae" /\ q = 4 THEN Q(1 + ((i + r) % 3), 1)
                       ELSE IF (r + q + d.gen) % 7 = 3 THEN Q(0, 1) ELSE IF q > 4 \/ r > 2 THEN OddE(11 * r + 4 * q + 5 * j + i, Q((i * 31 + j * 17 + r * 7 + q * 3) % 101, 8)) ELSE Q(((i * 31 + j * 17 + r * 7 + q * 3 + d.gen) % 101) - 50, 8)
Sub(d, i, j) == [r \in 1..Rows(d, i, j) |-> [q \in 1..NCol(d) |-> Cell(d, i, j, r, q)]]
\* set number: consecutive, except in the forms that number the sets freely (st and ae store the number)
Nr(d, i) == IF d.form = 2 /\ d.kind # "pc" THEN 2 * i + 1 ELSE i
SNr(d, j) == IF d.form = 2 THEN d.nb + 1 - j ELSE j
ThickTxt(q) == LET f == ((q.n * 8) \div q.d) % 8 IN Str(q.n \div q.d) \o "." \o <<"0", "125", "25", "375", "5", "625", "75", "875">>[f + 1]
ThickOrd(d, i, j) == Q(j * 48 + 3 * i + 1, 8)
Contents(d) == CASE d.kind = "st" -> [i \in 1..d.na |-> [nr |-> Nr(d, i), subs |-> [j \in 1..d.nb |-> [nr |-> SNr(d, j), th |-> Q(0, 1), tab |-> Sub(d, i, j)]]]]
               [] d.kind = "pc" -> [i \in 1..d.na |-> [nr |-> i, subs |-> [j \in 1..d.nb |-> [nr |-> j, th |-> ThickOrd(d, i, j), tab |-> Sub(d, i, j)]]]]
               [] d.kind = "ae" -> [i \in 1..d.na |-> [nr |-> Nr(d, i), subs |-> <<[nr |-> 1, th |-> Q(0, 1), tab |-> Sub(d, i, 1)]>>]]
\* --- text of a file
NumTxt(d, q, p) == IF q.n = 0 THEN (IF p % 2 = 0 THEN "0" ELSE "0.0") ELSE IF d.kind = "ae" /\ p = 4 THEN Str(q.n \div q.d) ELSE IF "e" \in DOMAIN q THEN Dec(q) ELSE IF d.form = 3 THEN Dec(q) \o "E+00" ELSE IF d.form = 1 THEN Dec(q) \o "e0" ELSE Dec(q)
Sep(d) == IF d.form = 1 THEN "\t\t" ELSE IF d.form = 3 THEN "  " ELSE " "
RowTxt(d, row, r) == (IF d.form = 3 THEN "   " ELSE "") \o Join([p \in 1..Len(row) |-> NumTxt(d, row[p], p)], Sep(d))
                     \o (IF d.form \in {1, 2} /\ r % 2 = 1 THEN (IF d.kind = "st" THEN " ; root, 3 layers" ELSE "  root part 2") ELSE "")
RowsTxt(d, tab) == [r \in 1..Len(tab) |-> RowTxt(d, tab[r], r)]
StTxt(d, x) == (IF d.form = 1 THEN <<>> ELSE <<Str(Len(x)) \o " number of sets, Nset", "Some turbine, 5MW", "-----------------">>)
   \o Flatten([i \in 1..Len(x) |-> <<"#" \o Str(x[i].nr) \o (IF d.form = 3 THEN " Tower" ELSE "")>>
        \o Flatten([j \in 1..Len(x[i].subs) |-> (IF d.form = 3 THEN <<"r   m   x_cg  and so on", "==========", "">> ELSE <<>>)
              \o <<"$" \o Str(x[i].subs[j].nr) \o " " \o Str(Len(x[i].subs[j].tab)) \o (IF d.form = 2 THEN " flexible 2" ELSE "")>> \o RowsTxt(d, x[i].subs[j].tab)])])
PcTxt(d, x) == <<Str(Len(x)) \o (IF d.form = 2 THEN " 2 sets in this file" ELSE "")>>
   \o Flatten([i \in 1..Len(x) |-> <<Str(Len(x[i].subs)) \o (IF d.form = 3 THEN "  profiles" ELSE "")>>
        \o Flatten([j \in 1..Len(x[i].subs) |-> <<Str(j) \o " " \o Str(Len(x[i].subs[j].tab)) \o " " \o Dec(x[i].subs[j].th) \o (IF d.form = 1 THEN "  NACA 64 618" ELSE "")>> \o RowsTxt(d, x[i].subs[j].tab)])])
AeTxt(d, x) == <<Str(Len(x)) \o (IF d.form = 2 THEN "  r[m]  Chord[m]  T/C[%]  Set no." ELSE "")>>
   \o Flatten([i \in 1..Len(x) |-> <<Str(x[i].nr) \o " " \o Str(Len(x[i].subs[1].tab)) \o (IF d.form = 1 THEN " blade, 2 rows more" ELSE "")>> \o RowsTxt(d, x[i].subs[1].tab)])
Text(d, x) == CASE d.kind = "st" -> StTxt(d, x) [] d.kind = "pc" -> PcTxt(d, x) [] d.kind = "ae" -> AeTxt(d, x)
File(d, x, path) == [op |-> "mktext", path |-> path, lines |-> Text(d, x), nl |-> IF d.form = 1 THEN "\r\n" ELSE "\n", endnl |-> d.form # 2]
\* --- the tables a client sees
StReg == <<"r_[m]", "m_[kg/m]", "x_cg_[m]", "y_cg_[m]", "ri_x_[m]", "ri_y_[m]", "x_sh_[m]", "y_sh_[m]", "E_[N/m^2]", "G_[N/m^2]", "I_x_[m^4]", "I_y_[m^4]", "I_p_[m^4]", "k_x_[-]", "k_y_[-]", "A_[m^2]", "pitch_[deg]", "x_e_[m]", "y_e_[m]">>
StFpm == <<"r_[m]", "m_[kg/m]", "x_cg_[m]", "y_cg_[m]", "ri_x_[m]", "ri_y_[m]", "pitch_[deg]", "x_e_[m]", "y_e_[m]", "K11", "K12", "K13", "K14", "K15", "K16", "K22", "K23", "K24", "K25", "K26", "K33", "K34", "K35", "K36", "K44", "K45", "K46", "K55", "K56", "K66">>
PcCols == <<"Alpha_[deg]", "Cl_[-]", "Cd_[-]", "Cm_[-]">>
AeCols == <<"radius_[m]", "chord_[m]", "thickness_[%]", "pc_set_[#]">>
ColsOf(d) == CASE d.kind = "st" -> (IF d.gen = 0 THEN StReg ELSE StFpm) [] d.kind = "pc" -> PcCols [] d.kind = "ae" -> AeCols
Named(d, s, b) == CASE d.kind = "st" -> Str(s.nr) \o "_" \o Str(b.nr) [] d.kind = "pc" -> "pc_set_" \o Str(s.nr) \o "_t_" \o ThickTxt(b.th) [] d.kind = "ae" -> "ae_set_" \o Str(s.nr)
Tabs(d, x) == Flatten([i \in 1..Len(x) |-> [j \in 1..Len(x[i].subs) |-> <<Named(d, x[i], x[i].subs[j]), Table(ColsOf(d), x[i].subs[j].tab)>>]])
Tol(d) == CASE d.kind = "st" -> RelTol(Q(1, 10000000)) [] OTHER -> "f8"
SeeDF(d, x, o, tol) == IF d.kind = "ae" /\ Len(x) = 1 THEN DF(o, Table(AeCols, x[1].subs[1].tab), tol) ELSE DF(o, [dfs |-> Tabs(d, x)], tol)
\* linear interpolation between the rows, at the middle of two rows and beyond the ends
Mid(a, b) == QMul(QAdd(a, b), Q(1, 2))
Interp(tab, r, q) == IF Len(tab) > r THEN <<Mid(tab[r][1], tab[r + 1][1]), Mid(tab[r][q], tab[r + 1][q])>> ELSE <<tab[Len(tab)][1], tab[Len(tab)][q]>>
Call(o, at, args, e, tol) == [op |-> "call", o |-> o, at |-> <<at[1]>>, m |-> at[2].a, args |-> args, expect |-> e, tol |-> tol]
Acc(o, m, args, e, tol) == [op |-> "call", o |-> o, at |-> <<Attr("data")>>, m |-> m, args |-> args, expect |-> e, tol |-> tol]
ColOf(tab, q) == [r \in 1..Len(tab) |-> tab[r][q]]
\* a place near row r, nearer than to any other row
Near(tab, r) == QAdd(tab[r][1], Q(IF r = 1 THEN 1 ELSE -1, 2))
\* the planform at its stations, between them (profile set of the station before) and beyond its ends
SeeAe(s, o, tol) == LET t == s.subs[1].tab  last == Len(t) IN
   <<Acc(o, "chord", <<None, s.nr>>, ColOf(t, 2), tol), Acc(o, "thickness", <<None, s.nr>>, ColOf(t, 3), tol), Acc(o, "radius_ae", <<None, s.nr>>, ColOf(t, 1), tol),
     Acc(o, "chord", <<QAdd(t[last][1], Q(3, 1)), s.nr>>, t[last][2], tol), Acc(o, "thickness", <<QSub(t[1][1], Q(3, 1)), s.nr>>, t[1][3], tol), Acc(o, "pc_set_nr", <<QAdd(t[last][1], Q(3, 1)), s.nr>>, t[last][4], tol)>>
   \o [r \in 1..last |-> Acc(o, "pc_set_nr", <<t[r][1], s.nr>>, t[r][4], tol)] \o [r \in 1..last |-> Acc(o, "radius_ae", <<Near(t, r), s.nr>>, t[r][1], tol)]
   \o [r \in 1..(last - 1) |-> Acc(o, "pc_set_nr", <<Mid(t[r][1], t[r + 1][1]), s.nr>>, t[r][4], tol)]
   \* also close to the next station
   \o [r \in 1..(last - 1) |-> Acc(o, "pc_set_nr", <<QSub(t[r + 1][1], QMul(Q(1, 16), QSub(t[r + 1][1], t[r][1]))), s.nr>>, t[r][4], tol)]
\* coefficients between two profiles, and beyond the ends of the angles
SeePc(s, o, tol) == IF Len(s.subs) < 2 THEN <<>> ELSE
   Flatten([j \in 1..(Len(s.subs) - 1) |-> LET a == s.subs[j]  b == s.subs[j + 1]  th == Mid(a.th, b.th) IN
     <<Acc(o, "CL", <<th, a.tab[2][1], s.nr>>, Mid(a.tab[2][2], b.tab[2][2]), tol), Acc(o, "CD", <<th, a.tab[1][1], s.nr>>, Mid(a.tab[1][3], b.tab[1][3]), tol), Acc(o, "CM", <<th, a.tab[2][1], s.nr>>, Mid(a.tab[2][4], b.tab[2][4]), tol),
       Acc(o, "CL", <<b.th, b.tab[1][1], s.nr>>, b.tab[1][2], tol), Acc(o, "CM", <<a.th, QSub(a.tab[1][1], Q(7, 1)), s.nr>>, a.tab[1][4], tol)>>])
StNames(d) == IF d.gen = 0 THEN <<"r", "m", "x_cg", "y_cg", "ri_x", "ri_y", "x_sh", "y_sh", "E", "G", "I_x", "I_y", "I_p", "k_x", "k_y", "A", "pitch", "x_e", "y_e">>
              ELSE <<"r", "m", "x_cg", "y_cg", "ri_x", "ri_y", "pitch", "x_e", "y_e", "K_11", "K_12", "K_13", "K_14", "K_15", "K_16", "K_22", "K_23", "K_24", "K_25", "K_26", "K_33", "K_34", "K_35", "K_36", "K_44", "K_45", "K_46", "K_55", "K_56", "K_66">>
SeeSt(d, s, b, o, tol) == [p \in 1..NCol(d) |-> Acc(o, StNames(d)[p], <<None, s.nr, b.nr>>, ColOf(b.tab, p), tol)]
   \o <<Acc(o, "radius_st", <<None, s.nr, b.nr>>, ColOf(b.tab, 1), tol)>> \o [r \in 1..Len(b.tab) |-> Acc(o, "radius_st", <<Near(b.tab, r), s.nr, b.nr>>, b.tab[r][1], tol)]
   \o <<Acc(o, "x_cg", <<QAdd(b.tab[Len(b.tab)][1], Q(3, 1)), s.nr, b.nr>>, b.tab[Len(b.tab)][3], tol)>>
SeeMore(d, x, o, tol) ==
  CASE d.kind = "ae" -> <<Get(o, <<Attr("sets")>>, [i \in 1..Len(x) |-> x[i].subs[1].tab], tol)>> \o Flatten([i \in 1..Len(x) |-> SeeAe(x[i], o, tol)])
          \o [i \in 1..Len(x) |-> LET v == Interp(x[i].subs[1].tab, 1, 2) IN Call(o, <<Attr("data"), Attr("chord")>>, <<v[1], x[i].nr>>, v[2], tol)]
          \o [i \in 1..Len(x) |-> LET v == Interp(x[i].subs[1].tab, 1, 3) IN Call(o, <<Attr("data"), Attr("thickness")>>, <<v[1], x[i].nr>>, v[2], tol)]
  [] d.kind = "pc" -> Flatten([i \in 1..Len(x) |-> <<Get(o, <<Attr("sets"), x[i].nr, 0>>, [j \in 1..Len(x[i].subs) |-> x[i].subs[j].th], tol)>> \o SeePc(x[i], o, tol)
          \o (IF Len(x[i].subs) < 2 THEN <<>> ELSE
              LET t1 == x[i].subs[1].tab  v == Interp(t1, 1, 2)  w == Interp(t1, 1, 3) IN
              <<Call(o, <<Attr("data"), Attr("CL")>>, <<x[i].subs[1].th, v[1], x[i].nr>>, v[2], tol),
                Call(o, <<Attr("data"), Attr("CD")>>, <<x[i].subs[1].th, w[1], x[i].nr>>, w[2], tol)>>)])
  [] d.kind = "st" -> Flatten([i \in 1..Len(x) |-> [j \in 1..Len(x[i].subs) |->
            LET v == Interp(x[i].subs[j].tab, 1, 2) IN Call(o, <<Attr("data"), Attr("m")>>, <<v[1], x[i].nr, x[i].subs[j].nr>>, v[2], tol)] \o Flatten([j \in 1..Len(x[i].subs) |-> SeeSt(d, x[i], x[i].subs[j], o, tol)])])
See(d, x, o, tol) == <<SeeDF(d, x, o, tol)>> \o SeeMore(d, x, o, tol) \o <<SeeDF(d, x, o, tol)>>
Init == /\ ds \in {d \in DataSets : (d.kind = "ae" => d.nb = MinOf(NBs)) /\ (d.kind \in {"ae", "pc"} => d.gen = MinOf(Gens))}
        /\ c = Contents(ds) /\ n = 0
        /\ hist = <<File(ds, c, "a.x"), Open("A", Cls[ds.kind], "a.x")>> \o See(ds, c, "A", "f8")
\* pc sets are renumbered in the order they are written
Renum(d, x) == IF d.kind = "pc" THEN [i \in 1..Len(x) |-> [x[i] EXCEPT !.nr = i]] ELSE x
WriteIt == /\ "write" \in Ops /\ n < K /\ n' = n + 1 /\ UNCHANGED <<ds, c>>
           /\ LET w == "w" \o Str(n) \o ".x" IN
              hist' = hist \o <<Write("A", w)>> \o See(ds, c, "A", Tol(ds)) \o <<Open("B", Cls[ds.kind], w)>> \o See(ds, Renum(ds, c), "B", Tol(ds))
                       \o <<Write("B", "v" \o w), [op |-> "same", a |-> w, b |-> "v" \o w]>>
Path(d, i, j) == CASE d.kind = "st" -> <<Attr("data"), Attr("main_data_sets"), c[i].nr, c[i].subs[j].nr>>
                 [] d.kind = "pc" -> <<Attr("data"), Attr("pc_sets"), c[i].nr, 1, j - 1>>
                 [] d.kind = "ae" -> <<Attr("data"), Attr("ae_sets"), c[i].nr>>
Edit == /\ "edit" \in Ops /\ n < K /\ n' = n + 1 /\ UNCHANGED ds
        /\ \E i \in {1, Len(c)} : \E j \in {1, Len(c[i].subs)} : \E q \in {2, NCol(ds) - 1} :
           LET r == Len(c[i].subs[j].tab)  v == Q(777 + 2 * n, 16) IN
           /\ c' = [c EXCEPT ![i].subs[j].tab[r][q] = v]
           /\ hist' = hist \o <<Set("A", Path(ds, i, j) \o <<[ix |-> <<r - 1, q - 1>>]>>, v)>> \o See(ds, c', "A", Tol(ds))
Col(tab, q) == [r \in 1..Len(tab) |-> tab[r][q]]
MaxNr == MaxOf({0} \cup {c[i].nr : i \in 1..Len(c)})
FreeNr == MinOf({m \in 1..(MaxNr + 1) : \A i \in 1..Len(c) : c[i].nr # m})
AddSet == /\ "add" \in Ops /\ n < K /\ n' = n + 1 /\ UNCHANGED ds /\ ds.kind \in {"pc", "ae"}
          /\ LET d2 == [ds EXCEPT !.nr = @ + 1]  i == Len(c) + 5  t == Sub(d2, i, 1)  t2 == Sub(d2, i, 2) IN
             IF ds.kind = "ae"
             THEN /\ c' = Append(c, [nr |-> FreeNr, subs |-> <<[nr |-> 1, th |-> Q(0, 1), tab |-> t]>>])
                  /\ hist' = hist \o <<[op |-> "call", o |-> "A", at |-> <<>>, m |-> "add_set", args |-> <<>>,
                         kw |-> <<<<"radius", Col(t, 1)>>, <<"chord", Col(t, 2)>>, <<"thickness", Col(t, 3)>>, <<"pc_set_id", Col(t, 4)>>>>]>> \o See(ds, c', "A", Tol(ds))
             ELSE LET nr == MaxNr + 1 IN
                  /\ c' = Append(c, [nr |-> nr, subs |-> <<[nr |-> 1, th |-> Q(18, 1), tab |-> t], [nr |-> 2, th |-> Q(97, 4), tab |-> t2]>>])
                  /\ hist' = hist \o <<[op |-> "call", o |-> "A", at |-> <<>>, m |-> "add_set", args |-> <<nr, <<Q(18, 1), Q(97, 4)>>, <<[arr |-> t], [arr |-> t2]>>>>]>> \o See(ds, c', "A", Tol(ds))
\* st: a column is given by name, one value for all rows or one per row
SetCol == /\ "setcol" \in Ops /\ n < K /\ n' = n + 1 /\ UNCHANGED ds /\ ds.kind = "st"
          /\ \E p \in {3, 7, NCol(ds)} : LET i == Len(c)  j == 1  t == c[i].subs[j].tab  w == [r \in 1..Len(t) |-> IF p = 3 THEN Q(9, 8) ELSE Q(40 * r + p, 8)] IN
             /\ c' = [c EXCEPT ![i].subs[j].tab = [r \in 1..Len(t) |-> [t[r] EXCEPT ![p] = w[r]]]]
             /\ hist' = hist \o <<[op |-> "call", o |-> "A", at |-> <<Attr("data")>>, m |-> "set_value", args |-> <<c[i].nr, c[i].subs[j].nr>>, kw |-> <<<<StNames(ds)[p], IF p = 3 THEN w[1] ELSE w>>>>]>> \o See(ds, c', "A", Tol(ds))
Another == /\ "another" \in Ops /\ n < K /\ n' = n + 1
           /\ \E e \in {y \in DataSets : y.kind = ds.kind /\ y.na # ds.na /\ y.nr = ds.nr /\ y.nb = ds.nb} :
              /\ ds' = e /\ c' = Contents(e)
              /\ hist' = hist \o <<File(e, c', "b.x"), Read("A", "b.x")>> \o See(e, c', "A", "f8")
Next == WriteIt \/ Edit \/ AddSet \/ SetCol \/ Another
\* every table has a name of its own
NamesApart == Cardinality({Named(ds, c[i], c[i].subs[j]) : <<i, j>> \in {<<a, b>> \in (1..Len(c)) \X (1..3) : b <= Len(c[a].subs)}}) = SumR([i \in 1..Len(c) |-> Len(c[i].subs)])
Emit == n = K => PrintT(ToJson([ops |-> hist]))
=============================================================================
