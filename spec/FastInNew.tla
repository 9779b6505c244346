----------------------------- MODULE FastInNew -----------------------------
(***************************************************************************)
(* OpenFAST input files made from the prototypes of the library (blades    *)
(* and airfoil polars), or line by line: a client creates one, fills the   *)
(* tables, parameters and the comment, and writes it.  The file announces  *)
(* the number of rows of every table, reads back (through the general      *)
(* class and through its own) with everything that was given, and the      *)
(* data frames carry the derived columns of the tables.                    *)
(***************************************************************************)
EXTENDS Base
CONSTANTS Files, Ns, Tabs, OpNames, K
VARIABLES ds, tab, par, com, n, hist
vars == <<ds, tab, par, com, n, hist>>
Tol == [rel |-> Q(1, 10000000), abs |-> Q(1, 1000000000)]
DataSets == {d \in [f : Files, tabs : Tabs] : d.f \in {"polar", "steady"} \/ d.tabs = 1}
Cls(d) == CASE d.f = "ed" -> "EDBladeFile" [] d.f = "ad" -> "ADBladeFile" [] d.f = "free" -> "FASTInputFileBase" [] OTHER -> "ADPolarFile"
Kw(d)  == CASE d.f = "polar" -> <<<<"hasUA", TRUE>>, <<"numTabs", d.tabs>>>> [] d.f = "steady" -> <<<<"hasUA", FALSE>>, <<"numTabs", d.tabs>>>> [] OTHER -> <<>>
IsPol(d) == d.f \in {"polar", "steady"}
Suf(d, t) == IF d.tabs = 1 THEN "" ELSE "_" \o Str(t)
TabName(d, t) == CASE d.f = "ed" -> "BldProp" [] d.f = "ad" -> "BldAeroNodes" [] d.f = "free" -> "Joints" [] OTHER -> "AFCoeff" \o Suf(d, t)
DimName(d, t) == CASE d.f = "ed" -> "NBlInpSt" [] d.f = "ad" -> "NumBlNds" [] d.f = "free" -> "NJoints" [] OTHER -> "NumAlf" \o Suf(d, t)
\* rows: a steady polar is only recognised when its tables are longer than its comments
Rows0(d, k, t) == IF d.f = "steady" THEN 40 + k + t ELSE IF IsPol(d) THEN k + t ELSE k
V(r, c) == Q((IF (r + c) % 2 = 0 THEN 1 ELSE -1) * (100 * r + 10 * c + 1), 8)
Alpha(r, nr) == IF r = 1 THEN -90 ELSE IF r = nr THEN 90 ELSE 0
Row(d, t, r, nr) == CASE d.f = "ed" -> <<Q(r - 1, 2)>> \o [c \in 1..5 |-> QAbs(V(r, c))]
                      [] d.f = "ad" -> <<Q(2 * r, 1), V(r, 1), V(r, 2), Q(0, 1), Q(0, 1), QAbs(V(r, 4)), Q(r, 1)>>
                      [] d.f = "free" -> <<Q(r, 1), V(r, 1), V(r, 2), V(r, 3)>>
                      [] OTHER -> <<Int2Q(Alpha(r, nr)), V(r, t), QAbs(V(r, t + 1)), V(r, t + 2)>>
MkTab(d, k) == [t \in 1..d.tabs |-> [r \in 1..Rows0(d, k, t) |-> Row(d, t, r, Rows0(d, k, t))]]
\* parameters the client may set, with two values
Pars(d) == CASE d.f = "ed" -> <<"BldFl1Sh(3)", "BldEdDmp(1)", "AdjBlMs", "BldEdgSh(6)", "BldFl2Sh(2)">> [] d.f = "ad" -> <<>>
             [] d.f = "free" -> <<"Echo", "DT", "Mode", "OutFile">>
             [] d.f = "polar" -> Flatten([t \in 1..d.tabs |-> [i \in 1..9 |-> <<"Re", "alpha0", "alpha1", "alpha2", "C_nalpha", "Cn1", "Cn2", "Cd0", "Cm0">>[i] \o Suf(d, t)]])
             [] OTHER -> [t \in 1..d.tabs |-> "Re" \o Suf(d, t)]
PVal(d, i, k) == IF d.f = "free" THEN (CASE i = 1 -> (k = 1) [] i = 2 -> Q(k, 8) [] i = 3 -> k + 2 [] OTHER -> "\"file" \o Str(k) \o ".out\"")
                 ELSE IF d.f = "polar" /\ (i % 9) = 2 THEN Q(0, 1) ELSE Q(2 * i + k, 4)
MkPar(d, k) == [i \in 1..Len(Pars(d)) |-> PVal(d, i, k)]
SetPars(d, p) == [i \in 1..Len(Pars(d)) |-> Set("A", <<Pars(d)[i]>>, p[i])]
SetTabs(d, tb) == [t \in 1..d.tabs |-> Set("A", <<TabName(d, t)>>, [arr |-> tb[t]])]
Coms(k) == <<"an unusual blade, 12 m long", "second version">>[k]
ComTxt(d, k) == IF IsPol(d) THEN Coms(k) \o "\nof many lines: 3\nend of it" ELSE Coms(k)
\* --- derived columns
RECURSIVE Pw(_, _)
Pw(q, p) == IF p = 0 THEN Q(1, 1) ELSE QNorm(QMul(q, Pw(q, p - 1)))
Coef(d, p, m, e) == LET nm == <<"BldFl1Sh", "BldFl2Sh", "BldEdgSh">>[m] \o "(" \o Str(e) \o ")"
                        I == {i \in 1..Len(Pars(d)) : Pars(d)[i] = nm}
                    IN  IF I # {} THEN p[CHOOSE i \in I : TRUE] ELSE IF e = 2 THEN Q(1, 1) ELSE Q(0, 1)
ShapeV(d, p, m, x) == QNorm(QAdd(QAdd(QMul(Coef(d, p, m, 2), Pw(x, 2)), QMul(Coef(d, p, m, 3), Pw(x, 3))), QMul(Coef(d, p, m, 6), Pw(x, 6))))
\* position of the aerodynamic centre: from half chord at the root to quarter chord at 15% of the rows
AC(nr, r) == LET m == (nr * 15) \div 100 IN IF r > m THEN Q(1, 4) ELSE IF m = 1 THEN Q(1, 2) ELSE QSub(Q(1, 2), Q(r - 1, 4 * (m - 1)))
ParOf(d, p, nm) == p[CHOOSE i \in 1..Len(Pars(d)) : Pars(d)[i] = nm]
Cn(row, cd0) == CASE row[1].n = 0 -> row[2] [] row[1].n > 0 -> QSub(row[3], cd0) [] OTHER -> QSub(cd0, row[3])
DRow(d, p, t, nr, r, row) ==
  CASE d.f = "ed" -> row \o [m \in 1..3 |-> ShapeV(d, p, m, row[1])]
    [] d.f = "ad" -> row \o <<row[2], QAdd(row[3], QMul(row[6], QSub(Q(1, 2), AC(nr, r)))), AC(nr, r)>>
    [] d.f = "free" -> row
    [] d.f = "steady" -> row \o <<Cn(row, Q(0, 1))>>
    [] OTHER -> row \o <<Cn(row, Q(0, 1)), Cn(row, ParOf(d, p, "Cd0" \o Suf(d, t))), IF row[1].n = 0 THEN Q(0, 1) ELSE NaN>>
DCols(d) == CASE d.f = "ed" -> <<"BlFract_[-]", "PitchAxis_[-]", "StrcTwst_[deg]", "BMassDen_[kg/m]", "FlpStff_[Nm^2]", "EdgStff_[Nm^2]", "ShapeFlap1_[-]", "ShapeFlap2_[-]", "ShapeEdge1_[-]">>
              [] d.f = "ad" -> <<"BlSpn_[m]", "BlCrvAC_[m]", "BlSwpAC_[m]", "BlCrvAng_[deg]", "BlTwist_[deg]", "BlChord_[m]", "BlAFID_[-]", "c2_Crv_Approx_[m]", "c2_Swp_Approx_[m]", "AC_Approx_[-]">>
              [] d.f = "free" -> <<"JointID_[-]", "JointXss_[m]", "JointYss_[m]", "JointZss_[m]">>
              [] d.f = "steady" -> <<"Alpha_[deg]", "Cl_[-]", "Cd_[-]", "Cm_[-]", "Cn_[-]">>
              [] OTHER -> <<"Alpha_[deg]", "Cl_[-]", "Cd_[-]", "Cm_[-]", "Cn_[-]", "Cn_Cd0off_[-]", "Cn_pot_[-]">>
DTab(d, p, t, m) == Table(DCols(d), [r \in 1..Len(m) |-> DRow(d, p, t, Len(m), r, m[r])]) @@ [pre |-> 1]
Content(o, d, tb, p, c) == Flatten([t \in 1..d.tabs |-> <<Shape(o, <<TabName(d, t)>>, <<Len(tb[t]), Len(tb[t][1])>>), Get(o, <<TabName(d, t)>>, tb[t], Tol)>>])
      \o [i \in 1..Len(Pars(d)) |-> Get(o, <<Pars(d)[i]>>, p[i], Tol)]
      \o <<DF(o, IF d.tabs = 1 THEN DTab(d, p, 1, tb[1]) ELSE [dfs |-> [t \in 1..d.tabs |-> <<TabName(d, t), DTab(d, p, t, tb[t])>>]], Tol)>>
      \o (IF d.f = "free" THEN <<>> ELSE <<Get(o, <<Attr("comment")>>, ComTxt(d, c), "exact")>>)
\* what a reader of the written file sees in addition: the dimensions
Seen(o, d, tb, p, c) == Content(o, d, tb, p, c) \o [t \in 1..d.tabs |-> Get(o, <<DimName(d, t)>>, Len(tb[t]), "exact")]
      \o (IF IsPol(d) THEN <<Get(o, <<"NumTabs">>, d.tabs, "exact")>> \o [t \in 1..d.tabs |-> Get(o, <<"InclUAdata" \o Suf(d, t)>>, d.f = "polar", "exact")] ELSE <<>>)
Add(m, args) == [op |-> "call", o |-> "A", m |-> m, args |-> args]
\* a file put together line by line; adding a name twice replaces its value
Build(d, tb, p) == IF d.f # "free" THEN <<>>
   ELSE <<Add("addComment", <<"------- SubDyn MultiMember Support Structure Input File ----">>), Add("addComment", <<"! made by hand">>),
          Add("addKeyVal", <<"Echo", FALSE, "Echo input (flag)">>), Add("addValKey", <<Q(1, 2), "DT", "Time step (s)">>), Add("addKeyVal", <<"Mode", 1, "switch">>),
          Add("addKeyVal", <<"OutFile", "\"none\"", "a file (quoted string)">>), Add("addKeyVal", <<"Mode", 99>>), Add("addComment", <<"---- STRUCTURE JOINTS ----">>),
          Add("addKeyVal", <<"NJoints", Len(tb[1]), "number of joints">>),
          [op |-> "call", o |-> "A", m |-> "addTable", args |-> <<"Joints", [arr |-> tb[1]]>>, kw |-> <<<<"cols", <<"JointID", "JointXss", "JointYss", "JointZss">>>>, <<"units", <<"(-)", "(m)", "(m)", "(m)">>>>, <<"tabType", 1>>, <<"tabDimVar", "NJoints">>>>],
          Add("addKeyVal", <<"NDiv", 3, "divisions">>)>>

Init == /\ ds \in DataSets /\ n = 0 /\ com = 1
        /\ \E k \in Ns : tab = MkTab(ds, k)
        /\ par = MkPar(ds, 1)
        /\ hist = <<[op |-> "new", o |-> "A", cls |-> Cls(ds), kw |-> Kw(ds)]>> \o Build(ds, tab, par) \o SetTabs(ds, tab) \o SetPars(ds, par)
                  \o (IF ds.f = "free" THEN <<Get("A", <<"NDiv">>, 3, "exact")>> ELSE <<Set("A", <<Attr("comment")>>, ComTxt(ds, 1))>>) \o Content("A", ds, tab, par, 1)
Do(ops) == hist' = hist \o ops /\ n' = n + 1 /\ UNCHANGED ds
ReTable == /\ "table" \in OpNames /\ n < K - 1
           /\ \E k \in Ns : /\ tab' = MkTab(ds, k + 1)
                            /\ Do(SetTabs(ds, tab') \o (IF ds.f = "free" THEN <<Set("A", <<"NJoints">>, Len(tab'[1]))>> ELSE <<>>) \o Content("A", ds, tab', par, com))
           /\ UNCHANGED <<par, com>>
RePar   == /\ "par" \in OpNames /\ n < K - 1 /\ par = MkPar(ds, 1) /\ par' = MkPar(ds, 2) /\ UNCHANGED <<tab, com>> /\ Do(SetPars(ds, par') \o Content("A", ds, tab, par', com))
ReCom   == /\ "com" \in OpNames /\ n < K - 1 /\ com = 1 /\ ds.f # "free" /\ com' = 2 /\ UNCHANGED <<tab, par>> /\ Do(<<Set("A", <<Attr("comment")>>, ComTxt(ds, 2))>> \o Content("A", ds, tab, par, 2))
Unknown == /\ "unknown" \in OpNames /\ n < K - 1 /\ UNCHANGED <<tab, par, com>>
           /\ Do(<<[op |-> "set", o |-> "A", at |-> <<"NoSuchName">>, val |-> 1, err |-> "KeyError"]>> \o Content("A", ds, tab, par, com))
WriteRead == /\ n < K /\ UNCHANGED <<tab, par, com>>
             /\ LET p == "b" \o Str(n) \o ".dat" IN
                Do(<<Write("A", p)>> \o Seen("A", ds, tab, par, com) \o <<Open("B", "FASTInputFile", p)>> \o Seen("B", ds, tab, par, com)
                   \o <<Open("D", Cls(ds), p)>> \o Seen("D", ds, tab, par, com)
                   \o <<Write("D", "d.dat"), [op |-> "same", a |-> p, b |-> "d.dat"], Read("D", "d.dat")>> \o Seen("D", ds, tab, par, com)
                   \o <<Write("B", "c.dat"), [op |-> "same", a |-> p, b |-> "c.dat"]>>)
Next == IF n = K - 1 THEN WriteRead ELSE ReTable \/ RePar \/ ReCom \/ Unknown \/ (n < K - 1 /\ WriteRead)
Rect == \A t \in 1..ds.tabs : \A r \in 1..Len(tab[t]) : Len(tab[t][r]) = Len(tab[t][1])
ShapesStart == ds.f = "ed" => \A m \in 1..3 : ShapeV(ds, par, m, Q(0, 1)).n = 0
Emit == (n = K) => PrintT(ToJson([ops |-> hist]))
=============================================================================
