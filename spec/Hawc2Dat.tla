------------------------------ MODULE Hawc2Dat ------------------------------
(***************************************************************************)
(* HAWC2 and BHAWC results: a .sel file listing the channels and a .dat    *)
(* file with the series, as text (scan after scan) or as scaled 16-bit     *)
(* integers (channel after channel).  A result can be named by either of   *)
(* its two files, its channels get the documented short names, and writing *)
(* it (always as text) gives back the same channels and values.            *)
(***************************************************************************)
EXTENDS Base
CONSTANTS Formats, NCs, NSs, Shifts, Bys, K
VARIABLES ds, k, out, hist
DataSets == [fmt : Formats, nc : NCs, ns : NSs, shift : Shifts, by : Bys]

RECURSIVE PadR(_, _)
PadR(s, n) == IF Len(s) >= n THEN s ELSE PadR(s \o " ", n)
Blanks(n) == PadR("", n)

\* name and unit as HAWC2 writes them, description, and the short name in the table
Ch(n, u, d, s) == [n |-> n, u |-> u, d |-> d, s |-> s]
Cat == <<
  Ch("WSP gl. coo.,Vy",          "m/s",   "Free wind speed Vy, gl. coo, of gl. pos    2.50,  -1.00, -47.50", "WSPgl.coo.,Vy"),
  Ch("Mx coo: tower",            "kNm",   "MomentMx Mbdy:tower nodenr:   1 coo: tower  tower base",              "towerN1Mxb"),
  Ch("State pos x  coo: global", "m",     "State pos x  Mbdy:blade1 E-nr:  8 Z-rel:1.00 coo: global",       "blade1N9xg"),
  Ch("State pos y  coo: blade1", "m",     "State pos y  Mbdy:blade1 E-nr: 12 Z-rel:0.00 coo: blade1",       "blade1N12yb"),
  Ch("State pos z  coo: global", "m",     "State pos z  Mbdy:blade2 E-nr: 3 Z-rel:0.50 coo: global",        "blade2N3.5zg"),
  Ch("bea1 angle",               "[deg]", "shaft_nacelle angle",                                            "bea1angle"),
  Ch("Omega",                    "rad/s", "Rotor speed",                                                    "Omega"),
  Ch("Cl, R= 61.5",              "-",     "Cl of blade  1 at radius  61.50",                                 "Cl,R=61.5"),
  Ch("axisangle z",              "(rad)", "State rot Mbdy:hub-1 E-nr:  1 Z-rel:1.00 coo: hub-1",              "hub-1N2rot_z"),
  Ch("Fy coo: hub1",             "kN",    "ForceFy Mbdy:hub1 s=  1.25[m] s/S= 0.75 coo: hub1 shaft tip",    "hub1r0.75Fyb"),
  Ch("State vel z  coo: blade1 no 12", "kNm/rad/s^2", "State vel z  Mbdy:blade1 E-nr:  5 Z-rel:0.99 coo: blade1", "blade1N5.99Statevelzbno12"),
  Ch("Dll inp  3 :  mgen gene shaft", "-", "DLL :  5 inpvec :   3  mgen gene shaft torque [nm]", "Dllinp3:mgengeneshaft"),
  Ch("Fx coo: t.w-r_2", "kN", "ForceFx Mbdy:t.w-r_2 nodenr:  11 coo: t.w-r_2  tower", "t.w-r_2N11Fxb")>>
Unit0(u) == IF u = "[deg]" THEN "deg" ELSE IF u = "(rad)" THEN "rad" ELSE u
\* BHAWC: description, label, unit in brackets; the label is not shortened
BCat == <<
  Ch("ang_azi",     "[deg]",  "Rotor azimuthal position",           "ang_azi"),
  Ch("om_rot",      "[rpm]",  "Rotor speed in [rpm]",               "om_rot"),
  Ch("P_el",        "[kW]",   "Electrical power",                   "P_el"),
  Ch("m_1_y",       "[kNm]",  "Flapwise moment, blade 1, root",     "m_1_y"),
  Ch("u_hub",       "[m/s]",  "Wind speed at hub [m/s] free",       "u_hub")>>
BUnit0(u) == CASE u = "[deg]" -> "deg" [] u = "[rpm]" -> "rpm" [] u = "[kW]" -> "kW" [] u = "[kNm]" -> "kNm" [] u = "[m/s]" -> "m/s" [] u = "[s]" -> "s"
IsB(d) == d.fmt = "bhawc"
Chan(d, j) == IF j = 1 THEN (IF IsB(d) THEN Ch("t", "[s]", "Time", "t") ELSE Ch("Time", "s", "Time", "Time"))
              ELSE IF IsB(d) THEN BCat[((j + d.shift) % Len(BCat)) + 1] ELSE Cat[((j + d.shift) % Len(Cat)) + 1]
Cols(d) == [j \in 1..d.nc |-> Chan(d, j).s \o "_[" \o (IF IsB(d) THEN BUnit0(Chan(d, j).u) ELSE Unit0(Chan(d, j).u)) \o "]"]

\* --- the values
Raw(t, j) == IF j = 1 THEN 100 * t ELSE IF (t + j) % 4 = 0 THEN -32768 + t ELSE IF (t + j) % 4 = 1 THEN 32767 - j ELSE (t * 37 + j * 911) - 1000 * (j % 2)
Scale(j) == <<Q(1, 1000), Q(1, 16), Q(3, 4), Q(5, 1), Q(1, 250)>>[((j - 1) % 5) + 1]
ScaleTxt(j) == <<"  1.00000E-03", "  6.25000E-02", "  7.50000E-01", "  5.00000E+00", "  4.00000E-03">>[((j - 1) % 5) + 1]
Val(d, t, j) == IF d.fmt = "bin" THEN QMul(Q(Raw(t, j), 1), Scale(j)) ELSE IF j = 1 THEN Q(t, 10) ELSE OddE(t * 3 + j, Q(((t * 37 + j * 911) % 401) - 200, 8))
Tab(d) == [t \in 1..d.ns |-> [j \in 1..d.nc |-> Val(d, t, j)]]
\* --- the two files
Line0 == "________________________________________________________________________________________________________________________"
SelH(d) == <<Line0, "  Version ID : HAWC2MB 11.8", "                                                            Time : 10:02:19",
             "                                                            Date : 24:01.2018", Line0,
             "  Result file : ./res/a.dat", Line0, "   Scans    Channels    Time [sec]      Format",
             "        " \o Str(d.ns) \o "     " \o Str(d.nc) \o "         " \o Dec(Val(d, d.ns, 1)) \o "       " \o (IF d.fmt = "bin" THEN "BINARY" ELSE "ASCII"), "",
             "  Channel   Variable Description               ", "">>
           \o [j \in 1..d.nc |-> PadR(PadR("     " \o (IF j < 10 THEN " " ELSE "") \o Str(j), 12) \o Chan(d, j).n, 43) \o PadR(Chan(d, j).u, 11) \o Chan(d, j).d]
           \o (IF d.fmt = "bin" THEN <<Line0, "Scale factors:">> \o [j \in 1..d.nc |-> ScaleTxt(j)] ELSE IF d.shift % 2 = 0 THEN <<Line0>> ELSE <<>>)
SelB(d) == <<" BHawC channel reference file (sel):", Line0, "     BHawC command file :     NA.btc  2001.01.21  00:00:00  C:/Res/",
             "   Reference file :    NA.sel  2001.01.01  00:00:00  C:/simdatsel", "            Result file :     NA.dat  2001.01.01  00:00:00  C:/simdatsel", Line0,
             "  Scans    Channels    Time [sec]                Coordinate convention: Siemens", "     " \o Str(d.ns) \o "        " \o Str(d.nc) \o "        " \o Dec(Val(d, d.ns, 1)), "",
             "Channel   Variable description          Label        Unit">> \o (IF d.shift % 2 = 0 THEN <<"">> ELSE <<>>)
           \o [j \in 1..d.nc |-> LET sep == IF d.shift % 2 = 0 THEN "                    " ELSE "\t" IN "   " \o Str(j) \o (IF d.shift % 2 = 0 THEN "  " ELSE "\t") \o Chan(d, j).d \o sep \o Chan(d, j).n \o sep \o Chan(d, j).u]
DatTxt(d) == [t \in 1..d.ns |-> "  " \o Join([j \in 1..d.nc |-> LET v == Val(d, t, j) IN IF "e" \in DOMAIN v THEN Dec(v) ELSE Dec(v) \o "0E+00"], "  ")]
Files(d, stem) == <<[op |-> "mktext", path |-> stem \o ".sel", lines |-> IF IsB(d) THEN SelB(d) ELSE SelH(d), endnl |-> d.shift % 3 # 0],
                    IF d.fmt = "bin" THEN MkFile(stem \o ".dat", [j \in 1..d.nc |-> I2([t \in 1..d.ns |-> Raw(t, j)])])
                                     ELSE MkText(stem \o ".dat", DatTxt(d))>>
\* --- what a client sees
Info(d, o) == <<Get(o, <<Attr("info"), "attribute_names">>, [j \in 1..d.nc |-> Chan(d, j).n], "exact"),
                Get(o, <<Attr("info"), "attribute_descr">>, [j \in 1..d.nc |-> Chan(d, j).d], "exact")>>
See(d, o) == <<DF(o, Table(Cols(d), Tab(d)), "f8")>> \o Info(d, o) \o <<DF(o, Table(Cols(d), Tab(d)), "f8")>> \o Info(d, o)
SeeB(d, o) == <<DF(o, Table(Cols(d), Tab(d)), AbsRelTol(QE(1, 1, -19), Q(1, 100000000)))>> \o Info(d, o)
Init == /\ k = 0 /\ ds \in DataSets /\ out = 0
        /\ hist = Files(ds, "x.sel.d/a") \o <<Open("A", "HAWC2DatFile", "x.sel.d/a." \o ds.by)>> \o See(ds, "A")
\* writing: the two files of the new result hold the same channels and values, whichever of the two names was given
WriteIt == /\ k < K /\ \E ext \in Bys :
              LET w == "o" \o Str(k) \o ".sel.d/b" IN
              /\ k' = k + 1 /\ out' = out + 1 /\ UNCHANGED ds
              /\ hist' = hist \o <<[op |-> "mkdir", path |-> "o" \o Str(k) \o ".sel.d"], Write("A", w \o "." \o ext), [op |-> "exists", path |-> w \o ".dat", expect |-> TRUE], [op |-> "exists", path |-> w \o ".sel", expect |-> TRUE]>>
                              \o SeeB(ds, "A") \o <<Open("B", "HAWC2DatFile", w \o ".dat")>> \o SeeB(ds, "B") \o <<Open("C", "HAWC2DatFile", w \o ".sel")>> \o SeeB(ds, "C")
\* the same object reads another result
Another == /\ k < K /\ \E e \in {x \in DataSets : x.fmt # ds.fmt /\ x.nc # ds.nc /\ x.ns = ds.ns} :
              ds' = e /\ k' = k + 1 /\ UNCHANGED out
              /\ hist' = hist \o Files(e, "y" \o Str(k) \o "/a") \o <<Read("A", "y" \o Str(k) \o "/a." \o e.by)>> \o See(e, "A")
Next == WriteIt \/ Another
NamesFit == \A j \in 1..ds.nc : Len(Chan(ds, j).n) <= 30
Emit == k = K => PrintT(ToJson([ops |-> hist]))
=============================================================================
