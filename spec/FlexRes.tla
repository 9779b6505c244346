------------------------------ MODULE FlexRes ------------------------------
(***************************************************************************)
(* FLEX results: scaled 16-bit integers, time step after time step, or (in *)
(* version 3) sensor after sensor, the header with or without a date, and  *)
(* the accompanying sensor list.                                           *)
(***************************************************************************)
EXTENDS Base
CONSTANTS Versions, Dates, NSs, NTs, Sensors, Dts
VARIABLES ds, k, hist
DataSets == [v : Versions, date : Dates, ns : NSs, nt : NTs, sen : Sensors, dt : Dts]
Raw(t, s) == IF (t + s) % 5 = 0 THEN 32767 - t ELSE IF (t + s) % 5 = 1 THEN -32768 + s ELSE (t * 7 + s * 131) - 300 * (s % 2)
Scale(s) == IF s % 3 = 0 THEN Q(-1, 1024) ELSE Q(s, 64)
Val(t, s) == QMul(Q(Raw(t, s), 1), Scale(s))
Tmin == Q(5, 4)
Dt(d) == Q(1, d.dt)
Time(d, t) == QAdd(Tmin, QMul(Q(t - 1, 1), Dt(d)))
Units == <<"kNm", "(m/s)", "[deg]", "-", "-">>
Units0 == <<"kNm", "m/s", "deg", "-">>
Names == <<"My11", "Vx", "Psi", "Gen", "More">>
Title == "Load case 12"
Hdr(d) == <<I4(0)>> \o (IF d.date THEN <<I4(<<24, 12, 2020, 23, 59, 1>>), S(Title, 40)>> ELSE <<I4(0), S(Title, 60)>>)
           \o <<I4(<<0, 0>>), I4(d.ns), I4([s \in 1..d.ns |-> s]), I4(0), I4(d.v), F4(Tmin), F4(Dt(d)), F4([s \in 1..d.ns |-> Scale(s)])>>
\* the order in which the values follow each other in the file
Pos(d) == IF d.v = 3 THEN [i \in 1..(d.ns * d.nt) |-> <<((i - 1) % d.nt) + 1, ((i - 1) \div d.nt) + 1>>]
          ELSE [i \in 1..(d.ns * d.nt) |-> <<((i - 1) \div d.ns) + 1, ((i - 1) % d.ns) + 1>>]
File(d) == Hdr(d) \o <<I2([i \in 1..(d.ns * d.nt) |-> Raw(Pos(d)[i][1], Pos(d)[i][2])])>>
Desc(s) == IF s % 3 = 0 THEN "" ELSE "Sensor number " \o Str(s)
SLine(s) == "  " \o Str(s) \o "  2.000   0.500   1.00   0.00 " \o Units[s] \o "  " \o Names[s] \o (IF s % 3 = 0 THEN "" ELSE "  " \o Desc(s))
SenLines(d) == <<"Sensor list for a.res", " No   forst  offset  korr. c  Volt    Unit   Navn    Beskrivelse------------">>
               \o [s \in 1..(IF d.sen = "bad" THEN d.ns + 1 ELSE d.ns) |-> SLine(s)] \o (IF d.sen = "blank" THEN <<"", "   ">> ELSE <<>>)
Cols(d) == <<"Time_[s]">> \o [s \in 1..d.ns |-> IF d.sen = "no" THEN "S000" \o Str(s) \o "_[NA]" ELSE Names[s] \o "_[" \o Units0[s] \o "]"]
Tab(d) == [t \in 1..d.nt |-> <<Time(d, t)>> \o [s \in 1..d.ns |-> Val(t, s)]]
Dir(d) == Str(d.v) \o Str(d.ns) \o "/"
See(d) == <<DF("A", Table(Cols(d), Tab(d)), "f4"), Get("A", <<Attr("Version")>>, d.v, "exact"), Get("A", <<Attr("title")>>, Title, "exact"),
            Get("A", <<Attr("tmin")>>, Tmin, "f4"), Get("A", <<Attr("dt")>>, Dt(d), "f4"), Get("A", <<Attr("nt")>>, d.nt, "exact"), Get("A", <<Attr("nSensors")>>, d.ns, "exact"),
            Get("A", <<Attr("sensors"), "Description">>, [s \in 1..d.ns |-> IF d.sen = "no" THEN "NA" ELSE Desc(s)], "exact"),
            Get("A", <<Attr("sensors"), "ID">>, [s \in 1..d.ns |-> s], "exact"),
            Get("A", <<Attr("sensors"), "Gain">>, [s \in 1..d.ns |-> IF d.sen = "no" THEN 1 ELSE 2], "exact"),
            Get("A", <<Attr("sensors"), "Offset">>, [s \in 1..d.ns |-> IF d.sen = "no" THEN 0 ELSE Q(1, 2)], "exact")>>
Make(d, dir) == <<MkFile(dir \o "a.res", File(d))>> \o (IF d.sen = "no" THEN <<>> ELSE <<MkText(dir \o "sensor", SenLines(d))>>)
None2 == {"no", "yes"}
Init == /\ k = 0 /\ ds \in DataSets
        /\ hist = Make(ds, "x/") \o (IF ds.sen = "bad" THEN <<OpenErr("A", "FLEXOutFile", "x/a.res", "BrokenFormatError")>>
                                                      ELSE <<Open("A", "FLEXOutFile", "x/a.res")>> \o See(ds) \o See(ds))
\* a second result of another run, with or without its own sensor list, read by the same object
Second == /\ k = 0 /\ ds.sen # "bad" /\ \E e \in {x \in DataSets : x.sen # "bad" /\ (x.ns # ds.ns \/ x.v # ds.v) /\ x.nt \in {1, 3}} :
             ds' = e /\ k' = 1 /\ hist' = hist \o Make(e, "y/") \o <<Read("A", "y/a.res")>> \o See(e)
Next == Second
\* the positions of the values are all different and cover the file
Bijection == Cardinality(Rng(Pos(ds))) = ds.ns * ds.nt
Emit == PrintT(ToJson([ops |-> hist]))
\* --- long series: shape, ends and middle only, the values are generated
BigInit == /\ k = 0 /\ ds \in DataSets
           /\ LET n == ds.nt IN
              hist = <<MkFile("a.int", Hdr(ds) \o <<[t |-> "i2", v |-> [gen |-> <<7, 3, 1009, -500, ds.ns * n>>]]>>), Open("A", "FLEXOutFile", "a.int"),
                [op |-> "dfcells", o |-> "A", shape |-> <<n, ds.ns + 1>>, tol |-> "f4",
                 cells |-> [j \in 1..6 |-> LET t == <<1, 2, n \div 3, n \div 2, n - 1, n>>[j] IN <<t - 1, 0, Time(ds, t)>>]
                        \o Flatten([s \in 1..ds.ns |-> [j \in 1..4 |-> LET t == <<1, 2, n \div 2, n>>[j]  i == IF ds.v = 3 THEN (s - 1) * n + t - 1 ELSE (t - 1) * ds.ns + s - 1 IN
                              <<t - 1, s, QMul(Q(-500 + ((7 * i + 3) % 1009), 1), Scale(s))>>]])]>>
=============================================================================
