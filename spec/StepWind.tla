------------------------------ MODULE StepWind ------------------------------
(* The step wind generator of wind files: plateaus from WSmin to WSmax, each held for tstep, steps lasting dt. *)
EXTENDS Base
CONSTANTS Mins, NSteps, Incs, Holds, Tmaxs
VARIABLES ds, hist
DataSets == [mn : Mins, ns : NSteps, inc : Incs, hold : Holds, tmax : Tmaxs]
Dt == Q(1, 2)
WS(d, k) == Q(2 * d.mn + (k - 1) * d.inc, 2)             \* k = 1 .. ns + 1
T(d, k) == Q(2 * (k - 1) * d.hold, 2)
Z == [i \in 1..6 |-> 0]
End(d) == LET e == (d.ns + 1) * d.hold IN IF d.tmax > e THEN d.tmax ELSE e
Rows(d) == [r \in 1..(2 * (d.ns + 1)) |->
   LET k == (r - 1) \div 2 + 1 IN
   IF r = 2 * (d.ns + 1) THEN <<Q(End(d), 1), WS(d, d.ns + 1)>> \o Z
   ELSE IF r % 2 = 1 THEN <<T(d, k), WS(d, k)>> \o Z ELSE <<QSub(T(d, k + 1), Dt), WS(d, k)>> \o Z]
Cols == <<"Time_[s]", "WindSpeed_[m/s]", "WindDir_[deg]", "VertSpeed_[m/s]", "HorizShear_[-]", "VertShear_[-]", "LinVShear_[-]", "GustSpeed_[m/s]">>
Init == /\ ds \in DataSets
        /\ hist = <<New("A", "FASTWndFile"), [op |-> "call", o |-> "A", m |-> "stepWind", kw |-> <<<<"WSstep", Q(ds.inc, 2)>>, <<"WSmin", ds.mn>>, <<"WSmax", WS(ds, ds.ns + 1)>>, <<"tstep", ds.hold>>, <<"dt", Dt>>, <<"tmax", ds.tmax>>>>],
                    DF("A", Table(Cols, Rows(ds)), "f8"), Write("A", "a.wnd"), Open("B", "FASTWndFile", "a.wnd"), DF("B", Table(Cols, Rows(ds)), "f8"), Shape("B", <<Attr("header")>>, <<3>>)>>
Next == FALSE /\ UNCHANGED <<ds, hist>>
Increasing == \A r \in 2..Len(Rows(ds)) : QLe(Rows(ds)[r - 1][1], Rows(ds)[r][1]) /\ QLe(Rows(ds)[r - 1][2], Rows(ds)[r][2])
Emit == PrintT(ToJson([ops |-> hist]))
=============================================================================
