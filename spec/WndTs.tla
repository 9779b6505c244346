-------------------------------- MODULE WndTs --------------------------------
(***************************************************************************)
(* FAST deterministic wind files (comments and eight columns) and TurbSim  *)
(* user time series (header, points, and for each time step the components *)
(* of the first point, of the second point ...).                           *)
(***************************************************************************)
EXTENDS Base
CONSTANTS Kinds, NHs, NRs, NPs, NCs, Forms, Ops, K
VARIABLES ds, n, tab, hist
vars == <<ds, n, tab, hist>>
DataSets == {d \in [k : Kinds, nh : NHs, nr : NRs, np : NPs, nc : NCs, f : Forms] : d.k = "wnd" => d.np = 1 /\ d.nc = 1}
Tol == [rel |-> Q(1, 10000000), abs |-> QE(1, 1, -19)]
V(r, c) == OddE(r * 5 + c, Q((IF (r + c) % 2 = 0 THEN 1 ELSE -1) * (1000 * r + 125 * c), 8))
SepS(d) == IF d.f % 2 = 0 THEN "  " ELSE "\t"
Row(d, row) == (IF d.f > 1 THEN "  " ELSE "") \o Join([c \in 1..Len(row) |-> Dec(row[c])], SepS(d))
\* --- wind
WCols == <<"Time_[s]", "WindSpeed_[m/s]", "WindDir_[deg]", "VertSpeed_[m/s]", "HorizShear_[-]", "VertShear_[-]", "LinVShear_[-]", "GustSpeed_[m/s]">>
WTab(d) == [r \in 1..d.nr |-> <<Q(r - 1, 4)>> \o [c \in 2..8 |-> V(r, c)]]
WTab8(d) == [r \in 1..d.nr |-> [c \in 1..8 |-> IF c = 1 THEN Q(r - 1, 4) ELSE V(r, c)]]
WCom(i) == IF i % 3 = 0 THEN "!" ELSE IF i % 3 = 1 THEN "! Time Wind Wind Vert. Horiz. " \o Str(i) ELSE "!  (sec), see line 3; 1 2 3 4 5 6 7 8"
WLines(d) == [i \in 1..d.nh |-> WCom(i)] \o [r \in 1..d.nr |-> Row(d, WTab8(d)[r])]
\* --- time series
Comp == <<"u", "v", "w">>
TCom(i) == IF i = 1 THEN "--------------TurbSim v2.00.* User Time Series Input File-----" ELSE "Comment " \o Str(i) \o " (made by hand)"
Pt(d) == [p \in 1..d.np |-> IF p % 2 = 0 THEN <<QL(-1234567 * p, 5), QL(98765432 + p, 6)>> ELSE <<Q(p - 2, 2), Q(80 * p + 1, 4)>>]
TTab(d) == [r \in 1..d.nr |-> [c \in 1..(1 + d.np * d.nc) |-> IF c = 1 THEN Q(r - 1, 8) ELSE V(r, c)]]
\* the component of a point and its column: components are the fast index
ColOf(d, p, k) == 1 + (p - 1) * d.nc + k
TNames(d) == [c \in 1..(1 + d.np * d.nc) |-> IF c = 1 THEN "Elapsed Time" ELSE "Point0" \o Str(((c - 2) \div d.nc) + 1) \o Comp[((c - 2) % d.nc) + 1]]
TCols(d) == [c \in 1..(1 + d.np * d.nc) |-> IF c = 1 THEN "Time_[s]" ELSE "Point" \o Str(((c - 2) \div d.nc) + 1) \o Comp[((c - 2) % d.nc) + 1] \o "_[m/s]"]
TLines(d) == [i \in 1..d.nh |-> TCom(i)] \o <<"   " \o Str(d.nc) \o " nComp - Number of velocity components in the file", "  " \o Str(d.np) \o "   nPoints - Number of time series points contained in this file (-)",
              "   " \o Str(d.np) \o " RefPtID - Index of the reference point (1-nPoints)", "     Pointyi Pointzi ! nPoints listed in order of increasing height", "       (m)     (m)">>
             \o [p \in 1..d.np |-> Row(d, Pt(d)[p])] \o <<"--------Time Series-----------", Join(TNames(d), "    "), Join([c \in 1..(1 + d.np * d.nc) |-> IF c = 1 THEN "(s)" ELSE "(m/s)"], "   ")>>
             \o [r \in 1..d.nr |-> Row(d, TTab(d)[r])] \o (IF d.f = 3 THEN <<"">> ELSE <<>>)
Cls(d) == IF d.k = "wnd" THEN "FASTWndFile" ELSE "TurbSimTSFile"
Path(d, s) == s \o (IF d.k = "wnd" THEN ".wnd" ELSE ".txt")
Tab0(d) == IF d.k = "wnd" THEN WTab8(d) ELSE TTab(d)
See(o, d, t) == IF d.k = "wnd"
    THEN <<DF(o, Table(WCols, t), Tol), Get(o, <<Attr("header")>>, [i \in 1..d.nh |-> WCom(i)], "exact")>>
    ELSE <<DF(o, [dfs |-> <<<<"Points", Table(<<"PointYi", "PointZi">>, Pt(d))>>, <<"TimeSeries", Table(TCols(d), t)>>>>], Tol), Get(o, <<"header">>, [i \in 1..d.nh |-> TCom(i)], "exact"),
           Get(o, <<"nComp">>, d.nc, "exact"), Get(o, <<"ID">>, d.np, "exact"), Get(o, <<"Points">>, Pt(d), Tol), Get(o, <<"data">>, t, Tol)>>
RawLines(d, t) == IF d.k = "wnd" THEN [i \in 1..d.nh |-> [raw |-> WCom(i)]] \o [r \in 1..Len(t) |-> [words |-> t[r]]]
    ELSE [i \in 1..d.nh |-> [raw |-> TCom(i)]] \o <<[words |-> <<d.nc, "nComp">>], [words |-> <<d.np, "nPoints">>], [words |-> <<d.np, "RefPtID">>], Whatever, Whatever>>
         \o [p \in 1..d.np |-> [words |-> Pt(d)[p]]] \o <<Whatever, Whatever, Whatever>> \o [r \in 1..Len(t) |-> [words |-> t[r]]]
Init == /\ ds \in DataSets /\ n = 0 /\ tab = Tab0(ds)
        /\ hist = <<MkText(Path(ds, "a"), IF ds.k = "wnd" THEN WLines(ds) ELSE TLines(ds)), Open("A", Cls(ds), Path(ds, "a"))>> \o See("A", ds, Tab0(ds)) \o See("A", ds, Tab0(ds))
Do(ops) == hist' = hist \o ops /\ n' = n + 1 /\ UNCHANGED ds
SetTab(t) == IF ds.k = "wnd" THEN <<[op |-> "mkdf", o |-> "D", cols |-> WCols, rows |-> t], Set("A", <<Attr("data")>>, [ref |-> "D"])>> ELSE <<Set("A", <<"data">>, [arr |-> t])>>
Edit == "edit" \in Ops /\ n < K - 1 /\ tab' = [tab EXCEPT ![1][2] = Q(123, 4)] /\ tab' # tab /\ Do(SetTab(tab'))
More == "more" \in Ops /\ n < K - 1 /\ tab' = Append(tab, [c \in 1..Len(tab[1]) |-> Q(1000 + c, 1)]) /\ Do(SetTab(tab'))
Reread == "reread" \in Ops /\ n < K - 1 /\ tab' = Tab0(ds) /\ Do(<<Read("A", Path(ds, "a"))>> \o See("A", ds, Tab0(ds)))
WriteIt == /\ n < K /\ UNCHANGED tab
           /\ LET p == Path(ds, "b" \o Str(n)) q == Path(ds, "c") IN
              Do(<<Write("A", p)>> \o See("A", ds, tab) \o <<[op |-> "linesof", path |-> p, expect |-> RawLines(ds, tab), tol |-> Tol], Open("B", Cls(ds), p)>> \o See("B", ds, tab)
                 \o <<Write("B", q), [op |-> "same", a |-> p, b |-> q]>>)
Next == IF n = K - 1 THEN WriteIt ELSE Edit \/ More \/ Reread \/ (n < K - 1 /\ WriteIt)
\* every (point, component) has its own column and the columns are covered
Bijection == ds.k = "ts" => /\ \A p \in 1..ds.np, k \in 1..ds.nc : TNames(ds)[ColOf(ds, p, k)] = "Point0" \o Str(p) \o Comp[k]
                            /\ {ColOf(ds, p, k) : p \in 1..ds.np, k \in 1..ds.nc} = 2..(1 + ds.np * ds.nc)
Emit == (n = K) => PrintT(ToJson([ops |-> hist]))
=============================================================================
