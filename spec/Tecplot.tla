------------------------------ MODULE Tecplot ------------------------------
(***************************************************************************)
(* Tecplot text files: optional title, variable names (quoted or not, on   *)
(* one line or several), aux data, a zone line with several keys, then the *)
(* table.                                                                  *)
(***************************************************************************)
EXTENDS Base
CONSTANTS NVs, NRs, Names, Layouts, Heads, Ops, K
VARIABLES ds, val, n, hist
DataSets == [nv : NVs, nr : NRs, names : Names, lay : Layouts, head : Heads]
\* a name as given, and as seen (a unit in brackets gets an underscore)
Raw(d, j) == CASE d.names = "plain" -> "V" \o Str(j)
             [] d.names = "unit" -> IF j % 2 = 1 THEN "u" \o Str(j) \o "[m/s]" ELSE "Alpha_[deg]" \o Str(j)
             [] d.names = "blank" -> "Wind speed " \o Str(j)
             [] d.names = "odd" -> IF j % 2 = 1 THEN "a,b" \o Str(j) ELSE "R=" \o Str(j) \o "(m)"
SeenName(d, j) == CASE d.names = "unit" -> (IF j % 2 = 1 THEN "u" \o Str(j) \o "_[m/s]" ELSE "Alpha_[deg]" \o Str(j))
                  [] d.names = "odd" -> (IF j % 2 = 1 THEN "a,b" \o Str(j) ELSE "R=" \o Str(j) \o "_(m)")
                  [] OTHER -> Raw(d, j)
Quo(s) == "\"" \o s \o "\""
VarLines(d) == LET q == [j \in 1..d.nv |-> Quo(Raw(d, j))] IN
   CASE d.lay = "comma" -> <<"VARIABLES = " \o Join(q, ",")>>
   [] d.lay = "blank" -> <<"variables=" \o Join(q, " ")>>
   [] d.lay = "wide" -> <<"VARIABLES  =  " \o Join(q, " , ")>>
   [] d.lay = "lines" -> <<"VARIABLES = " \o q[1]>> \o [j \in 1..(d.nv - 1) |-> q[j + 1]]
   [] d.lay = "clines" -> [j \in 1..d.nv |-> (IF j = 1 THEN "VARIABLES = " ELSE "  ") \o q[j] \o (IF j < d.nv THEN "," ELSE "")]
   [] d.lay = "bare" -> <<"VARIABLES = " \o Join([j \in 1..d.nv |-> Raw(d, j)], ", ")>>
HasTitle(d) == d.head \in {"title", "all"}
HasZone(d) == d.head \in {"zone", "all"}
HasAux(d) == d.head \in {"aux", "all"}
Title == "\"Run 7, t=   15.5\""
Val(r, j) == LET q == Q(((r * 37 + j * 91) % 301) - 150, 8) IN IF j % 3 = 1 THEN OddE(r * 2 + j, q) ELSE IF j % 3 = 2 THEN Odd(r + j, q) ELSE q
Cell(q, j) == IF j % 3 = 0 THEN Dec(q) \o "E+01" ELSE IF j % 3 = 1 THEN Dec(q) ELSE Dec(q) \o "e0"
CellV(q, j) == IF j % 3 = 0 THEN QMul(q, Q(10, 1)) ELSE q
STab(d) == [r \in 1..d.nr |-> [j \in 1..d.nv |-> CellV(Val(r, j), j)]]
Lines(d) == (IF HasTitle(d) THEN <<"# made by hand", "TITLE     = " \o Title>> ELSE <<>>) \o VarLines(d)
   \o (IF HasAux(d) THEN <<"DATASETAUXDATA NORM_m.s=\"0.25E+03 \"", "DATASETAUXDATA Path = \"/a/b=c/\"", "datasetauxdata Stamp=\"01:35:32_19.02.2020\"">> ELSE <<>>)
   \o (IF HasZone(d) THEN <<"ZONE T=\"dom-7 a\"", " STRANDID=7, SOLUTIONTIME=15.4375", " I=" \o Str(d.nr) \o ", J=1, K=1, ZONETYPE=Ordered", " DATAPACKING=POINT", " DT=(SINGLE SINGLE )">> ELSE <<>>)
   \o (IF d.head = "all" THEN <<"", "# data">> ELSE <<>>)
   \o [r \in 1..d.nr |-> " " \o Join([j \in 1..d.nv |-> Cell(Val(r, j), j)], "  ")]
Cols(d) == [j \in 1..d.nv |-> SeenName(d, j)]
See(d, v, o) == <<DF(o, Table(Cols(d), v), "f8"), Get(o, <<"variables">>, Cols(d), "exact"), Get(o, <<"data">>, v, "f8"),
                  [op |-> "has", o |-> o, key |-> "title", expect |-> HasTitle(d)], [op |-> "has", o |-> o, key |-> "zone", expect |-> HasZone(d)], [op |-> "has", o |-> o, key |-> "datasetauxdata", expect |-> HasAux(d)]>>
   \o (IF HasTitle(d) THEN <<Get(o, <<"title">>, Title, "exact")>> ELSE <<>>)
   \o (IF HasAux(d) THEN <<Get(o, <<"datasetauxdata", "NORM_m.s">>, 250, "f8"), Get(o, <<"datasetauxdata", "Path">>, "/a/b=c/", "exact"), Get(o, <<"datasetauxdata", "Stamp">>, "01:35:32_19.02.2020", "exact")>> ELSE <<>>)
   \o (IF HasZone(d) THEN <<Get(o, <<"zone", "T">>, "dom-7 a", "exact"), Get(o, <<"zone", "STRANDID">>, 7, "f8"), Get(o, <<"zone", "SOLUTIONTIME">>, Q(247, 16), "f8"), Get(o, <<"zone", "I">>, d.nr, "f8"), Get(o, <<"zone", "J">>, 1, "f8"),
                         Get(o, <<"zone", "K">>, 1, "f8"), Get(o, <<"zone", "ZONETYPE">>, "Ordered", "exact"), Get(o, <<"zone", "DATAPACKING">>, "POINT", "exact"), Get(o, <<"zone", "DT">>, "(SINGLE SINGLE )", "exact")>> ELSE <<>>)
Ok(d) == d.lay = "bare" => d.names \in {"plain", "unit"}
Init == /\ ds \in {d \in DataSets : Ok(d)} /\ val = STab(ds) /\ n = 0
        /\ hist = <<MkText("a.dat", Lines(ds)), Open("A", "TecplotFile", "a.dat")>> \o See(ds, val, "A") \o <<DF("A", Table(Cols(ds), val), "f8"), [op |-> "repr", o |-> "A"]>>
\* numbers of every size and with all their digits survive
Edit == /\ "edit" \in Ops /\ n < K /\ n' = n + 1 /\ UNCHANGED ds
        /\ \E v \in {Q(1, 3), Q(-1234567, 1000), Q(1, 700000001), Q(2000000011, 3)} :
           /\ val' = [val EXCEPT ![ds.nr][ds.nv] = v]
           /\ hist' = hist \o <<Set("A", <<"data", [ix |-> <<ds.nr - 1, ds.nv - 1>>]>>, v)>> \o See(ds, val', "A")
WriteIt == /\ "write" \in Ops /\ n < K /\ n' = n + 1 /\ UNCHANGED <<ds, val>>
           /\ LET w == "w" \o Str(n) \o ".dat" IN
              hist' = hist \o <<Write("A", w)>> \o See(ds, val, "A") \o <<Open("B", "TecplotFile", w)>> \o See(ds, val, "B") \o <<Write("B", "v" \o w), [op |-> "same", a |-> w, b |-> "v" \o w]>>
Again == /\ "again" \in Ops /\ n < K /\ n' = n + 1 /\ UNCHANGED <<ds, val>>
         /\ hist' = hist \o <<Write("A", "r.dat"), [op |-> "read", o |-> "A"]>> \o See(ds, val, "A")
Another == /\ "another" \in Ops /\ n < K /\ n' = n + 1
           /\ \E e \in {x \in DataSets : Ok(x) /\ x.head # ds.head /\ x.nv # ds.nv /\ x.names = ds.names} :
              ds' = e /\ val' = STab(e) /\ hist' = hist \o <<MkText("b.dat", Lines(e)), Read("A", "b.dat")>> \o See(e, STab(e), "A")
Next == Edit \/ WriteIt \/ Again \/ Another
Emit == n = K => PrintT(ToJson([ops |-> hist]))
\* --- wide tables: a row stays on one line
BigInit == /\ ds \in DataSets /\ n = 0 /\ val = <<>>
           /\ hist = <<MkText("a.dat", Lines(ds)), Open("A", "TecplotFile", "a.dat"), Write("A", "w.dat"), Open("B", "TecplotFile", "w.dat"), DF("B", Table(Cols(ds), STab(ds)), "f8")>>
=============================================================================
