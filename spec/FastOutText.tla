---------------------------- MODULE FastOutText ----------------------------
(***************************************************************************)
(* OpenFAST text outputs (.out, .elev), and the two writers of tabular     *)
(* outputs: the text writer and writeDataFrame.  A text output is a header *)
(* of any number of lines, the line of names (first name: Time, any case), *)
(* the line of units in brackets, and one line per time step.              *)
(***************************************************************************)
EXTENDS Base
CONSTANTS NHs, NChs, NTs, Pats, Exts, Seps, Tails, Kinds, UnitForms

VARIABLES ds, phase, hist
vars == <<ds, phase, hist>>
Names == <<"Wind1VelX", "RotSpeed", "B1N1Alpha">>
Units == <<"m/s", "rpm", "deg">>
HeadLines == <<"Timeseries of the simulation (s) 0.5", "", "Predictions were generated on 01-Jan-2020 using OpenFAST", "linked with NWTC Library; timely data", "   ">>

DataSets == [kind : Kinds, nh : NHs, nch : NChs, nt : NTs, pat : Pats, ext : Exts, sep : Seps, tail : Tails, uf : UnitForms]
Val(d, t, c) == CASE d.pat = 0 -> Q(10 * t + c, 1)
                  [] d.pat = 1 -> Q((IF (t + c) % 2 = 0 THEN 1 ELSE -1) * (1000 * t + 125 * c), 8)
                  [] d.pat = 3 -> OddE(t * 4 + c + 1, Q(t * c, 8))
                  [] OTHER     -> Q(c * 12345 * (4 - t), 10)
TimeV(d, t)  == IF d.pat = 2 THEN Q(25 * (t - 1), 2000) ELSE IF d.pat = 1 THEN Q(5 * (t - 1), 10000) ELSE Q(t - 1, 4)
SepStr(d)    == CASE d.sep = 0 -> " " [] d.sep = 1 -> "\t" [] OTHER -> "     "
TimeName(d)  == IF d.uf = 1 THEN "TIME" ELSE IF d.uf = 2 THEN "time" ELSE "Time"
UTxt(d, u)   == IF d.uf = 1 THEN "[" \o u \o "]" ELSE "(" \o u \o ")"
TimeUnit(d)  == IF d.uf = 1 THEN "sec" ELSE "s"

\* --- text output
NameLine(d) == Join(<<TimeName(d)>> \o [c \in 1..d.nch |-> Names[c]], SepStr(d))
UnitLine(d) == Join(<<UTxt(d, TimeUnit(d))>> \o [c \in 1..d.nch |-> UTxt(d, Units[c])], SepStr(d))
DataLine(d, t) == Join(<<Dec4(TimeV(d, t))>> \o [c \in 1..d.nch |-> Dec(Val(d, t, c))], SepStr(d))
Lines(d) == [i \in 1..d.nh |-> HeadLines[i]] \o <<NameLine(d), UnitLine(d)>> \o [t \in 1..d.nt |-> DataLine(d, t)]
            \o (CASE d.tail = 0 -> <<>> [] d.tail = 1 -> <<"">> [] OTHER -> <<"", "This summary was closed">>)
Cols(d)  == <<TimeName(d) \o "_[s]">> \o [c \in 1..d.nch |-> Names[c] \o "_[" \o Units[c] \o "]"]
Rows(d)  == [t \in 1..d.nt |-> <<TimeV(d, t)>> \o [c \in 1..d.nch |-> Val(d, t, c)]]
\* the text writer keeps four decimals of the time (here exact) and four significant digits of the values
AfterWrite(d) == [t \in 1..d.nt |-> <<[v |-> TimeV(d, t), tol |-> AbsTol(Q(1, 1000000))]>>
                     \o [c \in 1..d.nch |-> [v |-> Val(d, t, c), tol |-> AbsRelTol(QE(1, 1, -19), Q(51, 100000))]]]
Path(d, s) == s \o (IF d.ext = 0 THEN ".out" ELSE ".elev")

\* --- writeDataFrame: a table with column names carrying units in various ways
DfCol(d, nm, u) == CASE d.uf = 0 -> nm \o "_[" \o u \o "]"
                     [] d.uf = 1 -> nm \o "_(" \o u \o ")"
                     [] d.uf = 2 -> nm \o " [" \o u \o "] "
                     [] OTHER    -> nm
MixForm(d, c) == IF d.uf = 4 THEN [d EXCEPT !.uf = (c % 2) * 3] ELSE d     \* with and without unit, alternating
DfUnit(d, c) == IF MixForm(d, c).uf = 3 THEN "" ELSE Units[c]
DfCols(d) == <<DfCol(IF d.uf = 4 THEN [d EXCEPT !.uf = 0] ELSE d, "Time", "s")>> \o [c \in 1..d.nch |-> DfCol(MixForm(d, c), Names[c], Units[c])]
NameUnit(d) == IF d.uf = 2 THEN [c \in 1..d.nch |-> Names[c]] ELSE [c \in 1..d.nch |-> Names[c]]
TUnit(d) == IF d.uf = 3 THEN "" ELSE "s"
Span(d, c) == LET vs == {Val(d, t, c).n : t \in 1..d.nt} IN (MaxOf(vs) - MinOf(vs)) \div Val(d, 1, c).d + 1
Within(d) == [t \in 1..d.nt |-> <<TimeV(d, t)>> \o [c \in 1..d.nch |->
                [v |-> Val(d, t, c), tol |-> AbsRelTol(Q(Span(d, c) + 1, 65535), Q(1, 4000000))]]]

Init == ds \in DataSets /\ phase = "none" /\ hist = <<>>
        /\ (ds.kind = "df" => ds.nh = 0 /\ ds.ext = 0 /\ ds.sep = 0 /\ ds.tail = 0)
        /\ (ds.kind = "text" => ds.uf < 3) /\ (ds.kind = "df" => ds.pat # 3)
Produce == /\ phase = "none" /\ phase' = "file"
           /\ hist' = IF ds.kind = "text" THEN <<MkText(Path(ds, "a"), Lines(ds))>>
                      ELSE <<[op |-> "mkdf", o |-> "D", cols |-> DfCols(ds), rows |-> Rows(ds)], New("W", "FASTOutputFile")>>
           /\ UNCHANGED ds
ReadIt  == /\ phase = "file" /\ ds.kind = "text" /\ phase' = "obj"
           /\ hist' = hist \o <<Open("A", "FASTOutputFile", Path(ds, "a")), DF("A", Table(Cols(ds), Rows(ds)), "f8")>>
           /\ UNCHANGED ds
Rewrite == /\ phase = "obj" /\ phase' = "done"
           /\ hist' = hist \o <<Write("A", Path(ds, "b")), DF("A", Table(Cols(ds), Rows(ds)), "f8"),
                  Open("B", "FASTOutputFile", Path(ds, "b")), DF("B", Table(Cols(ds), AfterWrite(ds)), "f8"),
                  Write("B", Path(ds, "c")), Open("C", "FASTOutputFile", Path(ds, "c")), DF("C", Table(Cols(ds), AfterWrite(ds)), "f8")>>
           /\ UNCHANGED ds
WriteDF == /\ phase = "file" /\ ds.kind = "df" /\ phase' = "done"
           /\ hist' = hist \o <<[op |-> "call", o |-> "W", m |-> "writeDataFrame", args |-> <<[ref |-> "D"], [path |-> "d.outb"]>>],
                  Open("B", "FASTOutputFile", "d.outb"),
                  Get("B", <<Attr("info"), "attribute_names">>, <<"Time">> \o NameUnit(ds), "exact"),
                  Get("B", <<Attr("info"), "attribute_units">>, <<TUnit(ds)>> \o [c \in 1..ds.nch |-> DfUnit(ds, c)], "exact"),
                  DF("B", [rows |-> Within(ds)], "f8")>>
           /\ UNCHANGED ds
Next == Produce \/ ReadIt \/ Rewrite \/ WriteDF
Emit == (phase = "done") => PrintT(ToJson([ops |-> hist]))
=============================================================================
