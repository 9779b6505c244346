----------------------------- MODULE FastInPar -----------------------------
(***************************************************************************)
(* OpenFAST input files as a sequence of lines: comments and parameters    *)
(* (value, name, description).  A client reads, looks values up, assigns   *)
(* them, writes and reads again; the model keeps the content of the object *)
(* and of the files.                                                       *)
(***************************************************************************)
EXTENDS Base
CONSTANTS Forms, Forms2, Descs, Seps, Labs, Edits, Nls, OpNames, K

VARIABLES ds, vals, n, hist
vars == <<ds, vals, n, hist>>

Ty(t, v) == [ty |-> t, v |-> v]
\* the ways a value is written on a line, and the value it stands for
VForm == <<
  [x |-> "True",   v |-> Ty("bool", TRUE)],   [x |-> "FALSE", v |-> Ty("bool", FALSE)], [x |-> "t", v |-> Ty("bool", TRUE)], [x |-> "F", v |-> Ty("bool", FALSE)],
  [x |-> "12",     v |-> Ty("int", 12)],      [x |-> "-3",    v |-> Ty("int", -3)],     [x |-> "+7", v |-> Ty("int", 7)],    [x |-> "0", v |-> Ty("int", 0)],
  [x |-> "1.5",    v |-> Ty("float", Q(3, 2))], [x |-> "-2.5E+03", v |-> Ty("float", Q(-2500, 1))], [x |-> "1e-3", v |-> Ty("float", Q(1, 1000))], [x |-> ".25", v |-> Ty("float", Q(1, 4))],
  [x |-> "4.",     v |-> Ty("float", Q(4, 1))],
  [x |-> "\"file.dat\"", v |-> Ty("str", "\"file.dat\"")], [x |-> "\"two words and a 3.dat\"", v |-> Ty("str", "\"two words and a 3.dat\"")], [x |-> "\"\"", v |-> Ty("str", "\"\"")],
  [x |-> "\"../a-b/c, d.dat\"", v |-> Ty("str", "\"../a-b/c, d.dat\"")],
  [x |-> "DEFAULT", v |-> Ty("str", "DEFAULT")], [x |-> "unused", v |-> Ty("str", "unused")],
  [x |-> "1, 2, 3", v |-> Ty("list", <<1, 2, 3>>)], [x |-> "1.5,2.5", v |-> Ty("list", <<Q(3, 2), Q(5, 2)>>)], [x |-> "True, False", v |-> Ty("list", <<TRUE, FALSE>>)],
  [x |-> "0.0,  10, 0.0,  10", v |-> Ty("list", <<0, 10, 0, 10>>)],
  [x |-> "10 !OLD: 5", v |-> Ty("int", 10)], [x |-> "10   20.5", v |-> Ty("int", 10)],
  [x |-> "1.234567891", v |-> Ty("float", QL(1234567891, 9))], [x |-> "-2.10000001E+11", v |-> Ty("float", QE(-210000001, 8, 11))], [x |-> "1987654321", v |-> Ty("int", 1987654321)],
  [x |-> "-1.23456789000E+11, 2.5", v |-> Ty("list", <<QE(-123456789, 8, 11), Q(5, 2)>>)], [x |-> "endless.dat", v |-> Ty("str", "endless.dat")], [x |-> "1, 11, 1, 111", v |-> Ty("list", <<1, 11, 1, 111>>)],
  [x |-> "f, T, false", v |-> Ty("list", <<FALSE, TRUE, FALSE>>)], [x |-> "-5.0E-05,-1,+3", v |-> Ty("list", <<QE(-5, 1, -4), -1, 3>>)], [x |-> "\"END of the road.dat\"", v |-> Ty("str", "\"END of the road.dat\"")] >>
\* values a client assigns
EVal == << Ty("bool", TRUE), Ty("bool", FALSE), Ty("int", 42), Ty("int", -1), Ty("float", Q(-5, 4)), Ty("float", Q(3000000, 1)), Ty("float", Q(1, 100000000)), Ty("str", "\"new name.dat\""), Ty("str", "default"),
           Ty("list", <<4, 5>>), Ty("list", <<Q(1, 2), Q(-7, 4), Q(9, 4)>>), Ty("int", 0), Ty("str", "\"\""), Ty("float", QL(1987654321, 9)), Ty("float", QE(-123456789, 8, -12)), Ty("int", 1987654321) >>
VLab  == << "TMax", "TwFAM1Sh(2)", "PtfmModel_2", "Out-File" >>
VLow  == << "tmax", "TWFAM1SH(2)", "ptfmmodel_2", "OUT-FILE" >>
VDesc == << " - Total run time (s)", "", "  Some text (switch) {0=none; 1=all}", " - with, commas - and dashes -- (m/s)", "   ! exclamation" >>
VSep  == << "  ", "\t", "            " >>
TwoVals(i) == VForm[i].x \in {"10   20.5"}

\* --- the file: line records; the two lines of interest are at places 4 and 9
Com(t) == [k |-> "c", t |-> t]
Par(x, lab, d, s, low) == [k |-> "p", t |-> s \o x \o s \o lab \o d, lab |-> lab, low |-> low]
\* names that begin or end like the names of interest
FillN == <<"TMaxOut", "Fill2", "TwFAM1Sh(22)", "Second_2", "xSecond", "TMa", "Out-File2">>
Fill(i) == Par(Str(100 + i), FillN[i], " - filler " \o Str(i), "   ", FillN[i])
TheLines(d) == << Com("------- OPENFAST EXAMPLE INPUT FILE -------------------"), Com("! note, in ~deg~ - 5 True"), Fill(1), Par(VForm[d.f1].x, VLab[d.l1], VDesc[d.d1], VSep[d.s1], VLow[d.l1]),
                  Fill(2), Fill(3), Com("---------------------- FEATURE SWITCHES, 1, 2 -----------"), Fill(4), Par(VForm[d.f2].x, "Second", VDesc[d.d1], VSep[1], "SECOND"), Fill(5), Com("====== End"), Fill(6), Fill(7) >>
PIdx == <<3, 4, 5, 6, 8, 9, 10, 12, 13>>
Val0(d) == [i \in 1..9 |-> CASE i = 2 -> VForm[d.f1].v [] i = 6 -> VForm[d.f2].v [] OTHER -> Ty("int", 100 + (IF i < 2 THEN 1 ELSE IF i < 6 THEN i - 1 ELSE i - 2))]
DataSets == [f1 : Forms, f2 : Forms2, d1 : Descs, s1 : Seps, l1 : Labs, nl : Nls]
OK(d) == /\ (TwoVals(d.f1) \/ TwoVals(d.f2)) => d.d1 \notin {4}
LF == "\n"
NL(d) == IF d.nl = 0 THEN "\n" ELSE "\r\n"

Keys(d) == [i \in 1..9 |-> TheLines(d)[PIdx[i]].lab]
Seen(o, d, v) == <<[op |-> "keys", o |-> o, expect |-> Keys(d)]>> \o [i \in 1..9 |-> Get(o, <<TheLines(d)[PIdx[i]].lab>>, v[i], "f8")]
                 \o <<Get(o, <<TheLines(d)[4].low>>, v[2], "f8"), Get(o, <<"SECOND">>, v[6], "f8")>>
\* what the written file shows: comments as they were, parameters in their place with their name
PNum(j) == CHOOSE i \in 1..9 : PIdx[i] = j
WLine(d, v, j) == IF TheLines(d)[j].k = "c" THEN [raw |-> TheLines(d)[j].t]
                  ELSE LET x == v[PNum(j)] IN
                       IF x.ty \in {"int", "float"} THEN [words |-> <<x.v, TheLines(d)[j].lab>>]
                       ELSE IF x.ty = "bool" THEN [words |-> <<Whatever, TheLines(d)[j].lab>>]
                       ELSE [has |-> TheLines(d)[j].lab]
Written(d, v) == [j \in 1..Len(TheLines(d)) |-> WLine(d, v, j)]

Init == /\ ds \in {d \in DataSets : OK(d)} /\ n = 0 /\ vals = Val0(ds)
        /\ hist = <<[op |-> "mktext", path |-> "a.dat", lines |-> [j \in 1..Len(TheLines(ds)) |-> TheLines(ds)[j].t], nl |-> NL(ds)], Open("A", "FASTInputFile", "a.dat")>> \o Seen("A", ds, vals)
On(s) == s \in OpNames /\ n < K
Do(ops) == hist' = hist \o ops /\ n' = n + 1 /\ UNCHANGED ds
Assign == On("set") /\ \E i \in {2, 6} : \E e \in Edits :
            /\ vals' = [vals EXCEPT ![i] = EVal[e]]
            /\ Do(<<Set("A", <<IF n % 2 = 0 THEN TheLines(ds)[PIdx[i]].lab ELSE TheLines(ds)[PIdx[i]].low>>, EVal[e].v)>> \o Seen("A", ds, vals'))
Unknown == On("unknown") /\ Do(<<[op |-> "set", o |-> "A", at |-> <<"NotThere">>, val |-> 1, err |-> "KeyError"], [op |-> "get", o |-> "A", at |-> <<"NotThere">>, expect |-> Whatever, err |-> "KeyError"]>> \o Seen("A", ds, vals)) /\ UNCHANGED vals
WriteRead == /\ On("write")
             /\ LET p == "b" \o Str(n) \o ".dat" IN
                Do(<<Write("A", p), [op |-> "linesof", path |-> p, expect |-> Written(ds, vals)]>> \o Seen("A", ds, vals) \o <<Open("B", "FASTInputFile", p)>> \o Seen("B", ds, vals)
                   \o <<Write("B", "c.dat"), Open("C", "FASTInputFile", "c.dat")>> \o Seen("C", ds, vals) \o <<[op |-> "same", a |-> p, b |-> "c.dat"]>>)
             /\ UNCHANGED vals
\* a second object of the same file is independent of the first
Reread == On("reread") /\ vals' = Val0(ds) /\ Do(<<[op |-> "read", o |-> "A", path |-> "a.dat"]>> \o Seen("A", ds, vals'))
Observe == On("observe") /\ Do(<<[op |-> "repr", o |-> "A"], [op |-> "listlabels", o |-> "A", expect |-> Keys(ds)], DF("A", [dfs |-> <<>>], "f8")>> \o Seen("A", ds, vals)) /\ UNCHANGED vals
\* the last operation of a history is a write, after which everything is looked at
Next == IF n = K - 1 THEN WriteRead ELSE Assign \/ Unknown \/ WriteRead \/ Reread \/ Observe
\* assigning touches one parameter only
OnlyTargets == \A i \in 1..9 : i \notin {2, 6} => vals[i] = Val0(ds)[i]
Emit == (n = K) => PrintT(ToJson([ops |-> hist]))
=============================================================================
