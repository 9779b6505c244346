----------------------------- MODULE FastInTab -----------------------------
(***************************************************************************)
(* Tables, lists of files and lists of outputs of OpenFAST input files.    *)
(* A file is parameters, one or two tables (each announced by a dimension  *)
(* parameter, with a line of names, a line of units and its rows), a list  *)
(* of airfoil files, and a list of outputs that ends the file.             *)
(***************************************************************************)
EXTENDS Base
CONSTANTS Kinds1, Kinds2, Ns, Pats, Coms, NFils, NOuts, Nodals, Gaps, OpNames, K

VARIABLES ds, tab, n, hist
vars == <<ds, tab, n, hist>>
\* h: column names, u: units, m: column types (n number, s string, b logical), lab: key, dim: dimension parameter, mix: mixed table, fix: fixed number of rows
Kd(h, u, m, lab, dim, mix, fix) == [h |-> h, u |-> u, m |-> m, lab |-> lab, dim |-> dim, mix |-> mix, fix |-> fix]
Kd0 == <<
 Kd(<<"JointID","JointXss","JointYss","JointZss">>, <<"-","m","m","m">>, "nnnn", "Joints", "NJoints", FALSE, 0),
 Kd(<<"MemberID","MJointID1","MJointID2","PropPot">>, <<"-","-","-","flag">>, "nnns", "Members", "NMembers", TRUE, 0),
 Kd(<<"AxCoefID","AxCd","AxCa">>, <<"-","-","-">>, "nnn", "AxCoefs", "NAxCoef", FALSE, 0),
 Kd(<<"SimplCd","SimplCdMG","SimplCa">>, <<"-","-","-">>, "nnn", "SmplProp", "none", FALSE, 1),
 Kd(<<"Dpth","DpthCd","DpthCdMG">>, <<"m","-","-">>, "nnn", "DpthProp", "NCoefDpth", FALSE, 0),
 Kd(<<"MemberID","MemberCd1","MemberCd2">>, <<"-","-","-">>, "nnn", "MemberProp", "NCoefMembers", FALSE, 0),
 Kd(<<"FillNumM","FillMList","FillFSLoc">>, <<"-","-","m">>, "nnn", "FillGroups", "NFillGroups", FALSE, 0),
 Kd(<<"MGDpth","MGThck","MGDens">>, <<"m","m","kg/m^3">>, "nnn", "MGProp", "NMGDepths", FALSE, 0),
 Kd(<<"PropSetID","PropD","PropThck">>, <<"-","m","m">>, "nnn", "SectionProp", "NPropSets", FALSE, 0),
 Kd(<<"RJointID","RctTDXss","SSIfile">>, <<"-","flag","string">>, "nns", "BaseJoints", "NReact", TRUE, 0),
 Kd(<<"IJointID","ItfTDXss","ItfTDYss">>, <<"-","flag","flag">>, "nnb", "InterfaceJoints", "NInterf", FALSE, 0),
 Kd(<<"PropSetID","YoungE","ShearG","MatDens">>, <<"-","N/m2","N/m2","kg/m3">>, "nnnn", "BeamProp", "NPropSets", FALSE, 0),
 Kd(<<"PropSetID","EA","MatDens","T0">>, <<"-","N","kg/m","N">>, "nnnn", "CableProp", "NCablePropSets", FALSE, 0),
 Kd(<<"PropSetID","MatDens">>, <<"-","kg/m">>, "nn", "RigidProp", "NRigidPropSets", FALSE, 0),
 Kd(<<"COSMID","COSM11","COSM12">>, <<"-","-","-">>, "nnn", "MemberCosineMatrix", "NCOSMs", FALSE, 0),
 Kd(<<"CMJointID","JMass","JMXX">>, <<"-","kg","kg m^2">>, "nnn", "ConcentratedMasses", "NCmass", FALSE, 0),
 Kd(<<"MemberID","NOutCnt","NodeCnt">>, <<"-","-","-">>, "nnn", "MemberOuts", "NMOutputs", FALSE, 0),
 Kd(<<"HtFract","TMassDen","TwFAStif">>, <<"-","kg/m","Nm^2">>, "nnn", "TowProp", "NTwInpSt", FALSE, 0),
 Kd(<<"GenSpd_TLU","GenTrq_TLU">>, <<"rpm","Nm">>, "nn", "DLLProp", "DLL_NumTrq", FALSE, 0),
 Kd(<<"WndSpeed","ShearExp","RotSpd">>, <<"m/s","-","rpm">>, "nnn", "Cases", "NumCases", FALSE, 0),
 Kd(<<"X","F_X","Y","F_Y">>, <<"m","N","m","N">>, "nnnn", "TMDspProp", "NKInpSt", FALSE, 0),
 Kd(<<"LineType","Diam","MassDenInAir","EA">>, <<"-","m","kg/m","N">>, "snnn", "LineTypes", "NTypes", TRUE, 0),
 Kd(<<"Node","Type","X","Y">>, <<"-","-","m","m">>, "nsnn", "ConnectionProp", "NConnects", TRUE, 0),
 Kd(<<"Line","LineType","UnstrLen","Flags">>, <<"-","-","m","-">>, "nsns", "LineProp", "NLines", TRUE, 0),
 Kd(<<"WT_X","WT_Y","WT_FASTInFile">>, <<"m","m","string">>, "nns", "WindTurbines", "NumTurbines", TRUE, 0),
 Kd(<<"TwrElev","TwrDiam","TwrCd">>, <<"m","m","-">>, "nnn", "TowProp", "NumTwrNds", FALSE, 0),
 Kd(<<"HvCoefID","HvCd","HvCa">>, <<"-","-","-">>, "nnn", "HvCoefs", "NHvCoef", FALSE, 0),
 Kd(<<"MemberID","MJointID1","MJointID2","MType">>, <<"-","-","-","-">>, "nnnn", "Members", "NMembers", TRUE, 0),
 Kd(<<"PropSetID","YoungE","ShearG","XsecA">>, <<"-","N/m2","N/m2","m2">>, "nnnn", "BeamPropX", "NXPropSets", FALSE, 0),
 Kd(<<"BlFract","PitchAxis","StrcTwst","BMassDen">>, <<"-","-","deg","kg/m">>, "nnnn", "BldProp", "NBlInpSt", FALSE, 0),
 Kd(<<"BlSpn","BlCrvAC","BlSwpAC","BlCrvAng","BlTwist","BlChord","BlAFID">>, <<"m","m","m","deg","deg","m","-">>, "nnnnnnn", "BldAeroNodes", "NumBlNds", FALSE, 0) >>
\* MemberID MJointID1 with plain numbers is read as numbers
X(k) == Kd0[k]
NC(k) == Len(X(k).h)
\* (TLC has no indexing into strings)
TyOf(k, c) == CASE X(k).m = "nnns" -> <<"n","n","n","s">>[c] [] X(k).m = "nns" -> <<"n","n","s">>[c] [] X(k).m = "nnb" -> <<"n","n","b">>[c]
                [] X(k).m = "snnn" -> <<"s","n","n","n">>[c] [] X(k).m = "nsnn" -> <<"n","s","n","n">>[c] [] X(k).m = "nsns" -> <<"n","s","n","s">>[c] [] OTHER -> "n"
HasStr(k) == \E c \in 1..NC(k) : TyOf(k, c) = "s"
Pair(a, b) == b = 0 \/ (a # b /\ X(a).dim # X(b).dim /\ X(a).lab # X(b).lab /\ (b = 29 => a = 12) /\ ~(a = 29 /\ b = 12) /\ ~(a \in {12, 29} /\ b = 9)
                        /\ ~(a \in {2, 28} /\ b \in {2, 28}))
Special(k) == k \in {30, 31}
DataSets == {d \in [k1 : Kinds1, k2 : Kinds2 \cup {0}, n1 : Ns, n2 : Ns, pat : Pats, com : Coms, nf : NFils, no : NOuts, nod : Nodals, gap : Gaps] :
               /\ Pair(d.k1, d.k2) /\ (d.k1 = 29 => d.k2 = 12) /\ (X(d.k1).fix > 0 => d.n1 = X(d.k1).fix)
               /\ (d.k2 = 0 => d.n2 = MinOf(Ns)) /\ (d.k2 # 0 => (X(d.k2).fix > 0 => d.n2 = X(d.k2).fix))
               /\ (d.no = 0 => d.nod = 0) /\ (Special(d.k1) => d.k2 = 0)
               /\ (d.pat = 3 => HasStr(d.k1) /\ d.n1 > 1 /\ d.k2 = 0)
               /\ (d.com = 3 => 16 \notin {d.k1, d.k2}) /\ (d.com \in {5, 6} => X(d.k1).mix /\ d.n1 > 0 /\ d.k2 = 0) /\ (d.com = 6 => d.k1 # 28)}
\* --- contents: cells as the text in the file and the value it stands for
NumQ(d, k, r, c) == CASE d.pat = 0 -> Q(100 * k + 10 * r + c, 1)
                      [] d.pat = 1 -> OddE(3 * r + c + k, Q((IF (r + c) % 2 = 0 THEN 1 ELSE -1) * (1000 * r + 10 * k + c), 8))
                      [] OTHER     -> IF c % 2 = 0 THEN Q(r + c, 1) ELSE Q(12345 * r + c, 10)
BlSpan(d, k, r, c) == IF Special(k) /\ c = 1 THEN Q(r - 1, 4) ELSE NumQ(d, k, r, c)
\* (pattern 3: the words of the first row look like numbers)
Cell(d, k, r, c) == CASE TyOf(k, c) = "s" /\ d.pat = 3 /\ r = 1 -> [x |-> "7", q |-> Q(7, 1)]
                      [] TyOf(k, c) = "s" -> [x |-> "str" \o Str(r) \o "_" \o Str(c), q |-> Q(0, 1)]
                      [] TyOf(k, c) = "b" -> [x |-> <<"TRUE", "False", "PRINT", "NoPrint", "true", "FALSE">>[((r + d.pat * 2 - 1) % 6) + 1], q |-> <<1, 0, 1, 0, 1, 0>>[((r + d.pat * 2 - 1) % 6) + 1]]
                      [] OTHER -> [x |-> Dec(BlSpan(d, k, r, c)), q |-> BlSpan(d, k, r, c)]
\* the cells of a row: as many as there are names (com = 5: one more, com = 6: one less, in mixed tables)
NR(d, k) == IF d.com = 5 THEN NC(k) + 1 ELSE IF d.com = 6 THEN NC(k) - 1 ELSE NC(k)
CellX(d, k, r, c) == IF c > NC(k) THEN "x" \o Str(r) ELSE Cell(d, k, r, c).x
RowTxt(d, k, r) == "   " \o Join([c \in 1..NR(d, k) |-> CellX(d, k, r, c)], IF d.com = 1 THEN "\t" ELSE "   ") \o (IF d.com = 2 THEN "   ! row " \o Str(r) ELSE "")
HdrTxt(d, k) == Join([c \in 1..NC(k) |-> X(k).h[c]], IF d.com = 1 THEN "\t" ELSE "    ")
UntTxt(d, k) == Join([c \in 1..NC(k) |-> IF d.com = 4 THEN "[" \o X(k).u[c] \o "]" ELSE IF d.com = 3 /\ c % 2 = 0 THEN X(k).u[c] ELSE "(" \o X(k).u[c] \o ")"], IF d.com = 1 THEN "\t" ELSE "    ")
TabLines(d, k, nr) == <<"---------------------- TABLE OF " \o X(k).lab \o " --------">>
                  \o (IF X(k).fix > 0 THEN <<>> ELSE <<"   " \o Str(nr) \o "   " \o X(k).dim \o "   - Number of rows (-)">>)
                  \o (IF d.gap = 1 THEN <<"   12.5   Between" \o Str(k) \o "   - A parameter between">> ELSE <<>>)
                  \o <<HdrTxt(d, k), UntTxt(d, k)>> \o [r \in 1..nr |-> RowTxt(d, k, r)]
FilNames(d) == IF d.com = 2 THEN <<"\"air foils/a b.dat\"", "\"c d.dat\"", "\"e.dat\"">> ELSE <<"\"a.dat\"", "\"dir/b.dat\"", "\"../c.dat\"">>
FilLines(d) == IF d.nf = 0 THEN <<>> ELSE IF d.nf = 9 THEN <<"   0   NumAFfiles   - Number of airfoil files used (-)", "\"none\"   AFNames   - Airfoil file names (NumAFfiles lines) (quoted strings)">> ELSE <<"   " \o Str(d.nf) \o "   NumAFfiles   - Number of airfoil files used (-)">>
                  \o [i \in 1..d.nf |-> IF i = 1 THEN FilNames(d)[1] \o "   AFNames   - Airfoil file names (NumAFfiles lines) (quoted strings)" ELSE FilNames(d)[i] \o (IF d.com = 1 THEN "  - file" ELSE "")]
OutTxt(i) == <<"\"RotSpeed\"", "\"GenPwr\"                  - power, and torque, at the END", "   \"TwHt1ALxt, TwHt2ALxt\"", "RootBendM1">>[i]
EndLine == "END of input file (the word \"END\" must appear in the first 3 columns of this last OutList line)"
OutLines(d) == IF d.no = 0 THEN <<>> ELSE <<"              OutList     - The next line(s) contains a list of output parameters.  See OutListParameters.xlsx for a listing of available output channels, (-)">>
                  \o [i \in 1..(d.no - 1) |-> OutTxt(i)] \o <<EndLine>>
                  \o (IF d.nod = 0 THEN <<"---------------------------------------------------------------------------------------">>
                      ELSE <<"====== Outputs for all blade stations ======", "    1   BldNd_BladesOut   - Number of blades (-)", "  \"All\"   BldNd_BlOutNd   - Future feature (-)",
                             "              OutList     - The next line(s) contains a list of output parameters.  See OutListParameters.xlsx for a listing of available output channels, (-)">>
                           \o [i \in 1..d.nod |-> OutTxt(5 - i)] \o <<EndLine, "---------------------------------------------------------------------------------------">>)
EdPars == <<"BldFl1Sh", "BldFl2Sh", "BldEdgSh">>
ShapeCoef(i, p) == Q((i + p) % 4, 2)
Tail0(d) == IF d.k1 = 30 THEN Flatten([i \in 1..3 |-> [p \in 1..5 |-> "   " \o Dec(ShapeCoef(i, p)) \o "   " \o EdPars[i] \o "(" \o Str(p + 1) \o ")   - coefficient"]]) ELSE <<>>
Pre0 == <<"------- EXAMPLE FILE WITH TABLES ------------------------------", "! an example of a comment", "   0.25   DT   - Time step (s)", "True   Echo   - Echo input (flag)", "   3   Method   - Integration method (switch)", "\"unused\"   OutFile  - Name", "  1.0  Scale  - A scale (-)">>
Lines(d) == Pre0 \o TabLines(d, d.k1, d.n1) \o <<"   7    Mid1   - A parameter", "   8    Mid2   - A parameter">> \o (IF d.k2 = 0 THEN <<>> ELSE TabLines(d, d.k2, d.n2)) \o <<"   9   Late1   - A parameter", "   9.5   Late2   - A parameter">> \o Tail0(d) \o FilLines(d) \o OutLines(d)

\* --- the object: tables as rows of cell values (numbers, or words when the table holds words)
HasWords(d, k) == d.com = 5 \/ (\E c \in 1..MinOf({NC(k), NR(d, k)}) : TyOf(k, c) = "s")
Init1(d, k, nr) == [r \in 1..nr |-> [c \in 1..NR(d, k) |-> IF HasWords(d, k) THEN CellX(d, k, r, c) ELSE Cell(d, k, r, c).q]]
Tb0(d) == [a |-> Init1(d, d.k1, d.n1), b |-> IF d.k2 = 0 THEN <<>> ELSE Init1(d, d.k2, d.n2)]
Tol == [rel |-> Q(1, 100000000), abs |-> 0]
TolS == [rel |-> Q(1, 100000000), abs |-> Q(1, 1000000000)]
ColN(d, k) == [c \in 1..NR(d, k) |-> IF c > NC(k) THEN "Col_[Col]" ELSE X(k).h[c] \o "_[" \o X(k).u[c] \o "]"]
TabSeen(o, d, k, t) == <<Shape(o, <<X(k).lab>>, <<Len(t), NR(d, k)>>), Get(o, <<X(k).lab>>, t, Tol)>>
                    \o (IF X(k).fix > 0 THEN <<>> ELSE <<Get(o, <<X(k).dim>>, Len(t), "exact")>>)
DfOf(d, k, t) == Table(ColN(d, k), t) @@ [pre |-> IF Special(k) THEN 1 ELSE 0]
Frames(d, tb) == IF d.k2 = 0 THEN DfOf(d, d.k1, tb.a) ELSE [dfs |-> <<<<X(d.k1).lab, DfOf(d, d.k1, tb.a)>>, <<X(d.k2).lab, DfOf(d, d.k2, tb.b)>>>>]
Pow(q, p) == IF p = 2 THEN QMul(q, q) ELSE IF p = 3 THEN QMul(q, QMul(q, q)) ELSE IF p = 4 THEN QMul(QMul(q, q), QMul(q, q)) ELSE IF p = 5 THEN QMul(q, QMul(QMul(q, q), QMul(q, q))) ELSE QMul(QMul(q, q), QMul(QMul(q, q), QMul(q, q)))
\* mode shapes of a blade at the stations (BlFract in quarters)
Mode0(t, i) == [r \in 1..Len(t) |-> LET x4 == t[r][1] IN QNorm(QAdd(QNorm(QAdd(QNorm(QAdd(QNorm(QAdd(QNorm(QMul(ShapeCoef(i, 1), QNorm(Pow(x4, 2)))), QNorm(QMul(ShapeCoef(i, 2), QNorm(Pow(x4, 3)))))), QNorm(QMul(ShapeCoef(i, 3), QNorm(Pow(x4, 4)))))), QNorm(QMul(ShapeCoef(i, 4), QNorm(Pow(x4, 5)))))), QNorm(QMul(ShapeCoef(i, 5), QNorm(Pow(x4, 6))))))]
Shapes(o, d, t) == IF d.k1 # 30 THEN <<>> ELSE
   <<Get(o, <<[c |-> "toDataFrame"], "ShapeFlap1_[-]">>, Mode0(t, 1), TolS), Get(o, <<[c |-> "toDataFrame"], "ShapeFlap2_[-]">>, Mode0(t, 2), TolS), Get(o, <<[c |-> "toDataFrame"], "ShapeEdge1_[-]">>, Mode0(t, 3), TolS)>>
Plain(o, d) == <<Get(o, <<"DT">>, Q(1, 4), "f8"), Get(o, <<"Echo">>, TRUE, "f8"), Get(o, <<"Method">>, 3, "f8"), Get(o, <<"OutFile">>, "\"unused\"", "f8"), Get(o, <<"Mid1">>, 7, "f8"), Get(o, <<"Mid2">>, 8, "f8"),
                 Get(o, <<"Late1">>, 9, "f8"), Get(o, <<"Late2">>, Q(19, 2), "f8")>>
               \o (IF d.gap = 1 THEN <<Get(o, <<"Between" \o Str(d.k1)>>, Q(25, 2), "f8")>> ELSE <<>>)
               \o (IF d.nf = 0 THEN <<>> ELSE IF d.nf = 9 THEN <<Get(o, <<"NumAFfiles">>, 0, "exact"), Get(o, <<"AFNames">>, "\"none\"", "exact")>> ELSE <<Get(o, <<"AFNames">>, [i \in 1..d.nf |-> FilNames(d)[i]], "exact"), Get(o, <<"NumAFfiles">>, d.nf, "exact")>>)
               \o (IF d.no = 0 THEN <<>> ELSE <<Get(o, <<"OutList">>, <<"">> \o [i \in 1..(d.no - 1) |-> OutTxt(i)], "exact")>>)
               \o (IF d.nod = 0 THEN <<>> ELSE <<Get(o, <<"OutList_Nodal">>, <<"">> \o [i \in 1..d.nod |-> OutTxt(5 - i)], "exact"), Get(o, <<"BldNd_BladesOut">>, 1, "exact")>>)
Seen(o, d, tb) == TabSeen(o, d, d.k1, tb.a) \o (IF d.k2 = 0 THEN <<>> ELSE TabSeen(o, d, d.k2, tb.b)) \o Plain(o, d) \o <<DF(o, Frames(d, tb), Tol)>> \o Shapes(o, d, tb.a)

Init == /\ ds \in DataSets /\ n = 0 /\ tab = Tb0(ds)
        /\ hist = <<MkText("a.dat", Lines(ds)), Open("A", "FASTInputFile", "a.dat")>> \o Seen("A", ds, tab)
On(s) == s \in OpNames /\ n < K
Do(ops) == hist' = hist \o ops /\ n' = n + 1 /\ UNCHANGED ds
Third == Q(1, 3)
Big   == Q(123456789, 100)
EditV == IF n % 2 = 0 THEN Third ELSE Big
\* change one cell of the first table
EditCell == On("cell") /\ Len(tab.a) > 0 /\ \E r \in {1, Len(tab.a)} : \E c \in {2, NR(ds, ds.k1)} :
            LET v == IF HasWords(ds, ds.k1) THEN "edited" ELSE EditV
                t == [tab EXCEPT !.a[r][c] = v]
            IN  /\ tab' = t /\ Do(<<Set("A", <<X(ds.k1).lab, [ix |-> <<r - 1, c - 1>>]>>, v)>> \o (IF Special(ds.k1) THEN <<Get("A", <<X(ds.k1).lab>>, t.a, Tol)>> ELSE Seen("A", ds, t)))
\* replace a table by one with more or fewer rows, and say so in its dimension parameter (blade files do that by themselves when written)
Resize == On("resize") /\ ~HasStr(ds.k1) /\ X(ds.k1).fix = 0 /\ \E nr \in {0, 1, Len(tab.a) + 1} :
            LET rows == [r \in 1..nr |-> [c \in 1..NC(ds.k1) |-> IF Special(ds.k1) /\ c = 1 THEN Q(r - 1, 2) ELSE Q(50 * r - 7 * c, 4)]]
                t == [tab EXCEPT !.a = rows]
            IN  /\ (Special(ds.k1) => nr > 0)
                /\ nr # Len(tab.a) /\ nr > 0 /\ tab' = t
                /\ Do(<<Set("A", <<X(ds.k1).lab>>, [arr |-> rows])>> \o (IF Special(ds.k1) THEN <<>> ELSE <<Set("A", <<X(ds.k1).dim>>, nr)>> \o Seen("A", ds, t)))
WriteRead == /\ On("write")
             /\ LET p == "b" \o Str(n) \o ".dat" IN
                Do(<<Write("A", p)>> \o Seen("A", ds, tab) \o <<Open("B", "FASTInputFile", p)>> \o Seen("B", ds, tab)
                   \o <<Write("B", "c.dat"), Open("C", "FASTInputFile", "c.dat")>> \o Seen("C", ds, tab) \o <<[op |-> "same", a |-> p, b |-> "c.dat"]>>)
             /\ UNCHANGED tab
Reread == On("reread") /\ tab' = Tb0(ds) /\ Do(<<[op |-> "read", o |-> "A", path |-> "a.dat"]>> \o Seen("A", ds, tab'))
Next == IF n = K - 1 THEN WriteRead ELSE EditCell \/ Resize \/ WriteRead \/ Reread
Rect == \A r \in 1..Len(tab.a) : Len(tab.a[r]) = NR(ds, ds.k1)
Emit == (n = K) => PrintT(ToJson([ops |-> hist]))
=============================================================================
