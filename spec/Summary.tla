------------------------------ MODULE Summary ------------------------------
(***************************************************************************)
(* SubDyn summary files (a subset of yaml): scalars, lists of lists; the   *)
(* degrees of freedom of the nodes are retained, internal or fixed, the    *)
(* modes (Guyan and Craig-Bampton) are given per retained/internal degree  *)
(* of freedom.  The mode tables give the displacement of each node.        *)
(***************************************************************************)
EXTENDS Graph
CONSTANTS NNs, Bs, Fs, NCBs, D2Ns, Joints, Ops2
VARIABLES da, db, ha
\* da, db: the summaries two objects hold
DS == [nn : NNs, b : Bs, f : Fs, ncb : NCBs, d2n : D2Ns, joint : Joints, salt : {0}]
Valid(d) == d.b <= d.nn /\ d.f <= d.nn /\ d.f # d.b /\ d.nn - (IF d.f = 0 THEN 1 ELSE 2) >= 1
\* --- nodes: z distinct, in no particular order
\* (the longest extent may be along any axis)
NPos(d, i) == <<IF d.b = 2 THEN Q((i * 45) % 63, 1) ELSE Q((i * 5) % 7, 2), Q((IF d.b = 3 THEN -20 * i ELSE -i) + d.salt, 1), Q(((i * 4 + d.salt) % 11) * 2 - 9, 1)>>
NDof(d, i) == IF d.joint = i THEN 7 ELSE 6
RECURSIVE DofsUpTo(_, _)
DofsUpTo(d, i) == IF i = 0 THEN <<>> ELSE DofsUpTo(d, i - 1) \o [k \in 1..NDof(d, i) |-> <<i, NDof(d, i), k>>]
PhiM(d, k, m) == ((k * 5 + m * 3 + k * k + d.salt) % 7) - 3
\* (the second mode may be small)
PhiQ(d, k, m) == Q(PhiM(d, k, m), IF m = 2 /\ d.d2n = 4 THEN 1000 ELSE 1)
PhiR(d, k, m) == ((k * 3 + m * m + d.salt) % 5) - 2
PosIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Abs(x) == IF x < 0 THEN -x ELSE x
Size(d) == LET e == Ext([i \in 1..d.nn |-> [p |-> NPos(d, i)]])[3] IN QMax({e[1], e[2], e[3]})
\* everything that follows from the sizes, computed once: degrees of freedom, their roles, translations of the nodes in the modes
Full(d) ==
  LET dofs == TLCEval(DofsUpTo(d, d.nn))
      ix(T(_)) == SelectSeq([i \in 1..Len(dofs) |-> i], LAMBDA i : T(dofs[i]))
      b == TLCEval(ix(LAMBDA x : x[1] = d.b))
      f == TLCEval(ix(LAMBDA x : x[1] = d.f))
      l == TLCEval(ix(LAMBDA x : x[1] # d.f /\ x[1] # d.b))
      no == TLCEval([i \in 1..d.nn |-> [c \in 1..3 |-> CHOOSE j \in 1..Len(dofs) : dofs[j][1] = i /\ dofs[j][3] = c]])
      cb(j, m) == IF j \in Rng(l) THEN PhiM(d, PosIn(l, j), m) ELSE 0
      gy(j, m) == IF j \in Rng(b) THEN (IF PosIn(b, j) = m THEN 1 ELSE 0) ELSE IF j \in Rng(l) THEN PhiR(d, PosIn(l, j), m) ELSE 0
      rawC == TLCEval([m \in 1..d.ncb |-> [i \in 1..d.nn |-> [c \in 1..3 |-> cb(no[i][c], m)]]])
      rawG == TLCEval([m \in 1..Len(b) |-> [i \in 1..d.nn |-> [c \in 1..3 |-> gy(no[i][c], m)]]])
      size == TLCEval(Size(d))
      \* the largest displacement of a mode is a tenth of the size of the structure
      scale(raw) == [m \in 1..Len(raw) |-> LET pk == MaxOf({Abs(raw[m][i][c]) : i \in 1..d.nn, c \in 1..3}) IN
                      [i \in 1..d.nn |-> [c \in 1..3 |-> LET v == raw[m][i][c] IN IF v = 0 \/ pk = 0 THEN Q(v, 1) ELSE QNorm(QMul(Q(v, pk * 10), size))]]]
  IN d @@ [dofs |-> dofs, B |-> b, F |-> f, L |-> l, rawC |-> rawC, rawG |-> rawG, dispC |-> TLCEval(scale(rawC)), dispG |-> TLCEval(scale(rawG))]
Dofs(d) == d.dofs
B(d) == d.B
F(d) == d.F
L(d) == d.L
IxSeq(d, T(_)) == SelectSeq([i \in 1..Len(d.dofs) |-> i], LAMBDA i : T(d.dofs[i]))
Raw(d, w, i, c, m) == IF w = "CB" THEN d.rawC[m][i][c] ELSE d.rawG[m][i][c]
Disp(d, w, i, c, m) == IF w = "CB" THEN d.dispC[m][i][c] ELSE d.dispG[m][i][c]
NModes(d, w) == IF w = "CB" THEN d.ncb ELSE Len(B(d))
\* --- the file
N(x) == Str(x)
Row(cells) == "  - [" \o Join([i \in 1..Len(cells) |-> "   " \o cells[i]], ",") \o ",]"
IntRow(s) == IF s = <<>> THEN "  - [ ]" ELSE Row([i \in 1..Len(s) |-> Str(s[i])])
Freq(m) == Q(3 * m + 1, 4)
Lines(d) == <<"", "#This summary file was generated by SubDyn  on 21-Jul-2020 at 21:06:35.", "", "#Unless specified, units are consistent with Input units.",
   "nNodes  :       " \o Str(d.nn) \o " # Number of Nodes: total   (I+C+L)", "nDOF_red:      " \o Str(Len(Dofs(d))) \o " # Number of DOFs: total", "Title  : a text, 1.5", "Stamp: 21:06:35", "Ratio:  -2.5E+01 # ratio: of things", "",
   "DOF___B: # 1 x n all         retained  DOFs", IntRow(B(d)), "DOF___F: # fixed", IntRow(F(d)), "DOF___L: # internal", IntRow(L(d)), "", "#Index map from DOF to nodes", "DOF2Nodes: # n x 3 (nDOFRed x 3)">>
   \o [j \in 1..Len(Dofs(d)) |-> Row([k \in 1..d.d2n |-> Str((IF d.d2n = 4 THEN <<j>> \o Dofs(d)[j] ELSE Dofs(d)[j])[k])]) \o " # " \o Str(j)]
   \o <<"#     Node_[#]          X_[m]", "Nodes: # n x 9">> \o [i \in 1..d.nn |-> Row(<<Str(i) \o ".", Dec(NPos(d, i)[1]), Dec(NPos(d, i)[2]), Dec(NPos(d, i)[3]), (IF d.joint = i THEN "3." ELSE "1."), "0.000000E+00", "0.100000E+01", "0.0", "0.100000E+03">>)]
   \o <<"Elements: # n x 16">> \o [i \in 1..(d.nn - 1) |-> Row(<<Str(i) \o ".", Str(i) \o ".", Str(i + 1) \o ".", "1.", "2.", "1.", "5.000", Dec(Q(i, 8)), "7850.000", "0.210000E+10", "0.807690E+06", "0.5", "0.25", "0.25", "0.5", "0.0">>)]
   \o <<"CB_frequencies: # 1 x n", Row([m \in 1..d.ncb |-> Dec(Freq(m))])>>
   \o <<"PhiM: # modes">> \o [k \in 1..Len(L(d)) |-> Row([m \in 1..d.ncb |-> LET v == PhiQ(d, k, m) IN IF v.d = 1 THEN Str(v.n) \o (IF k = 1 THEN "" ELSE ".0") ELSE Dec(v)])]
   \o <<"PhiR:">> \o [k \in 1..Len(L(d)) |-> Row([m \in 1..Len(B(d)) |-> Str(PhiR(d, k, m)) \o ".00"])]
   \o <<"Mix: # integers first", "  - [ 1, 2, ]", "  - [ 0.5, -2.5E1, ]">>
   \o (IF d.f = 0 THEN <<"OnlyFree: 3">> ELSE <<>>)
\* --- what must be seen
ZOrder(d) == [k \in 1..d.nn |-> CHOOSE i \in 1..d.nn : Cardinality({j \in 1..d.nn : QLe(NPos(d, j)[3], NPos(d, i)[3])}) = k]
Modes(d, w, ord) == [k \in 1..d.nn |-> [c \in 1..3 |-> [m \in 1..NModes(d, w) |-> Disp(d, w, ord[k], c, m)]]]
Ax == <<"x", "y", "z">>
AllCols(d, w) == Flatten([m \in 1..NModes(d, w) |-> [c \in 1..3 |-> <<m, c>>]])
UsedCols(d, w) == SelectSeq(AllCols(d, w), LAMBDA mc : \E i \in 1..d.nn : Raw(d, w, i, mc[2], mc[1]) # 0)
ColNames(d, w, pre, what) == LET u == UsedCols(d, w) IN [j \in 1..Len(u) |-> pre \o what \o Str(u[j][1]) \o Ax[u[j][2]] \o "_[m]"]
Cells(d, w, i, tot) == LET u == UsedCols(d, w) IN [j \in 1..Len(u) |-> LET x == Disp(d, w, i, u[j][2], u[j][1]) IN IF tot THEN QNorm(QAdd(NPos(d, i)[u[j][2]], x)) ELSE x]
Tbl(d) == Table(<<"z_[m]", "x_[m]", "y_[m]">> \o ColNames(d, "GY", "Guyan", "Mode") \o ColNames(d, "CB", "CB", "Mode") \o ColNames(d, "GY", "Guyan", "Disp") \o ColNames(d, "CB", "CB", "Disp"),
   [k \in 1..d.nn |-> LET i == ZOrder(d)[k] IN <<NPos(d, i)[3], NPos(d, i)[1], NPos(d, i)[2]>> \o Cells(d, "GY", i, TRUE) \o Cells(d, "CB", i, TRUE) \o Cells(d, "GY", i, FALSE) \o Cells(d, "CB", i, FALSE)])
Ids(d) == [i \in 1..d.nn |-> i]
Dn(s) == [i \in 1..Len(s) |-> s[i] - 1]
Modulus == Q(2100000000, 1)
GNodes(d) == [i \in 1..d.nn |-> Node(i, NPos(d, i), <<<<"Type", Q(IF d.joint = i THEN 3 ELSE 1, 1)>>>>, <<<<"DOFs", Dn(IxSeq(d, LAMBDA x : x[1] = i))>>>>)]
GElems(d) == [i \in 1..(d.nn - 1) |-> Elem(i, i, i + 1, <<<<"Type", 1>>, <<"Area", Q(i, 8)>>, <<"rho", 7850>>>>, "", <<>>, <<>>)]
Items(d, o) == <<Get(o, <<"module">>, "SubDyn", "exact"), Get(o, <<"nNodes">>, d.nn, "exact"), Get(o, <<"nDOF_red">>, Len(Dofs(d)), "exact"), Get(o, <<"Title">>, "a text, 1.5", "exact"), Get(o, <<"Stamp">>, "21:06:35", "exact"), Get(o, <<"Ratio">>, -25, "f8"),
   Get(o, <<"Mix">>, <<<<1, 2>>, <<Q(1, 2), -25>>>>, "f8"), [op |-> "has", o |-> o, key |-> "OnlyFree", expect |-> (d.f = 0)],
   Get(o, <<"CB_frequencies">>, [m \in 1..d.ncb |-> Freq(m)], "f8"), Get(o, <<"X">>, [i \in 1..d.nn |-> NPos(d, i)[1]], "f8"), Get(o, <<"Y">>, [i \in 1..d.nn |-> NPos(d, i)[2]], "f8"), Get(o, <<"Z">>, [i \in 1..d.nn |-> NPos(d, i)[3]], "f8"),
   Get(o, <<"DOF2Nodes">>, [j \in 1..Len(Dofs(d)) |-> <<j - 1>> \o Dofs(d)[j]], "exact"), Get(o, <<"DOF___B">>, <<Dn(B(d))>>, "exact"), Get(o, <<"DOF___L">>, <<Dn(L(d))>>, "exact"), Shape(o, <<"DOF___F">>, <<1, Len(F(d))>>),
   Get(o, <<"PhiM">>, [k \in 1..Len(L(d)) |-> [m \in 1..d.ncb |-> PhiQ(d, k, m)]], "f8"), Get(o, <<"PhiR">>, [k \in 1..Len(L(d)) |-> [m \in 1..Len(B(d)) |-> PhiR(d, k, m)]], "f8"),
   Shape(o, <<"Elements">>, <<d.nn - 1, 16>>), Get(o, <<"Elements", [ix |-> <<d.nn - 2, 2>>]>>, d.nn, "f8")>>
TheModes(d, o) == <<[op |-> "call", o |-> o, at |-> <<>>, m |-> "getModes", args |-> <<>>, kw |-> <<<<"sortDim", None>>>>, as |-> "M"], Get("M", <<0>>, Modes(d, "GY", Ids(d)), "f8"), Get("M", <<1>>, [i \in 1..d.nn |-> NPos(d, i)], "f8"), Get("M", <<2>>, Ids(d), "exact"), Get("M", <<3>>, Modes(d, "CB", Ids(d)), "f8"), Get("M", <<4>>, [i \in 1..d.nn |-> NPos(d, i)], "f8"), Get("M", <<5>>, Ids(d), "exact"),
   [op |-> "call", o |-> o, at |-> <<>>, m |-> "getModes", args |-> <<>>, as |-> "M"], Get("M", <<0>>, Modes(d, "GY", ZOrder(d)), "f8"), Get("M", <<2>>, ZOrder(d), "exact"), Get("M", <<3>>, Modes(d, "CB", ZOrder(d)), "f8")>>
PlainModes(d, w) == [m \in 1..NModes(d, w) |-> [k \in 1..d.nn |-> [c \in 1..3 |-> Disp(d, w, k, c, m)]]]
Js(d, o) == <<[op |-> "call", o |-> o, at |-> <<>>, m |-> "toJSON", args |-> <<>>, as |-> "J"], Get("J", <<"Connectivity">>, [i \in 1..(d.nn - 1) |-> <<i - 1, i>>], "exact"), Get("J", <<"Nodes">>, [i \in 1..d.nn |-> NPos(d, i)], "f8"), Get("J", <<"groundLevel">>, QMin({NPos(d, i)[3] : i \in 1..d.nn}), "f8"), [op |-> "count", o |-> "J", at |-> <<"Modes">>, expect |-> Len(B(d)) + d.ncb]>>
   \o [m \in 1..Len(B(d)) |-> Get("J", <<"Modes", m - 1, "Displ">>, PlainModes(d, "GY")[m], "f8")] \o [m \in 1..d.ncb |-> Get("J", <<"Modes", Len(B(d)) + m - 1, "Displ">>, PlainModes(d, "CB")[m], "f8")] \o [m \in 1..d.ncb |-> Get("J", <<"Modes", Len(B(d)) + m - 1, "name">>, "CB" \o Str(m), "exact")]
Gr(d, o) == <<[op |-> "call", o |-> o, at |-> <<>>, m |-> "toGraph", args |-> <<>>, as |-> "G"]>> \o SeeG(GNodes(d), GElems(d), "G")
   \o <<Get("G", <<Attr("Elements"), 0, Attr("data"), "E">>, Modulus, "f8"), Get("G", <<Attr("Elements"), 0, Attr("data"), "G">>, Q(807690, 1), "f8")>>
   \o [m \in 1..d.ncb |-> Get("G", <<Attr("Modes"), Len(B(d)) + m - 1, "data">>, PlainModes(d, "CB")[m], "f8")] \o [m \in 1..d.ncb |-> Get("G", <<Attr("Modes"), Len(B(d)) + m - 1, "freq">>, Freq(m), "f8")]
Look(d, o, w) == CASE w = "items" -> Items(d, o) [] w = "df" -> <<DF(o, Tbl(d), "f8")>> [] w = "modes" -> TheModes(d, o) [] w = "json" -> Js(d, o) [] w = "graph" -> Gr(d, o)
LookAll(d, o) == Look(d, o, "items") \o Look(d, o, "df") \o Look(d, o, "modes") \o Look(d, o, "json") \o Look(d, o, "graph") \o Look(d, o, "items") \o Look(d, o, "df")
SInit == /\ \E d \in DS : Valid(d) /\ da = TLCEval(Full(d)) /\ db = [nn |-> 0] /\ nodes = <<>> /\ elems = <<>> /\ hist = <<>> /\ n = 0
         /\ ha = <<MkText("a.SD.sum.yaml", Lines(da)), Open("A", "FASTSummaryFile", "a.SD.sum.yaml")>> \o (IF "full" \in Ops2 THEN LookAll(da, "A") ELSE <<>>)
Keep == UNCHANGED <<nodes, elems, hist>>
STick == n < K /\ n' = n + 1 /\ Keep
SLook == STick /\ UNCHANGED <<da, db>> /\ \E w \in {"items", "df", "modes", "json", "graph"} : ha' = ha \o Look(da, "A", w) \/ (db.nn > 0 /\ ha' = ha \o Look(db, "B", w))
SOpen == STick /\ UNCHANGED da /\ db.nn = 0 /\ \E e \in {x \in DS : Valid(x) /\ x.nn # da.nn /\ x.f # da.f} : LET f == TLCEval(Full([e EXCEPT !.salt = 3])) IN
           db' = f /\ ha' = ha \o <<MkText("b.SD.sum.yaml", Lines(f)), Open("B", "FASTSummaryFile", "b.SD.sum.yaml")>>
SRead == STick /\ UNCHANGED db /\ \E e \in {x \in DS : Valid(x) /\ x.nn # da.nn /\ x.f # da.f} : LET f == TLCEval(Full([e EXCEPT !.salt = 1])) IN
           da' = f /\ ha' = ha \o <<MkText("c.SD.sum.yaml", Lines(f)), Read("A", "c.SD.sum.yaml")>>
SNext == SLook \/ SOpen \/ SRead
SEmit == n = K => PrintT(ToJson([ops |-> ha \o (IF "full" \in Ops2 THEN <<>> ELSE Look(da, "A", "df") \o Look(da, "A", "items") \o (IF db.nn > 0 THEN Look(db, "B", "df") \o Look(db, "B", "items") ELSE <<>>))]))
=============================================================================
