------------------------------ MODULE Hawc2Htc ------------------------------
(***************************************************************************)
(* HAWC2 htc files: a tree of sections and lines.  Lines with the same name*)
(* get the keys name, name__2, name__3..; values are integers, reals or    *)
(* text; main bodies come first when written; the c2_def of each body and  *)
(* its structural table (looked up in the st file) are shown as tables.    *)
(***************************************************************************)
EXTENDS Base
CONSTANTS NBs, NSs, Forms, Sts, Ops, K
VARIABLES ds, tree, n, cnt, hist
DataSets == [nb : NBs, ns : NSs, form : Forms, st : Sts]
\* --- values as written by a user, and as seen
Vt(t, v) == [t |-> t, v |-> v]
I(i) == Vt(Str(i), i)
R(q) == Vt(Dec(q), IF q.n % q.d = 0 THEN q.n \div q.d ELSE q)
X(s) == Vt(s, s)
\* --- nodes
L(name, vals, com) == [k |-> "l", name |-> name, vals |-> vals, com |-> com, items |-> <<>>]
S2(name, items, com) == [k |-> "s", name |-> name, vals |-> <<>>, com |-> com, items |-> items]
M(type, sensor, vals, com) == [k |-> "m", name |-> type, vals |-> <<X(sensor)>> \o vals, com |-> com, items |-> <<>>]
BodyName(i) == <<"tower", "hub1", "blade1">>[i]
\* position of section s of body i; the lines may be given in any order
Sec(i, s) == <<Q(s, 1), Q(s - 1 + i, 8), Q(-((s * i) % 5), 4), Q((IF i = 2 THEN -5 ELSE 5) * (s - 1), 2), Q(3 - 2 * s, 2)>>
SecLine(r) == L("sec", [q \in 1..5 |-> R(r[q])], IF r[1].n % 2 = 0 THEN "x y z twist" ELSE "")
Order(d, i) == LET m == d.ns + i - 1 IN IF d.form = 2 THEN [s \in 1..m |-> m + 1 - s] ELSE [s \in 1..m |-> s]
Body(d, i) == S2("main_body",
   <<L("name", <<X(BodyName(i))>>, "body " \o Str(i) \o "; of 3;; bodies"), L("type", <<X("timoschenko")>>, ""), L("nbodies", <<I(i)>>, ""), L("node_distribution", <<X("c2_def")>>, ""),
     L("damping", <<R(Q(1, 8)), Vt("3.0E-03", Q(3, 1000)), Vt("1e3", 1000)>>, "")>>
   \o (IF d.st = "none" THEN <<>> ELSE
       <<S2("timoschenko_input", <<L("filename", <<IF d.form = 2 THEN Vt(".\\data\\st.dat", "./data/st.dat") ELSE X("./data/st.dat")>>, "")>>
              \o (IF d.st = "noset" THEN <<>> ELSE <<L("set", <<I(i), I(1 + (i % 3))>>, "set subset")>>), "")>>)
   \o <<S2("c2_def", <<L("nsec", <<I(d.ns + i - 1)>>, "")>> \o [s \in 1..(d.ns + i - 1) |-> SecLine(Sec(i, Order(d, i)[s]))], "")>>, "")
Sim == S2("simulation", <<L("time_stop", <<I(700)>>, ""), L("solvertype", <<I(1)>>, "newmark"), L("logfile", <<X("./log/Run_A.log")>>, ""), L("convergence_limits", <<Vt("1E3", 1000), R(Q(1, 2)), Vt("1e-7", Q(1, 10000000))>>, "")>>, "")
Orient == S2("orientation", <<S2("base", <<L("mbdy", <<X("tower")>>, ""), L("inipos", <<R(Q(0, 1)), R(Q(0, 1)), R(Q(-3, 2))>>, "initial")>>, ""),
                              S2("relative", <<L("mbdy1", <<X("tower"), X("last")>>, ""), L("mbdy2_eulerang", <<R(Q(90, 1)), I(0), I(-5)>>, "")>>, ""),
                              S2("relative", <<L("mbdy1", <<X("hub1"), I(-1)>>, ""), L("mbdy2_eulerang", <<I(0), I(0), R(Q(5, 4))>>, "")>>, "second")>>, "")
Outp(name, com) == S2(name, <<L("filename", <<X("./res/a")>>, ""), L("data_format", <<X("hawc_binary")>>, ""),
                    M("general", "time", <<>>, ""), M("mbdy", "momentvec", <<X("tower"), I(1), I(1), X("tower")>>, "tower base"),
                    M("aero", "induc", <<I(1), R(Q(39, 2))>>, ""), M("mbdy", "momentvec", <<X("hub1"), I(1), I(1), X("hub1")>>, "")>>, com)
Struct(d) == LET bodies == [i \in 1..d.nb |-> Body(d, i)] IN
             S2("new_htc_structure", IF d.form = 1 THEN <<Orient>> \o bodies ELSE bodies \o <<L("beam_output_file_name", <<X("./log/beam.dat")>>, ""), Orient>>, "structure")
\* twelve lines of the same name
Dll(d) == S2("dll", <<S2("type2_dll", <<L("name", <<X("DTU_we")>>, "")>> \o (IF d.st = "none" THEN <<>> ELSE <<L("filename", <<IF d.form = 2 THEN Vt(".\\Control\\DTU_we.DLL", "./Control/DTU_we.DLL") ELSE X("./Control/DTU_we.DLL")>>, "case matters")>>) \o <<
              S2("init", [q \in 1..(8 + 2 * d.nb) |-> L("constant", <<I(q), R(Q(q * 3, 8))>>, IF q = 3 THEN "gain; [kW]" ELSE "")], "")>>, "")>>, "")
Tree(d) == <<Sim, Struct(d), S2("wind", <<L("wsp", <<R(Q(39, 4))>>, ""), L("tint", <<Vt(".12", Q(3, 25))>>, ""), L("density", <<R(Q(49, 40))>>, "")>>, ""),
             Outp("output", "")>> \o (IF d.form = 2 THEN <<Outp("output_at_time aero 100.5", "note")>> ELSE <<>>) \o <<Dll(d)>>
\* --- text
Case(d, s) == s
RECURSIVE TextOf(_, _, _)
Ind(d, lev) == IF d.form = 0 THEN "" ELSE IF d.form = 1 THEN "\t" ELSE [q \in 1..4 |-> <<"", "  ", "    ", "      ">>[q]][lev]
TextOf(d, items, lev) == Flatten([q \in 1..Len(items) |-> LET x == items[q] c == IF x.com = "" THEN ";" ELSE ";  " \o x.com IN
   IF x.k # "s" THEN <<Ind(d, lev) \o Join(<<x.name>> \o [p \in 1..Len(x.vals) |-> x.vals[p].t], IF d.form = 1 THEN "\t" ELSE "  ") \o (IF d.form = 2 THEN " " ELSE "") \o c>> \o (IF d.form = 1 /\ q % 2 = 0 THEN <<"", "">> ELSE <<>>)
   ELSE <<Ind(d, lev) \o "begin " \o x.name \o " " \o c>> \o (IF d.form = 2 THEN <<"; a comment line">> ELSE <<>>) \o TextOf(d, x.items, lev + 1)
        \o <<Ind(d, lev) \o "end " \o x.name \o ";">> \o (IF d.form # 0 /\ lev > 1 THEN <<"">> ELSE <<>>)])
Text(d, t) == (IF d.form = 2 THEN <<"; an htc file", ";">> ELSE <<>>) \o TextOf(d, t, 1) \o <<"exit;">> \o (IF d.form = 1 THEN <<"", "not read after exit">> ELSE <<>>)
\* in form 3 the first body lies in a file of its own
SplitText(d, t) == TextOf(d, <<t[1]>>, 1) \o <<"begin new_htc_structure;", "  continue_in_file ./htc/body.sub ; first body">>
                   \o TextOf(d, SubSeq(t[2].items, 2, Len(t[2].items)), 2) \o <<"end new_htc_structure;">> \o TextOf(d, SubSeq(t, 3, Len(t)), 1) \o <<"exit;">>
StRow(i, j, r) == [q \in 1..19 |-> IF q = 1 THEN Q(r, 2) ELSE Q(((i * 7 + j * 5 + r * 3 + q) % 31) - 9, 4)]
StTab(i, j) == [r \in 1..(1 + j) |-> StRow(i, j, r)]
StTxt == <<"3 sets">> \o Flatten([i \in 1..3 |-> <<"#" \o Str(i)>> \o Flatten([j \in 1..3 |-> <<"$" \o Str(j) \o " " \o Str(1 + j)>> \o [r \in 1..(1 + j) |-> Join([q \in 1..19 |-> Dec(StRow(i, j, r)[q])], " ")]])])
\* the st file lies with the htc file, or relative to the folder above it
StPath(d) == IF d.st = "beside" THEN "m/htc/data/st.dat" ELSE IF d.st = "far" THEN "data/st.dat" ELSE "m/data/st.dat"
Files(d, t) == <<[op |-> "mktext", path |-> "m/htc/a.htc", lines |-> IF d.form = 3 THEN SplitText(d, t) ELSE Text(d, t), nl |-> IF d.form = 1 THEN "\r\n" ELSE "\n"]>>
               \o (IF d.form = 3 THEN <<MkText("m/htc/body.sub", TextOf(d, <<t[2].items[1]>>, 2))>> ELSE <<>>)
               \o (IF d.st = "none" THEN <<>> ELSE <<MkText(StPath(d), StTxt)>>)
\* --- what is seen
Cnt(items, q) == Cardinality({p \in 1..q : items[p].name = items[q].name /\ items[p].k # "m"})
Key(items, q) == items[q].name \o (IF Cnt(items, q) = 1 THEN "" ELSE "__" \o Str(Cnt(items, q)))
SName(x) == IF x.name = "output_at_time aero 100.5" THEN "output_at_time" ELSE x.name
RECURSIVE SeeItems(_, _, _)
Values(x) == [p \in 1..Len(x.vals) |-> x.vals[p].v]
Sensors(items) == SelectSeq(items, LAMBDA x : x.k = "m")
SeeItems(items, pre, o) ==
   LET its == [q \in 1..Len(items) |-> [items[q] EXCEPT !.name = SName(items[q])]]
       nm(q) == Key(its, q) IN
   Flatten([q \in 1..Len(its) |->
      IF its[q].k = "m" THEN <<>>
      ELSE IF its[q].k = "l" THEN <<Get(o, <<Attr("data"), pre \o nm(q), Attr("values")>>, Values(its[q]), "f8"), Get(o, <<Attr("data"), pre \o nm(q), Attr("comments")>>, its[q].com, "exact")>>
      ELSE SeeItems(its[q].items, pre \o nm(q) \o "/", o)])
   \o (LET ms == Sensors(items) IN IF ms = <<>> THEN <<>> ELSE LET p1 == SubSeq(pre, 1, Len(pre) - 1) IN
        <<[op |-> "count", o |-> o, at |-> <<Attr("data"), p1, Attr("sensors")>>, expect |-> Len(ms)]>>
        \o Flatten([q \in 1..Len(ms) |-> <<Get(o, <<Attr("data"), p1, Attr("sensors"), q - 1, Attr("type")>>, ms[q].name, "exact"), Get(o, <<Attr("data"), p1, Attr("sensors"), q - 1, Attr("sensor")>>, ms[q].vals[1].v, "exact"),
                       Get(o, <<Attr("data"), p1, Attr("sensors"), q - 1, Attr("values")>>, Tail(Values(ms[q])), "f8")>>]))
Bodies(t) == SelectSeq(t[2].items, LAMBDA x : x.name = "main_body")
Part(b, name) == b.items[CHOOSE q \in 1..Len(b.items) : b.items[q].name = name]
HasPart(b, name) == \E q \in 1..Len(b.items) : b.items[q].name = name
BodiesOnly(t) == \A i \in 1..Len(Bodies(t)) : HasPart(Bodies(t)[i], "c2_def")
C2(b) == LET ss == SelectSeq(Part(b, "c2_def").items, LAMBDA x : x.name = "sec")
             \* sections in the order of their number
             ord == CHOOSE f \in [1..Len(ss) -> 1..Len(ss)] : (\A i, j \in 1..Len(ss) : i < j => ss[f[i]].vals[1].v < ss[f[j]].vals[1].v)
         IN [s \in 1..Len(ss) |-> [q \in 1..5 |-> ss[ord[s]].vals[q].v]]
C2Tab(b) == LET c == C2(b) IN Table(<<"z_[m]", "x_[m]", "y_[m]", "twist_[deg]">>, [s \in 1..Len(c) |-> <<c[s][4], c[s][2], c[s][3], c[s][5]>>])
StReg == <<"r_[m]", "m_[kg/m]", "x_cg_[m]", "y_cg_[m]", "ri_x_[m]", "ri_y_[m]", "x_sh_[m]", "y_sh_[m]", "E_[N/m^2]", "G_[N/m^2]", "I_x_[m^4]", "I_y_[m^4]", "I_p_[m^4]", "k_x_[-]", "k_y_[-]", "A_[m^2]", "pitch_[deg]", "x_e_[m]", "y_e_[m]">>
StOf(b) == LET t == Part(b, "timoschenko_input") IN IF HasPart(t, "set") THEN LET v == Values(Part(t, "set")) IN StTab(v[1], v[2]) ELSE StTab(1, 1)
Dfs(t) == Flatten([i \in 1..Len(Bodies(t)) |-> LET b == Bodies(t)[i]  nm == Part(b, "name").vals[1].v IN
            <<<<nm \o "_c2", C2Tab(b)>>>> \o (IF HasPart(b, "timoschenko_input") THEN <<<<nm \o "_st", Table(StReg, StOf(b))>>>> ELSE <<>>)])
See(t, o) == <<Get(o, <<Attr("bodyNames")>>, [i \in 1..Len(Bodies(t)) |-> Part(Bodies(t)[i], "name").vals[1].v], "exact"), DF(o, [dfs |-> Dfs(t)], "f8")>> \o SeeItems(t, "", o)
             \o <<[op |-> "htckeys", o |-> o, at |-> <<Attr("data"), "new_htc_structure">>, expect |-> [q \in 1..Len(t[2].items) |-> Key(t[2].items, q)]]>>
\* finding a section or a line by what it holds; a section knows where it is
Find(t, o) == Flatten([i \in 1..Len(Bodies(t)) |-> LET b == Bodies(t)[i]  nm == Part(b, "name").vals[1].v  c == C2(b)  cp == "new_htc_structure/main_body" \o (IF i = 1 THEN "" ELSE "__" \o Str(i)) IN
      <<[op |-> "call", o |-> o, at |-> <<Attr("data"), "new_htc_structure">>, m |-> "get_section", args |-> <<nm>>, as |-> "gs"], Get("gs", <<"nbodies", Attr("values")>>, Values(Part(b, "nbodies")), "exact"),
        [op |-> "call", o |-> o, at |-> <<Attr("data"), "new_htc_structure">>, m |-> "get_element", args |-> <<"name", nm>>, as |-> "gn"], Get("gn", <<"nbodies", Attr("values")>>, Values(Part(b, "nbodies")), "exact"),
        [op |-> "call", o |-> o, at |-> <<Attr("data"), cp \o "/c2_def">>, m |-> "location", args |-> <<>>, expect |-> "a.htc/" \o cp \o "/c2_def"]>>
      \o (IF Len(c) = 1 THEN <<>> ELSE <<[op |-> "call", o |-> o, at |-> <<Attr("data"), cp \o "/c2_def">>, m |-> "get_element", args |-> <<0, c[1][1]>>, as |-> "ge"], Get("ge", <<Attr("values")>>, c[1], "f8")>>)])
Init == /\ ds \in {d \in DataSets : d.st \in {"beside", "none", "far"} => d.form # 3} /\ tree = Tree(ds) /\ n = 0 /\ cnt = 0
        /\ hist = Files(ds, tree) \o <<Open("A", "HAWC2HTCFile", "m/htc/a.htc")>> \o See(tree, "A") \o (IF BodiesOnly(tree) THEN Find(tree, "A") ELSE <<>>)
\* --- changes through the documented interface
BodyIx(t, i) == CHOOSE q \in 1..Len(t[2].items) : t[2].items[q].name = "main_body" /\ Cardinality({p \in 1..q : t[2].items[p].name = "main_body"}) = i
NB(t) == Len(Bodies(t))
PartIx(b, name) == CHOOSE q \in 1..Len(b.items) : b.items[q].name = name
\* new positions for a body, with as many sections or fewer
NewC2(b, m) == [s \in 1..m |-> <<Q(2 * s - 1, 1), Q(s + n, 8), Q(-n - 1, 4), Q(7 * (s - 1), 2), Q(s * s, 8)>>]
\* (comments stay where they are)
SetSecs(cd, rows) == <<[cd.items[1] EXCEPT !.vals = <<I(Len(rows))>>]>> \o [s \in 1..Len(rows) |-> [SecLine(rows[s]) EXCEPT !.com = cd.items[s + 1].com]]
SetC2 == /\ "c2" \in Ops /\ n < K /\ n' = n + 1 /\ UNCHANGED <<ds, cnt>>
         /\ \E i \in 1..NB(tree) : LET qi == BodyIx(tree, i)  b == tree[2].items[qi]  ci == PartIx(b, "c2_def")  m0 == Len(b.items[ci].items) - 1 IN
            \E m \in {m0, m0 - 1} \ {0} : LET rows == NewC2(b, m) IN
            /\ tree' = [tree EXCEPT ![2].items[qi].items[ci].items = SetSecs(b.items[ci], rows)]
            /\ hist' = hist \o <<[op |-> "call", o |-> "A", at |-> <<>>, m |-> "bodyByName", args |-> <<Part(b, "name").vals[1].v>>, as |-> "body"],
                                 [op |-> "call", o |-> "A", at |-> <<>>, m |-> "setBodyC2", args |-> <<[ref |-> "body"], [arr |-> rows]>>]>> \o See(tree', "A")
SetLine == /\ "line" \in Ops /\ n < K /\ n' = n + 1 /\ UNCHANGED <<ds, cnt>>
           /\ tree' = [tree EXCEPT ![1].items[1].vals = <<I(800 + n)>>, ![3].items[1].vals = <<R(Q(33 + 2 * n, 4))>>]
           /\ hist' = hist \o <<Set("A", <<Attr("data"), Attr("simulation"), Attr("time_stop")>>, 800 + n), Set("A", <<Attr("data"), Attr("wind"), Attr("wsp"), 0>>, Q(33 + 2 * n, 4))>> \o See(tree', "A")
AddSensor == /\ "sensor" \in Ops /\ n < K /\ n' = n + 1 /\ UNCHANGED <<ds, cnt>>
             /\ tree' = [tree EXCEPT ![4].items = Append(@, M("aero", "power", <<I(n)>>, ""))]
             /\ hist' = hist \o <<[op |-> "call", o |-> "A", at |-> <<Attr("data"), "output">>, m |-> "add_sensor", args |-> <<"aero", "power", <<n>>>>]>> \o See(tree', "A")
\* main bodies first
BodiesFirst(t) == [t EXCEPT ![2].items = SelectSeq(@, LAMBDA x : x.name = "main_body") \o SelectSeq(@, LAMBDA x : x.name # "main_body")]
WriteIt == /\ "write" \in Ops /\ n < K /\ n' = n + 1 /\ UNCHANGED <<ds, tree, cnt>>
           /\ LET w == "m/htc/w" \o Str(n) IN hist' = hist \o <<Write("A", w \o ".htc")>> \o See(tree, "A") \o <<Open("B", "HAWC2HTCFile", w \o ".htc")>> \o See(BodiesFirst(tree), "B")
                \o <<Write("B", w \o "b.htc"), [op |-> "same", a |-> w \o ".htc", b |-> w \o "b.htc"]>>
Another == /\ "another" \in Ops /\ n < K /\ n' = n + 1 /\ UNCHANGED cnt
           /\ \E e \in {x \in DataSets : x.nb # ds.nb /\ x.st = ds.st /\ (x.st \in {"beside", "none", "far"} => x.form # 3)} :
              /\ ds' = e /\ tree' = Tree(e)
              /\ hist' = hist \o Files(e, tree') \o <<Read("A", "m/htc/a.htc")>> \o See(tree', "A")
\* a line is removed, added; a section is added (or found, when it is there); the times are set
Do(t, ops) == tree' = t /\ n' = n + 1 /\ UNCHANGED <<ds, cnt>> /\ hist' = hist \o ops \o See(t, "A")
Call(at, m, args) == [op |-> "call", o |-> "A", at |-> at, m |-> m, args |-> args]
DelLine == /\ "del" \in Ops /\ n < K /\ \E q \in 1..Len(tree[1].items) : tree[1].items[q].name = "logfile"
              /\ Do([tree EXCEPT ![1].items = SelectSeq(@, LAMBDA x : x.name # "logfile")], <<Call(<<Attr("data"), "simulation/logfile">>, "delete", <<>>)>>)
AddLine == /\ "addline" \in Ops /\ n < K
           /\ Do([tree EXCEPT ![3].items = Append(@, L("wind_ramp_abs", <<I(n), R(Q(5, 2)), X("Words")>>, "ramp; up"))], <<Call(<<Attr("data"), "wind">>, "add_line", <<"wind_ramp_abs", <<n, Q(5, 2), "Words">>, "ramp; up">>)>>)
SecIx(t, name) == IF \E q \in 1..Len(t) : t[q].name = name THEN CHOOSE q \in 1..Len(t) : t[q].name = name ELSE 0
AddSec == /\ "addsec" \in Ops /\ n < K
          /\ LET q == SecIx(tree, "hydro")  l == L("gravity", <<R(Q(981, 100)), I(n)>>, "") IN
             Do(IF q > 0 THEN [tree EXCEPT ![q].items = Append(@, l)] ELSE Append(tree, S2("hydro", <<l>>, "")),
                <<[op |-> "call", o |-> "A", at |-> <<Attr("data")>>, m |-> "add_section", args |-> <<"hydro">>, as |-> "sec"], [op |-> "call", o |-> "sec", at |-> <<>>, m |-> "add_line", args |-> <<"gravity", <<Q(981, 100), n>>>>]>>)
PutLine(items, name, vals) == IF SecIx(items, name) > 0 THEN [items EXCEPT ![SecIx(items, name)].vals = vals] ELSE Append(items, L(name, vals, ""))
SetTime == /\ "time" \in Ops /\ n < K
           /\ Do([tree EXCEPT ![1].items = PutLine(@, "time_stop", <<I(900 + n)>>), ![3].items = PutLine(@, "scale_time_start", <<I(100 + n)>>), ![4].items = PutLine(@, "time", <<I(100 + n), I(900 + n)>>)],
                 <<Call(<<Attr("data")>>, "set_time", <<100 + n, 900 + n>>)>>)
Next == DelLine \/ AddLine \/ AddSec \/ SetTime \/ SetC2 \/ SetLine \/ AddSensor \/ WriteIt \/ Another
Emit == n = K => PrintT(ToJson([ops |-> hist]))
=============================================================================
