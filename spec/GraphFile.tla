----------------------------- MODULE GraphFile -----------------------------
(***************************************************************************)
(* Graphs of SubDyn and HydroDyn input files: joints, members, property    *)
(* sets, boundary conditions, added masses and coefficient tables of the   *)
(* file, each at its node, element or property set.                        *)
(***************************************************************************)
EXTENDS Graph
CONSTANTS Kinds, NJs, NMs, JCols, MCols, CMs, Cols3
VARIABLES fd
DS == [kind : Kinds, nj : NJs, nm : NMs, jc : JCols, mc : MCols, cm : CMs, c3 : Cols3]
P(x, lab) == "   " \o x \o "   " \o lab \o "   - some text"
R(cells) == "  " \o Join(cells, "   ")
Tab(title, cnt, lab, hdr, rows) == <<"---------------------- " \o title \o " ---------------------------", P(Str(cnt), lab), R(hdr), R([i \in 1..Len(hdr) |-> "(-)"])>> \o [i \in 1..Len(rows) |-> R(rows[i])]
Hd(t) == <<"----------- " \o t \o " INPUT FILE ------------", "made by hand">>
\* --- joints: IDs are neither consecutive nor sorted; members connect joint i to another one
JId(i) == ((i * 7) % 23) + 1
JP(i) == <<Q(i * 3 - 5, 2), Q(((i * i) % 7) - 3, 1), Q(i * 9 - 40, 4)>>
JType(d, i) == IF d.jc = 4 THEN 1 ELSE 1 + (i % 3)
MId(i) == 40 - 3 * i
MA(d, i) == ((i - 1) % d.nj) + 1
MB(d, i) == (i % d.nj) + 1
MType(d, i) == IF d.mc = 5 THEN 1 ELSE 1 + (i % 3)
PSets == <<"Beam", "Cable", "Rigid">>
MProp(d, i, e) == IF MType(d, i) = 1 THEN (IF (i + e) % 3 = 0 THEN 4 ELSE 2) ELSE IF MType(d, i) = 2 THEN 3 + (i % 2) ELSE 6
BProp(id) == [E |-> 2100 + id, G |-> 808 + id, rho |-> Q(7850 + id, 1), D |-> Q(id * 3, 2), t |-> Q(id, 8)]
\* --- SubDyn
SDJ(d) == [i \in 1..d.nj |-> SubSeq(<<Str(JId(i)), Dec(JP(i)[1]), Dec(JP(i)[2]), Dec(JP(i)[3]), Str(JType(d, i)), "0.0", "0.0", "1.0", "0.0">>, 1, d.jc)]
SDM(d) == [i \in 1..d.nm |-> SubSeq(<<Str(MId(i)), Str(JId(MA(d, i))), Str(JId(MB(d, i))), Str(MProp(d, i, 0)), Str(MProp(d, i, 1)), Str(MType(d, i)), "-1">>, 1, d.mc)]
CM(k) == [m |-> 10 + k, jx |-> 3, jy |-> 5, jz |-> 7, jxy |-> 1, jxz |-> 2, jyz |-> -1, x |-> 1 + k, y |-> -2, z |-> 3]
CMRow(j, k) == LET c == CM(k) IN <<Str(JId(j)), Str(c.m) \o ".0", Str(c.jx), Str(c.jy), Str(c.jz), Str(c.jxy), Str(c.jxz), Str(c.jyz), Str(c.x), Str(c.y), Str(c.z)>>
M66(k) == LET c == CM(k)  m == c.m  x == c.x  y == c.y  z == c.z IN
   <<<<m, 0, 0, 0, z * m, -(y * m)>>, <<0, m, 0, -(z * m), 0, x * m>>, <<0, 0, m, y * m, -(x * m), 0>>,
     <<0, -(z * m), y * m, c.jx + m * (y * y + z * z), c.jxy - m * x * y, c.jxz - m * x * z>>,
     <<z * m, 0, -(x * m), c.jxy - m * x * y, c.jy + m * (x * x + z * z), c.jyz - m * y * z>>,
     <<-(y * m), x * m, 0, c.jxz - m * x * z, c.jyz - m * y * z, c.jz + m * (x * x + y * y)>>>>
SDLines(d) == Hd("SubDyn MultiMember Support Structure") \o <<P("False", "Echo")>>
   \o Tab("STRUCTURE JOINTS", d.nj, "NJoints", SubSeq(<<"JointID", "JointXss", "JointYss", "JointZss", "JointType", "JointDirX", "JointDirY", "JointDirZ", "JointStiff">>, 1, d.jc), SDJ(d))
   \o Tab("BASE REACTION JOINTS", 1, "NReact", <<"RJointID", "RctTDXss", "RctTDYss", "RctTDZss", "RctRDXss", "RctRDYss", "RctRDZss", "SSIfile">>, <<<<Str(JId(1)), "1", "0", "1", "1", "0", "1", "\"ssi.dat\"">>>>)
   \o Tab("INTERFACE JOINTS", 1, "NInterf", <<"IJointID", "ItfTDXss", "ItfTDYss", "ItfTDZss", "ItfRDXss", "ItfRDYss", "ItfRDZss">>, <<<<Str(JId(d.nj)), "1", "1", "0", "1", "0", "1">>>>)
   \o Tab("MEMBERS", d.nm, "NMembers", SubSeq(<<"MemberID", "MJointID1", "MJointID2", "MPropSetID1", "MPropSetID2", "MType", "COSMID">>, 1, d.mc), SDM(d))
   \o Tab("CIRCULAR CROSS-SECTION PROPERTIES", 2, "NPropSets", <<"PropSetID", "YoungE", "ShearG", "MatDens", "XsecD", "XsecT">>, [i \in 1..2 |-> LET p == BProp(2 * i) IN <<Str(2 * i), Str(p.E), Str(p.G) \o ".0", Dec(p.rho), Dec(p.D), Dec(p.t)>>])
   \o Tab("ARBITRARY CROSS-SECTION PROPERTIES", 0, "NXPropSets", <<"PropSetID", "YoungE", "ShearG", "MatDens", "XsecA", "XsecAsx", "XsecAsy", "XsecJxx", "XsecJyy", "XsecJ0">>, <<>>)
   \o Tab("CABLE PROPERTIES", 2, "NCablePropSets", SubSeq(<<"PropSetID", "EA", "MatDens", "T0", "CtrlChannel">>, 1, d.c3), [i \in 1..2 |-> SubSeq(<<Str(2 + i), Str(210 + i), Str(66 + i), Str(7 + i), Str(i)>>, 1, d.c3)])
   \o Tab("RIGID LINK PROPERTIES", 1, "NRigidPropSets", <<"PropSetID", "MatDens">>, <<<<"6", "78.5">>>>)
   \o Tab("MEMBER COSINE MATRICES", 0, "NCOSMs", <<"COSMID", "COSM11", "COSM12", "COSM13", "COSM21", "COSM22", "COSM23", "COSM31", "COSM32", "COSM33">>, <<>>)
   \o Tab("JOINT ADDITIONAL CONCENTRATED MASSES", d.cm, "NCmass", <<"CMJointID", "JMass", "JMXX", "JMYY", "JMZZ", "JMXY", "JMXZ", "JMYZ", "MCGX", "MCGY", "MCGZ">>, [k \in 1..d.cm |-> CMRow(k, k)])
   \o <<"---------------------------- OUTPUT: SUMMARY & OUTFILE ------------------------------", P("True", "SumPrint")>>
SDProp(t, id) == CASE t = 1 -> LET p == BProp(id) IN <<<<"E", p.E>>, <<"G", p.G>>, <<"rho", p.rho>>, <<"D", p.D>>, <<"t", p.t>>>>
                 [] t = 2 -> <<<<"EA", 208 + id>>, <<"rho", 64 + id>>, <<"T0", 5 + id>>, <<"Chan", IF fd.c3 = 5 THEN id - 2 ELSE -1>>>>
                 [] t = 3 -> <<<<"rho", Q(157, 2)>>>>
SDNode(d, i) == Node(JId(i), JP(i), <<<<"Type", Q(JType(d, i), 1)>>>>, (IF i = 1 THEN <<<<"RBC", <<1, 0, 1, 1, 0, 1, "\"ssi.dat\"">>>>>> ELSE <<>>) \o (IF i = d.nj THEN <<<<"IBC", <<1, 1, 0, 1, 0, 1>>>>>> ELSE <<>>) \o (IF i <= d.cm THEN <<<<"addedMassMatrix", M66(i)>>>> ELSE <<>>))
SDElem(d, i) == LET t == MType(d, i) IN Elem(MId(i), JId(MA(d, i)), JId(MB(d, i)), <<<<"Type", PSets[t]>>>>, PSets[t], <<MProp(d, i, 0), MProp(d, i, 1)>>, <<SDProp(t, MProp(d, i, 0)), SDProp(t, MProp(d, i, 1))>>)
\* --- HydroDyn
Ax(id) == <<<<"JAxCd", Q(id, 4)>>, <<"JAxCa", Q(id + 1, 4)>>, <<"JAxCp", Q(id + 2, 4)>>>>
JAx(i) == IF i % 2 = 0 THEN 5 ELSE 2
SmplNames == <<"Cd", "CdMG", "Ca", "CaMG", "Cp", "CpMG", "AxCd", "AxCdMG", "AxCa", "AxCaMG", "AxCp", "AxCpMG">>
SmplN(d) == IF d.c3 = 5 THEN SmplNames ELSE SubSeq(SmplNames, 1, 6) \o SubSeq(SmplNames, 9, 12)
Smpl(d) == [j \in 1..Len(SmplN(d)) |-> <<SmplN(d)[j], Q(j, 8)>>]
HMod(d, i) == IF d.mc = 5 THEN 1 ELSE 1 + (i % 3)
HPot(i) == i % 2 = 0
Dp(r) == <<<<"Dpth", Q(r * 10, 1)>>>> \o [j \in 1..12 |-> <<SmplNames[j], Q(r * 20 + j, 8)>>]
MemNames == <<"Cd1", "Cd2", "CdMG1", "CdMG2", "Ca1", "Ca2", "CaMG1", "CaMG2", "Cp1", "Cp2", "CpMG1", "CpMG2", "AxCd1", "AxCd2", "axCdMG1", "axCdMG2", "AxCa1", "AxCa2", "AxCaMG1", "AxCaMG2", "AxCp1", "AxCp2", "AxCpMG1", "AxCpMG2">>
Mem(d, r) == <<<<"MemberID", MId(r)>>>> \o [j \in 1..24 |-> <<MemNames[j], Q(r * 30 + j, 8)>>]
Mg(r) == <<<<"MGDpth", Q(r * 5, 1)>>, <<"MGThck", Q(r, 8)>>, <<"MGDens", Q(1000 + r, 1)>>>>
Sec(id) == <<<<"D", Q(id * 3, 2)>>, <<"t", Q(id, 8)>>>>
HDCell(x) == Dec(x)
PropCells(pp) == [i \in 1..Len(pp) |-> Dec(pp[i][2])]
HDLines(d) == Hd("HydroDyn v2.03.*") \o <<P("False", "Echo")>>
   \o Tab("AXIAL COEFFICIENTS", 2, "NAxCoef", <<"AxCoefID", "AxCd", "AxCa", "AxCp">>, <<<<"2">> \o PropCells(Ax(2)), <<"5">> \o PropCells(Ax(5))>>)
   \o Tab("MEMBER JOINTS", d.nj, "NJoints", <<"JointID", "Jointxi", "Jointyi", "Jointzi", "JointAxID", "JointOvrlp">>, [i \in 1..d.nj |-> <<Str(JId(i)), Dec(JP(i)[1]), Dec(JP(i)[2]), Dec(JP(i)[3]), Str(JAx(i)), "0">>])
   \o Tab("MEMBER CROSS-SECTION PROPERTIES", 2, "NPropSets", <<"PropSetID", "PropD", "PropThck">>, <<<<"2">> \o PropCells(Sec(2)), <<"4">> \o PropCells(Sec(4))>>)
   \o <<"---------------------- SIMPLE HYDRODYNAMIC COEFFICIENTS (model 1) --------------", R([j \in 1..Len(SmplN(d)) |-> "Simpl" \o SmplN(d)[j]]), R([j \in 1..Len(SmplN(d)) |-> "(-)"]), R(PropCells(Smpl(d)))>>
   \o Tab("DEPTH-BASED HYDRODYNAMIC COEFFICIENTS (model 2)", d.cm, "NCoefDpth", <<"Dpth">> \o [j \in 1..12 |-> "Dpth" \o SmplNames[j]], [r \in 1..d.cm |-> PropCells(Dp(r))])
   \o Tab("MEMBER-BASED HYDRODYNAMIC COEFFICIENTS (model 3)", d.cm, "NCoefMembers", <<"MemberID">> \o [j \in 1..24 |-> "Member" \o MemNames[j]], [r \in 1..d.cm |-> <<Str(MId(r))>> \o PropCells(Tail(Mem(d, r)))])
   \o Tab("MEMBERS", d.nm, "NMembers", <<"MemberID", "MJointID1", "MJointID2", "MPropSetID1", "MPropSetID2", "MDivSize", "MCoefMod", "PropPot">>, [i \in 1..d.nm |-> <<Str(MId(i)), Str(JId(MA(d, i))), Str(JId(MB(d, i))), IF (i % 3) = 0 THEN "4" ELSE "2", IF ((i + 1) % 3) = 0 THEN "4" ELSE "2", Dec(Q(i, 2)), Str(HMod(d, i)), IF HPot(i) THEN "TRUE" ELSE "False">>])
   \o Tab("FILLED MEMBERS", 0, "NFillGroups", <<"FillNumM", "FillMList", "FillFSLoc", "FillDens">>, <<>>)
   \o Tab("MARINE GROWTH", d.cm, "NMGDepths", <<"MGDpth", "MGThck", "MGDens">>, [r \in 1..d.cm |-> PropCells(Mg(r))])
   \o <<"---------------------- OUTPUT --------------------------", P("True", "HDSum")>>
HDTouched(d, i) == \E k \in 1..d.nm : HMod(d, k) = 1 /\ i \in {MA(d, k), MB(d, k)}
HDNode(d, i) == Node(JId(i), JP(i), Ax(JAx(i)) \o (IF HDTouched(d, i) THEN Smpl(d) ELSE <<>>), <<>>)
HDElem(d, i) == Elem(MId(i), JId(MA(d, i)), JId(MB(d, i)), <<<<"CoefMod", <<"SimpleCoefs", "DepthCoefs", "MemberCoefs">>[HMod(d, i)]>>, <<"DivSize", Q(i, 2)>>, <<"Pot", HPot(i)>>, <<"object", "cylinder">>>>, "Section",
     <<IF (i % 3) = 0 THEN 4 ELSE 2, IF ((i + 1) % 3) = 0 THEN 4 ELSE 2>>, <<Sec(IF (i % 3) = 0 THEN 4 ELSE 2), Sec(IF ((i + 1) % 3) = 0 THEN 4 ELSE 2)>>)
Misc(name, r, pp) == [j \in 1..Len(pp) |-> Get("G", <<Attr("MiscPropertySets"), name, r - 1, pp[j][1]>>, pp[j][2], "f8")]
MiscCount(name, c) == <<[op |-> "count", o |-> "G", at |-> <<Attr("MiscPropertySets"), name>>, expect |-> c]>>
SeeMisc(d) == IF d.kind = "sd" THEN <<>> ELSE MiscCount("DepthCoefs", d.cm) \o MiscCount("MemberCoefs", d.cm) \o MiscCount("MG", d.cm) \o MiscCount("FillGroups", 0)
   \o Flatten([r \in 1..d.cm |-> Misc("DepthCoefs", r, Dp(r)) \o Misc("MemberCoefs", r, Mem(d, r)) \o Misc("MG", r, Mg(r))])
FLines(d) == IF d.kind = "sd" THEN SDLines(d) ELSE HDLines(d)
FNodes(d) == [i \in 1..d.nj |-> IF d.kind = "sd" THEN SDNode(d, i) ELSE HDNode(d, i)]
FElems(d) == [i \in 1..d.nm |-> IF d.kind = "sd" THEN SDElem(d, i) ELSE HDElem(d, i)]
MakeG == [op |-> "call", o |-> "F", at |-> <<>>, m |-> "toGraph", args |-> <<>>, as |-> "G"]
FInit == /\ fd \in DS /\ nodes = FNodes(fd) /\ elems = FElems(fd) /\ n = 0
         /\ hist = <<MkText("f.dat", FLines(fd)), Open("F", "FASTInputFile", "f.dat"), MakeG>> \o SeeG(nodes, elems, "G") \o SeeMisc(fd)
\* different properties at both ends: not divided (refused); otherwise divided, boundary conditions and masses stay at their joint
Same2(e) == Len(e.pids) = 2 /\ e.pids[1] = e.pids[2]
FDivide == /\ "divide" \in Ops /\ n < K /\ n' = n + 1 /\ UNCHANGED fd /\ \A i \in 1..Len(elems) : Same2(elems[i])
           /\ \E k \in Divs, meth \in {"append", "insert"} :
              LET drop == {"IBC", "RBC", "addedMassMatrix"}
                  r == DivAll(nodes, elems, 1, k, MaxId(elems), drop, {}, [old |-> <<>>, new |-> <<>>, ins |-> <<>>]) IN
              /\ nodes' = r.ns /\ elems' = (IF meth = "append" THEN r.old \o r.new ELSE r.ins)
              /\ hist' = hist \o <<Call("G", "divideElements", <<k>>, <<<<"method", meth>>, <<"keysNotToCopy", <<"IBC", "RBC", "addedMassMatrix">>>>>>)>> \o SeeG(nodes', elems', "G")
FRefuse == /\ "divide" \in Ops /\ n < K /\ n' = n + 1 /\ UNCHANGED <<fd, nodes, elems>> /\ Len(elems) = 1 /\ ~Same2(elems[1])
           /\ hist' = hist \o <<Call("G", "divideElements", <<2>>, <<>>) @@ [err |-> "NotImplementedError"]>> \o SeeG(nodes, elems, "G")
\* making the graph again, or from a file written by weio, gives the graph of the file; dividing a graph changes neither
FAgain == /\ "again" \in Ops /\ n < K /\ n' = n + 1 /\ UNCHANGED fd
          /\ nodes' = FNodes(fd) /\ elems' = FElems(fd)
          /\ \E w \in {TRUE, FALSE} : hist' = hist \o (IF w THEN <<Write("F", "w.dat"), Open("F", "FASTInputFile", "w.dat")>> ELSE <<>>) \o <<MakeG>> \o SeeG(nodes', elems', "G")
FNext == FDivide \/ FRefuse \/ FAgain
FEmit == n = K => PrintT(ToJson([ops |-> hist]))
=============================================================================
