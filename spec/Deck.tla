-------------------------------- MODULE Deck --------------------------------
(***************************************************************************)
(* A FAST input deck: a main file that switches modules on and off and     *)
(* names their files, module files that name further files.  Reading loads *)
(* what is switched on, asked for, named and there; every name is relative *)
(* to the file that has it.  Writing lays the deck down in a folder.       *)
(***************************************************************************)
EXTENDS Base
CONSTANTS Elasts, Onoffs, Aeros, Moors, Layouts, Gones, Unused, Lists, Styles, Bads, Ops, K
VARIABLES ds, mk, n, hist
DataSets == [elast : Elasts, inflow : Onoffs, aero : Aeros, servo : Onoffs, hydro : Onoffs, sub : Onoffs \cup (IF 3 \in Moors THEN {2} ELSE {}), moor : Moors, lay : Layouts, gone : Gones, unused : Unused, list : Lists, style : Styles, bad : Bads]
Files == {"Fst", "ED", "EDtwr", "EDbld", "BD", "BDbld", "IW", "AD", "ADbld", "AF1", "AF2", "AC1", "SrvD", "HD", "SD", "MD"}
Tops == {"ED", "BD", "IW", "AD", "SrvD", "HD", "SD", "MD"}
\* who names a file
Parent == [f \in Files \ {"Fst"} |-> CASE f \in Tops -> "Fst" [] f \in {"EDtwr", "EDbld"} -> "ED" [] f = "BDbld" -> "BD" [] f \in {"ADbld", "AF1", "AF2"} -> "AD" [] f = "AC1" -> "AF1"]
\* the key under which the caller asks for it
AskKey == [f \in Files |-> CASE f \in {"AF1", "AF2"} -> "AF" [] f = "AC1" -> "AC" [] OTHER -> f]
On(d, f) == CASE f \in {"Fst", "ED", "EDtwr", "EDbld"} -> TRUE [] f \in {"BD", "BDbld"} -> d.elast = 2 [] f = "IW" -> d.inflow = 1
            [] f \in {"AD", "AF1", "AF2"} -> d.aero > 0 [] f = "ADbld" -> d.aero = 2 [] f = "AC1" -> d.aero = 2
            [] f = "SrvD" -> d.servo = 1 [] f = "HD" -> d.hydro = 1 [] f = "SD" -> d.sub = 1 [] f = "MD" -> d.moor \in {1, 2}
Asked(d, f) == CASE d.list = "all" -> TRUE [] d.list = "fst" -> f = "Fst" [] d.list = "one" -> f \in {"Fst", "ED"} [] d.list = "some" -> AskKey[f] \in {"Fst", "ED", "EDbld", "SD", "AD", "AF"} [] d.list = "rest" -> AskKey[f] \in {"Fst", "ED", "EDtwr", "HD", "BD", "BDbld", "IW", "SrvD", "MD", "AD", "ADbld"}
ListArg(d) == CASE d.list = "all" -> <<"all">> [] d.list = "fst" -> <<>> [] d.list = "some" -> <<"ED", "EDbld", "SD", "AD", "AF">> [] d.list = "rest" -> <<"ED", "EDtwr", "HD", "BD", "BDbld", "IW", "SrvD", "MD", "AD", "ADbld">> [] d.list = "one" -> "ED"
RECURSIVE Loaded(_, _)
Loaded(d, f) == f = "Fst" \/ (d.bad # f /\ On(d, f) /\ Asked(d, f) /\ d.gone # f /\ d.unused # f /\ Loaded(d, Parent[f]))
\* --- where the files are (from the scratch folder), and how their parent names them
Folder(d) == CASE d.lay = "flat" -> "run/" [] d.lay = "sub" -> "run/my mod/" [] d.lay = "up" -> "shared/" [] d.lay = "abs" -> "lib/"
Place(d, f) == CASE f = "Fst" -> "run/main.fst"
   [] f \in Tops -> Folder(d) \o f \o ".dat"
   [] f = "AC1" -> (CASE d.lay = "flat" -> "run/" [] d.lay = "sub" -> "run/my mod/parts/xy/" [] d.lay = "up" -> "coords/" [] d.lay = "abs" -> "lib/") \o "AC1.dat"
   [] OTHER -> (CASE d.lay = "flat" -> "run/" [] d.lay = "sub" -> "run/my mod/parts/" [] d.lay = "up" -> "parts/" [] d.lay = "abs" -> "lib/") \o f \o ".dat"
\* a name that says there is no file
NoName(d, f) == IF d.style = 1 THEN "unused" ELSE CASE f \in {"ED", "IW", "BDbld"} -> "NA" [] f \in {"BD", "HD", "EDbld"} -> "NaN" [] f \in {"SD", "EDtwr", "AF1"} -> "none" [] f \in {"AD", "MD", "AF2"} -> "dir/Unused" [] OTHER -> "NONE"
Name(d, f) == IF d.unused = f THEN NoName(d, f) ELSE
   (CASE d.lay = "flat" -> "" [] d.lay = "abs" -> "~root~/lib/"
      [] d.lay = "sub" -> (IF f \in Tops THEN "my mod/" ELSE IF f = "AC1" THEN "xy/" ELSE "parts/")
      [] d.lay = "up" -> (IF f \in Tops THEN "../shared/" ELSE IF f = "AC1" THEN "../coords/" ELSE "../parts/")) \o f \o ".dat"
Quo(s) == "\"" \o s \o "\""
P(x, lab) == x \o "   " \o lab \o "   - some text"
Hd == <<"------- OPENFAST EXAMPLE INPUT FILE -------------------", "made by hand">>
RefN(d, f) == P(IF On(d, f) THEN Quo(Name(d, f)) ELSE Quo("unused"), "")
Ref(d, f, lab) == P(IF On(d, f) THEN Quo(Name(d, f)) ELSE Quo("unused"), lab)
NumS(b) == Str(b)
\* a polar that cannot be read
BadLines == <<"too", "short">>
Lines(d, m, f) == IF d.bad = f THEN BadLines ELSE Hd \o <<P(Str(m[f]), "Mark")>> \o
   (CASE f = "Fst" -> <<P("2", "InterpOrder"), P(Str(d.elast), "CompElast"), P(Str(d.inflow), "CompInflow"), P(Str(d.aero), "CompAero"), P(Str(d.servo), "CompServo"), P(Str(d.hydro), "CompHydro"), P(Str(d.sub), "CompSub"), P(Str(d.moor), "CompMooring"), P("0", "CompIce"),
            Ref(d, "ED", "EDFile"), Ref(d, "BD", "BDBldFile(1)"), Ref(d, "BD", "BDBldFile(2)"), Ref(d, "BD", "BDBldFile(3)"), Ref(d, "IW", "InflowFile"), Ref(d, "AD", "AeroFile"), Ref(d, "SrvD", "ServoFile"), Ref(d, "HD", "HydroFile"), Ref(d, "SD", "SubFile"), Ref(d, "MD", "MooringFile"), P(Quo("unused"), "IceFile")>>
    [] f = "ED" -> <<Ref(d, "EDbld", IF d.style = 1 THEN "BldFile(1)" ELSE "BldFile1"), Ref(d, "EDbld", IF d.style = 1 THEN "BldFile(2)" ELSE "BldFile2"), Ref(d, "EDbld", IF d.style = 1 THEN "BldFile(3)" ELSE "BldFile3"), Ref(d, "EDtwr", "TwrFile")>>
    [] f = "BD" -> <<Ref(d, "BDbld", "BldFile")>>
    [] f = "AD" -> (IF d.aero = 2 THEN <<P("2", "NumAFfiles"), Ref(d, "AF1", "AFNames"), Quo(Name(d, "AF2")), P("True", "UseBlCm"), Ref(d, "ADbld", "ADBlFile(1)"), Ref(d, "ADbld", "ADBlFile(2)"), Ref(d, "ADbld", "ADBlFile(3)")>>
                    ELSE <<P("2", "NumFoil"), Ref(d, "AF1", "FoilNm"), Quo(Name(d, "AF2"))>>)
    [] f = "AF1" /\ d.aero = 2 -> <<P("@" \o Quo(Name(d, "AC1")), "NumCoords"), P("1", "NumTabs")>>
    [] f = "AF2" /\ d.aero = 2 -> <<P("0", "NumCoords"), P("1", "NumTabs")>>
    [] OTHER -> <<P("7", "Other")>>)
There(d) == {f \in Files : On(d, f) /\ d.gone # f /\ (f # "Fst" => d.unused # f)}
RECURSIVE SetToSeqR(_)
SetToSeqR(S0) == IF S0 = {} THEN <<>> ELSE LET x == CHOOSE y \in S0 : TRUE IN <<x>> \o SetToSeqR(S0 \ {x})
\* a name that says there is no file says so even if there is a file of that name
DecoyAt(d, f) == (IF f \in Tops THEN "run/" ELSE Folder(d)) \o NoName(d, f)
Decoy(d, m) == IF d.unused = "" \/ d.lay = "abs" THEN <<>> ELSE <<MkText(DecoyAt(d, d.unused), Hd \o <<P("4711", "Mark"), P("1", "Other")>>)>>
Make(d, m) == Decoy(d, m) \o Flatten([i \in 1..Cardinality(There(d)) |-> LET f == SetToSeqR(There(d))[i] IN <<MkText(Place(d, f), Lines(d, m, f))>>])
\* --- what must be seen: the loaded file under its module, None otherwise
Vt(o, key) == <<Attr("fst_vt"), key>>
Slot(d, m, o, f, key) == IF Loaded(d, f) THEN <<Get(o, Vt(o, key) \o <<"Mark">>, m[f], "exact")>> ELSE <<Get(o, Vt(o, key), None, "exact")>>
Nil(o, key) == <<Get(o, Vt(o, key), None, "exact")>>
Pol(d, m, o, i, f) == IF Loaded(d, f) THEN <<Get(o, <<Attr("fst_vt"), "af_data", i, "Mark">>, m[f], "exact")>> ELSE <<Get(o, <<Attr("fst_vt"), "af_data", i>>, None, "exact")>>
\* parts: also what AeroDyn names
Parts(d, m, o) == Slot(d, m, o, "ADbld", "AeroDynBlade")
   \o (IF Loaded(d, "AD") THEN <<[op |-> "count", o |-> o, at |-> <<Attr("fst_vt"), "af_data">>, expect |-> 2]>> \o Pol(d, m, o, 0, "AF1") \o Pol(d, m, o, 1, "AF2") ELSE <<[op |-> "count", o |-> o, at |-> <<Attr("fst_vt"), "af_data">>, expect |-> 0]>>)
   \o (IF Loaded(d, "AC1") THEN <<[op |-> "count", o |-> o, at |-> <<Attr("fst_vt"), "ac_data">>, expect |-> 1], Get(o, <<Attr("fst_vt"), "ac_data", 0, "Mark">>, m["AC1"], "exact")>> ELSE <<>>)
Core(d, m, o) == Slot(d, m, o, "Fst", "Fst") \o Slot(d, m, o, "ED", "ElastoDyn") \o Slot(d, m, o, "EDtwr", "ElastoDynTower") \o Slot(d, m, o, "EDbld", "ElastoDynBlade") \o Slot(d, m, o, "IW", "InflowWind")
   \o (IF d.aero = 1 THEN Slot(d, m, o, "AD", "AeroDyn14") \o Nil(o, "AeroDyn15") ELSE Slot(d, m, o, "AD", "AeroDyn15") \o Nil(o, "AeroDyn14"))
   \o Slot(d, m, o, "SrvD", "ServoDyn") \o Slot(d, m, o, "HD", "HydroDyn") \o Slot(d, m, o, "SD", "SubDyn")
   \o (IF d.moor = 1 THEN Slot(d, m, o, "MD", "MAP") \o Nil(o, "MoorDyn") ELSE Slot(d, m, o, "MD", "MoorDyn") \o Nil(o, "MAP"))
   \o Slot(d, m, o, "BD", "BeamDyn") \o Slot(d, m, o, "BDbld", "BeamDynBlade")
   \o <<Get(o, <<Attr("version")>>, "OF2", "exact")>>
\* the list of what was read: key -> file (of the last one, where a key has several)
Read1(d) == {f \in Files : Loaded(d, f) /\ ~(f = "AF1" /\ Loaded(d, "AF2"))}
Listed(d, o) == <<[op |-> "paths", o |-> o, at |-> <<Attr("inputfiles")>>, expect |-> [i \in 1..Cardinality(Read1(d)) |-> LET f == SetToSeqR(Read1(d))[i] IN <<AskKey[f], Place(d, f)>>]]>>
\* the names of the files of the structural modules, whether or not they could be read
Named(d, f) == On(d, f) /\ d.unused # f /\ (f \in {"ED", "BD"} \/ Loaded(d, Parent[f]))
StructFiles(d) == SelectSeq(<<"ED", "EDtwr", "EDbld", "BD", "BDbld">>, LAMBDA f : Named(d, f))
Struct(d, o) == <<[op |-> "paths", o |-> o, at |-> <<Attr("inputFiles")>>, expect |-> [i \in 1..Len(StructFiles(d)) |-> Place(d, StructFiles(d)[i])]]>>
\* the older names of the parts
Short(d, m, o, f, a) == <<IF Loaded(d, f) THEN Get(o, <<Attr(a), "Mark">>, m[f], "exact") ELSE Get(o, <<Attr(a)>>, None, "exact")>>
Older(d, m, o) == Short(d, m, o, "Fst", "fst") \o Short(d, m, o, "ED", "ED") \o Short(d, m, o, "IW", "IW") \o Short(d, m, o, "BD", "BD") \o Short(d, m, o, "BDbld", "BDbld") \o Short(d, m, o, "AD", "AD")
   \o (IF ~Loaded(d, "AD") THEN <<>> ELSE <<[op |-> "count", o |-> o, at |-> <<Attr("AD"), Attr("AF")>>, expect |-> 2], IF Loaded(d, "ADbld") THEN Get(o, <<Attr("AD"), Attr("Bld1"), "Mark">>, m["ADbld"], "exact") ELSE Get(o, <<Attr("AD"), Attr("Bld1")>>, None, "exact")>>)
See(d, m, o) == Core(d, m, o) \o Parts(d, m, o) \o Listed(d, o) \o Struct(d, o) \o Older(d, m, o) \o <<[op |-> "repr", o |-> o]>>
Mark0 == [f \in Files |-> CASE f = "Fst" -> 1 [] f = "ED" -> 2 [] f = "EDtwr" -> 3 [] f = "EDbld" -> 4 [] f = "BD" -> 5 [] f = "BDbld" -> 6 [] f = "IW" -> 7 [] f = "AD" -> 8 [] f = "ADbld" -> 9 [] f = "AF1" -> 10 [] f = "AF2" -> 11 [] f = "AC1" -> 12 [] f = "SrvD" -> 13 [] f = "HD" -> 14 [] f = "SD" -> 15 [] f = "MD" -> 16]
\* an absent file is told to the user
OpenDeck(d, o, path) == [op |-> "open", o |-> o, cls |-> "FASTInputDeck", path |-> path, kw |-> <<<<"readlist", ListArg(d)>>>>]
   @@ (IF path = Place(d, "Fst") /\ d.gone # "" /\ d.gone \in Files /\ d.unused # d.gone /\ Asked(d, d.gone) /\ Loaded(d, Parent[d.gone]) THEN [says |-> <<d.gone \o ".dat">>] ELSE [says |-> <<>>])
Ok(d) == (d.bad # "" => d.bad \in {"AF1", "AF2"} /\ On(d, d.bad) /\ d.gone = "" /\ d.unused = "") /\ (d.gone = "" \/ (d.gone \in Files /\ On(d, d.gone) /\ d.gone # "Fst")) /\ (d.unused = "" \/ (On(d, d.unused) /\ d.unused \notin {"Fst", "AC1"})) /\ (d.gone = "" \/ d.unused = "" \/ d.gone # d.unused)
Init == /\ ds \in {d \in DataSets : Ok(d)} /\ mk = Mark0 /\ n = 0
        /\ hist = Make(ds, mk) \o <<OpenDeck(ds, "A", Place(ds, "Fst"))>> \o See(ds, mk, "A")
\* --- the same object reads again (nothing is kept from before)
Again == /\ "again" \in Ops /\ n < K /\ n' = n + 1 /\ UNCHANGED <<ds, mk>>
         /\ hist' = hist \o <<[op |-> "read", o |-> "A", path |-> Place(ds, "Fst")]>> \o See(ds, mk, "A")
            \o <<[op |-> "open", o |-> "V", cls |-> "FASTInputDeck", path |-> Place(ds, "Fst"), kw |-> <<<<"readlist", ListArg(ds)>>, <<"verbose", TRUE>>>>]>> \o See(ds, mk, "V")
Another == /\ "another" \in Ops /\ n < K /\ n' = n + 1
           /\ \E e \in {x \in DataSets : Ok(x) /\ x # ds /\ x.list = ds.list} :
              LET m == [f \in Files |-> Mark0[f] + 100 * (n + 1)] IN
              /\ ds' = e /\ mk' = m
              /\ hist' = hist \o [i \in 1..Cardinality(There(ds)) |-> RmFile(Place(ds, SetToSeqR(There(ds))[i]))] \o Make(e, m) \o <<[op |-> "read", o |-> "A", path |-> Place(e, "Fst")]>> \o See(e, m, "A")
\* --- only AeroDyn
OnlyAD == /\ "ad" \in Ops /\ n < K /\ n' = n + 1 /\ UNCHANGED <<ds, mk>> /\ ds.aero = 2 /\ ds.list = "all" /\ ds.gone = "" /\ ds.unused = "" /\ ds.lay \in {"flat", "up"}
          /\ hist' = hist \o <<[op |-> "new", o |-> "D", cls |-> "FASTInputDeck"], [op |-> "call", o |-> "D", at |-> <<>>, m |-> "readAD", args |-> <<[path |-> Place(ds, "AD")], <<"AD", "AF", "ADbld", "AC">>>>]>>
              \o Slot(ds, mk, "D", "AD", "AeroDyn15") \o Parts(ds, mk, "D")
              \o <<[op |-> "call", o |-> "D", at |-> <<>>, m |-> "readAD", args |-> <<[path |-> Place(ds, "AD")], <<"AD", "AF", "ADbld", "AC">>>>]>> \o Parts(ds, mk, "D")
              \* a list given once holds once
              \o <<[op |-> "call", o |-> "D", at |-> <<>>, m |-> "readAD", args |-> <<[path |-> Place(ds, "AD")], "AD">>]>> \o Slot(ds, mk, "D", "AD", "AeroDyn15") \o Nil("D", "AeroDynBlade")
              \o <<[op |-> "call", o |-> "D", at |-> <<>>, m |-> "readAD", args |-> <<[path |-> Place(ds, "AD")]>>]>> \o Slot(ds, mk, "D", "AD", "AeroDyn15") \o Parts(ds, mk, "D")
\* --- writing: a complete deck goes to another folder under standard names; what AeroDyn names is not written
Complete(d) == d.moor \in 0..2 /\ d.sub \in 0..1 /\ d.gone = "" /\ d.bad = "" /\ d.unused = "" /\ d.list = "all"
Pres == <<<<"", "">>, <<"a_", "_v1.2">>>>
Out(d, k, w) == [d EXCEPT !.lay = w]
FName(d, f, pr) == CASE f = "SrvD" -> pr[1] \o "SvD" \o pr[2] \o ".dat" [] f = "EDbld" -> pr[1] \o "ED_bld" \o pr[2] \o ".dat" [] f = "EDtwr" -> pr[1] \o "ED_twr" \o pr[2] \o ".dat" [] f = "BDbld" -> pr[1] \o "BD_bld" \o pr[2] \o ".dat" [] OTHER -> pr[1] \o f \o pr[2] \o ".dat"
Written(d) == {f \in Files : On(d, f) /\ f \notin {"Fst", "ADbld", "AF1", "AF2", "AC1"} /\ ~(f = "EDbld" /\ d.elast = 2)}
Bare(d) == [d EXCEPT !.elast = d.elast]
\* what is seen of the written deck: an ElastoDyn blade is only part of it when ElastoDyn has the blades
CoreW(d, m, o) == IF d.elast = 2 THEN SelectSeq(Core(d, m, o), LAMBDA x : Len(x.at) < 2 \/ x.at[2] # "ElastoDynBlade") ELSE Core(d, m, o)
\* every blade is named
Where(dir, x) == Quo((IF dir = "" THEN "" ELSE dir \o "/") \o x)
BldRefs(d, o, dir, pr) == IF d.elast = 2
   THEN [i \in 1..3 |-> Get(o, <<Attr("fst_vt"), "Fst", "BDBldFile(" \o Str(i) \o ")">>, Where(dir, FName(d, "BD", pr)), "exact")]
   ELSE [i \in 1..3 |-> Get(o, <<Attr("fst_vt"), "ElastoDyn", IF d.style = 1 THEN "BldFile(" \o Str(i) \o ")" ELSE "BldFile" \o Str(i)>>, Quo(FName(d, "EDbld", pr)), "exact")]
ADRefs(d, o) == IF d.aero = 2 THEN <<Get(o, <<Attr("fst_vt"), "AeroDyn15", "AFNames">>, <<Quo(Name(d, "AF1")), Quo(Name(d, "AF2"))>>, "exact"), Get(o, <<Attr("fst_vt"), "AeroDyn15", "ADBlFile(1)">>, Quo(Name(d, "ADbld")), "exact")>> ELSE <<>>
WriteIt == /\ "write" \in Ops /\ n < K /\ n' = n + 1 /\ UNCHANGED <<ds, mk>> /\ Complete(ds) /\ ds.lay # "abs"
           /\ \E i \in 1..Len(Pres), where \in {"out", "run"}, dir \in {"", "mods"} :
              LET pr == Pres[i]  main == where \o "/new" \o Str(n) \o ".fst"  sub == IF dir = "" THEN where \o "/" ELSE where \o "/mods/" IN
              /\ where = "run" => (i = 2 /\ dir = "")
              /\ hist' = hist \o <<[op |-> "mkdir", path |-> where \o "/mods"], [op |-> "write", o |-> "A", path |-> main, kw |-> <<<<"prefix", pr[1]>>, <<"suffix", pr[2]>>>> \o (IF dir = "" THEN <<>> ELSE <<<<"directory", [path |-> where \o "/mods"]>>>>)]>>
                 \o CoreW(ds, mk, "A")
                 \o [j \in 1..Cardinality(Written(ds)) |-> [op |-> "exists", path |-> sub \o FName(ds, SetToSeqR(Written(ds))[j], pr), expect |-> TRUE]]
                 \o <<OpenDeck(ds, "B", main)>> \o CoreW(ds, mk, "B") \o ADRefs(ds, "B") \o BldRefs(ds, "B", dir, pr)
                 \o <<OpenDeck(ds, "C", Place(ds, "Fst"))>> \o See(ds, mk, "C") \o <<[op |-> "read", o |-> "A", path |-> Place(ds, "Fst")]>> \o See(ds, mk, "A")
\* written where it is, under standard names
Overwrite == /\ "over" \in Ops /\ n < K /\ n' = n + 1 /\ UNCHANGED <<ds, mk>> /\ Complete(ds) /\ ds.lay = "flat"
             /\ hist' = hist \o <<[op |-> "write", o |-> "A"]>> \o CoreW(ds, mk, "A") \o <<OpenDeck(ds, "B", Place(ds, "Fst"))>> \o CoreW(ds, mk, "B") \o Parts(ds, mk, "B") \o ADRefs(ds, "B") \o BldRefs(ds, "B", "", <<"", "">>)
                \o <<[op |-> "exists", path |-> "run/ED.dat", expect |-> TRUE], [op |-> "exists", path |-> "run/ED_twr.dat", expect |-> TRUE]>>
\* an edit of any part is what is written
EditWrite == /\ "edit" \in Ops /\ n < K /\ n' = n + 1 /\ UNCHANGED ds /\ Complete(ds) /\ ds.lay # "abs"
             /\ \E f \in Written(ds) \cup {"Fst"} :
                LET key == CASE f = "Fst" -> "Fst" [] f = "ED" -> "ElastoDyn" [] f = "EDtwr" -> "ElastoDynTower" [] f = "EDbld" -> "ElastoDynBlade" [] f = "BD" -> "BeamDyn" [] f = "BDbld" -> "BeamDynBlade" [] f = "IW" -> "InflowWind" [] f = "AD" -> (IF ds.aero = 1 THEN "AeroDyn14" ELSE "AeroDyn15") [] f = "SrvD" -> "ServoDyn" [] f = "HD" -> "HydroDyn" [] f = "SD" -> "SubDyn" [] f = "MD" -> (IF ds.moor = 1 THEN "MAP" ELSE "MoorDyn")
                    m == [mk EXCEPT ![f] = @ + 1000] IN
                /\ mk' = mk
                /\ hist' = hist \o <<Set("A", Vt("A", key) \o <<"Mark">>, m[f]), [op |-> "mkdir", path |-> "e" \o Str(n)], [op |-> "write", o |-> "A", path |-> "e" \o Str(n) \o "/m.fst"], OpenDeck(ds, "B", "e" \o Str(n) \o "/m.fst")>> \o CoreW(ds, m, "B")
                   \o <<[op |-> "read", o |-> "A", path |-> Place(ds, "Fst")]>> \o See(ds, mk, "A")
Next == Overwrite \/ Again \/ Another \/ OnlyAD \/ WriteIt \/ EditWrite
Emit == n = K => PrintT(ToJson([ops |-> hist]))
\* --- other main files: an AeroDyn driver, and an older FAST
DrvLines(ci) == Hd \o <<P("1", "NumTurbines"), P(Str(ci), "CompInflow"), P(Quo("IW.dat"), "InflowFile"), P(Quo("ad/AD.dat"), "AeroFile"), P("1", "Mark")>>
F7Lines == Hd \o <<P("1", "Mark"), P(Quo("x.dat"), "EDFile")>>
OtherInit == /\ ds \in {d \in DataSets : d.elast = 1 /\ d.inflow = 1 /\ d.aero = 2 /\ d.gone = "" /\ d.unused = "" /\ d.list = "all" /\ d.lay = "flat"} /\ mk = Mark0 /\ n = 0
             /\ hist = <<MkText("d/m.dvr", DrvLines(1)), MkText("d/n.dvr", DrvLines(0)), MkText("d/IW.dat", Lines(ds, mk, "IW")), MkText("d/ad/AD.dat", Lines(ds, mk, "AD")), MkText("d/ad/ADbld.dat", Lines(ds, mk, "ADbld")), MkText("d/ad/AF1.dat", Lines(ds, mk, "AF1")), MkText("d/ad/AF2.dat", Lines(ds, mk, "AF2")), MkText("d/ad/AC1.dat", Lines(ds, mk, "AC1")),
                  OpenDeck(ds, "A", "d/m.dvr"), Get("A", <<Attr("version")>>, "AD_driver", "exact")>> \o Slot(ds, mk, "A", "IW", "InflowWind") \o Slot(ds, mk, "A", "AD", "AeroDyn15") \o Parts(ds, mk, "A") \o Nil("A", "ElastoDyn")
                  \o <<MkText("d/m.fst", F7Lines), [op |-> "read", o |-> "A", path |-> "d/m.fst"], Get("A", <<Attr("version")>>, "F7", "exact"), Get("A", <<Attr("fst_vt"), "Fst", "Mark">>, 1, "exact")>> \o Nil("A", "ElastoDyn") \o Nil("A", "InflowWind") \o Nil("A", "AeroDyn15") \o Nil("A", "AeroDynBlade")
                  \o <<OpenDeck(ds, "C", "d/n.dvr"), Get("C", <<Attr("version")>>, "AD_driver", "exact")>> \o Nil("C", "InflowWind") \o Slot(ds, mk, "C", "AD", "AeroDyn15") \o Parts(ds, mk, "C")
                  \o <<[op |-> "open", o |-> "B", cls |-> "FASTInputDeck", path |-> "d/nothere.fst", err |-> "any"]>>
=============================================================================
