------------------------------- MODULE Detect -------------------------------
(***************************************************************************)
(* Histories of openings with user formats: see DetectRule.                *)
(***************************************************************************)
EXTENDS DetectRule, Json
CONSTANTS Exts, Prios, Verdicts, FileExts, Contents, Bad, NMods, Imps, Ops, K
VARIABLES mods, reg, up, n, hist       \* up: the registry reg has been made
vars == <<mods, reg, up, n, hist>>
\* --- user modules
\* state "ok": defines a format; otherwise a module that cannot be used
ExtOf(k) == CASE k = "zz" -> <<".zz">> [] k = "ZZ" -> <<".q1", ".ZZ">> [] k = "z*" -> <<".z*">> [] k = "Z*y" -> <<".Z*Y">> [] k = "*" -> <<"*">>
            [] k = "z$*" -> <<".z$*">> [] k = "z+" -> <<".z+">> [] k = "csv" -> <<".csv">> [] k = "dat" -> <<".q2", ".DAT">> [] k = "none" -> <<"">> [] k = "zip" -> <<".z">>
\* priorities (a configuration file has no negative numbers): 1100 + p; 999: none given, 998: asking for it fails
CONSTANT Sts
Mods == [st : Sts, e : Exts, p : Prios, imp : Imps]
BadMods == [st : Bad, e : {"zz"}, p : {999}, imp : {FALSE}]
PrioOf(m) == IF m.p < 1000 THEN 2 ELSE m.p - 1100
Name(i) == "User" \o ToString(i) \o "File"
UserFmt(m, i) == Small([c |-> Name(i), p |-> PrioOf(m[i]), e |-> ExtOf(m[i].e), u |-> i])
RECURSIVE UsersOf(_, _)
UsersOf(m, i) == IF i > Len(m) THEN <<>> ELSE (IF m[i].st \in {"ok", "template"} THEN <<UserFmt(m, i)>> ELSE <<>>) \o UsersOf(m, i + 1)
Users == UsersOf(mods, 1)
NErr == Cardinality({i \in 1..Len(mods) : mods[i].st \notin {"ok", "template", "init"}})
Registry(m) == Sorted(TLCEval(Builtin \o UsersOf(m, 1)))
\* "sub": rejects with an error of its own that is a WrongFormatError; err, oserr, mem, broken, key, attr: fails
\* --- files: an extension, a content, and what each user format says to it
Known(c, x) == CASE c = "table" -> IF x = "CSVFile" THEN "ok" ELSE "wrong"
               [] c = "ae" -> IF x = "HAWC2AEFile" THEN "ok" ELSE "wrong"
               [] OTHER -> c
Verdict(f, x) == IF f.c \in {"missing", "empty"} THEN f.c ELSE IF x.u > 0 THEN (IF f.v[x.u] = "sub" THEN "wrong" ELSE f.v[x.u]) ELSE Known(f.c, x.c)
Said(f) == TLCEval([c \in {reg[i].c : i \in 1..Len(reg)} |-> Verdict(f, reg[CHOOSE i \in 1..Len(reg) : reg[i].c = c])])
Files == [x : FileExts, c : Contents, v : [1..Len(mods) -> Verdicts]]
FreeExts == {y \in FileExts : \E z \in {Low(y)} : \A i \in 1..Len(Builtin) : ~Matches(Builtin[i], z)}
Allowed(f) == \/ f.c \in {"missing", "empty"} \/ (f.c = "table" /\ Low(f.x) \in {".csv", ".txt"}) \/ (f.c = "ae" /\ Low(f.x) = ".dat")
              \/ (f.c = "free" /\ f.x \in FreeExts)

Init == /\ mods \in UNION {[1..k -> Mods \cup BadMods] : k \in NMods} /\ reg = Registry(mods) /\ up = FALSE /\ n = 0 /\ hist = <<>>
Step(ops) == n < K /\ n' = n + 1 /\ hist' = hist \o ops /\ UNCHANGED <<mods, reg>>
Usable == up \/ NErr = 0
List(ig) == /\ "list" \in Ops
            /\ IF Usable \/ ig THEN /\ up' = TRUE
                    /\ Step(<<[op |-> "list", ig |-> ig, names |-> [i \in 1..Len(reg) |-> reg[i].c], errs |-> NErr]>>)
               ELSE UNCHANGED up /\ Step(<<[op |-> "list", ig |-> ig, err |-> "userimport"]>>)
OpenIt(f) == /\ "open" \in Ops
             /\ IF Usable THEN up' = TRUE /\ Step(<<[op |-> "open", f |-> f, res |-> Decide(reg, f.x, Said(f))]>>)
                ELSE UNCHANGED up /\ Step(<<[op |-> "open", f |-> f, res |-> [k |-> "userimport", c |-> ""]]>>)
\* a format given by the caller is not asked whether it wants the file, and its extension does not matter
Named(f) == \E i \in 1..Len(mods) : /\ "named" \in Ops /\ f.c = "free" /\ Usable /\ mods[i].st = "ok" /\ up' = TRUE
               /\ Step(<<[op |-> "named", f |-> f, i |-> i, res |-> [k |-> f.v[i], c |-> Name(i)]]>>)
UserNames == /\ "user" \in Ops /\ UNCHANGED up
             /\ Step(<<IF \E i \in 1..Len(mods) : mods[i].st \in {"broken", "noclass"} THEN [op |-> "user", err |-> "userimport"] ELSE [op |-> "user", names |-> [i \in 1..Len(Users) |-> Users[i].c]]>>)
Next == (\E ig \in BOOLEAN : List(ig)) \/ (\E f \in {g \in Files : Allowed(g)} : OpenIt(f) \/ Named(f)) \/ UserNames
\* for sampling: one module, file or step at a time (an initial state is drawn anew by the first step)
SimInit == mods = <<>> /\ reg = <<>> /\ up = FALSE /\ n = -1 /\ hist = <<>>
Draw == /\ n = -1 /\ n' = 0 /\ UNCHANGED <<up, hist>>
        /\ \E k \in {RandomElement(NMods)} : \E m \in {TLCEval([i \in 1..k |-> RandomElement(IF RandomElement(1..4) = 1 /\ Bad # {} THEN BadMods ELSE Mods)])} : mods' = m /\ reg' = Registry(m)
SimNext == IF n = -1 THEN Draw
           ELSE \/ (\E t \in 1..3 : \E f \in {[x |-> RandomElement(FileExts), c |-> RandomElement(Contents), v |-> [i \in 1..Len(mods) |-> RandomElement(Verdicts)]]} : Allowed(f) /\ (OpenIt(f) \/ Named(f)))
                \/ (\E ig \in {RandomElement({TRUE, TRUE, FALSE})} : List(ig)) \/ UserNames
\* --- properties of the model
\* the registry is a permutation of the formats, sorted, and stable
Pos(r, c) == CHOOSE i \in 1..Len(r) : r[i].c = c
Stable == n = 0 => \E all \in {Builtin \o Users} :
   /\ Len(reg) = Len(all) /\ {reg[i] : i \in 1..Len(reg)} = {all[i] : i \in 1..Len(all)}
   /\ \A i \in 1..Len(reg), j \in 1..Len(reg) : i < j => reg[i].p <= reg[j].p
   /\ \A i \in 1..Len(all), j \in 1..Len(all) : (i < j /\ all[i].p = all[j].p) => Pos(reg, all[i].c) < Pos(reg, all[j].c)
\* whoever decides: all matching formats before it reject; nobody decides: all matching formats reject
Outcomes == n >= 0 => \A h \in 1..Len(hist) : (hist[h].op = "open" /\ hist[h].res.k # "userimport") =>
    \E f \in {hist[h].f}, r \in {hist[h].res}, x \in {Low(hist[h].f.x)} : \E upto \in {IF r.k = "notdetected" THEN Len(reg) ELSE Pos(reg, r.c) - 1} :
        /\ \A i \in 1..upto : Matches(reg[i], x) => Verdict(f, reg[i]) = "wrong"
        /\ r.k # "notdetected" => Matches(reg[upto + 1], x) /\ Verdict(f, reg[upto + 1]) = r.k /\ r.k # "wrong"
\* once made, the registry stays
Kept == [][n >= 0 => reg' = reg /\ (up => up')]_vars
Emit == n = K => PrintT(ToJson([mods |-> mods, ops |-> hist]))
=============================================================================
