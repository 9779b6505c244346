------------------------------- MODULE Bladed -------------------------------
(***************************************************************************)
(* Results of a Bladed run.  A result is a header file (%nn) describing an *)
(* array variables x [sections x] steps, and a data file ($nn) holding it  *)
(* in binary or text, the variables fastest.  A run is a set of results    *)
(* opened one at a time, or together through the project file ($PJ).       *)
(***************************************************************************)
EXTENDS Base
CONSTANTS Mode, NSens, NSecs, NTs, Stores, Quotes, SecKinds, Conts, Seps, Times, NRes, Stems, Firsts

VARIABLES run, stem, phase, hist
vars == <<run, stem, phase, hist>>

VarNames(r) == CASE r.q = 0 -> <<"'Time from start'", "'Demanded power'", "'Blade 1 Mx (Root axes)'">>
                 [] r.q = 3 -> <<"Mx", "'Rotor speed'", "Mx">>
                 [] r.q = 1 -> <<"Time", "Power", "Mx">>
                 [] OTHER   -> <<"Speed", "'Rotor speed'", "Mz">>
PlainNames(r) == CASE r.q = 0 -> <<"Time from start", "Demanded power", "Blade 1 Mx (Root axes)">>
                   [] r.q = 3 -> <<"Mx", "Rotor speed", "Mx">>
                   [] r.q = 1 -> <<"Time", "Power", "Mx">>
                   [] OTHER   -> <<"Speed", "Rotor speed", "Mz">>
RawUnits(r) == CASE r.q = 0 -> <<"T", "P", "FL">> [] r.q = 1 -> <<"T", "P", "FL">> [] r.q = 3 -> <<"F", "A/T", "FL">> [] OTHER -> <<"L/TT", "A/T", "MLL">>
Units(r)    == CASE r.q = 0 -> <<"s", "W", "Nm">> [] r.q = 1 -> <<"s", "W", "Nm">> [] r.q = 3 -> <<"N", "rad/s", "Nm">> [] OTHER -> <<"m/s^2", "rad/s", "kgmm">>
SecVal == <<"0.0000000", "20.2000008", "61.5">>
SecTxt(r) == IF r.sx = 1 THEN <<"'Root'", "'Mid span'", "'Tip'">> ELSE SecVal
SecName(r) == IF r.sx = 1 THEN <<"Root-", "Mid span-", "Tip-">> ELSE <<"0.0m-", "20.2m-", "61.5m-">>
Cat(r) == CASE r.q = 0 -> "Control variables" [] r.q = 1 -> "Hub loads: fixed" [] r.q = 3 -> "Summary" [] OTHER -> "Blade 1 Loads"

Result == [nd : {2, 3}, ns : NSens, nsec : NSecs, nt : NTs, st : Stores, tm : Times, q : Quotes, sx : SecKinds, cont : Conts, sep : Seps, fst : Firsts]
OK(r) == (r.fst > 0 => r.st \in {"R4", "I4"}) /\ (r.nd = 2 => r.nsec = 1 /\ r.sx = 0)
Nsec(r) == r.nsec
\* value of variable v of section s at step t; integers when stored as integers
\* fst = 1: the bytes of the first value start with a line feed, 2: they are printable
First(r) == IF r.st = "I4" THEN Q(IF r.fst = 1 THEN 10 ELSE 808464432, 1) ELSE IF r.fst = 1 THEN Q(8388618, 8388608) ELSE Q(11546672, 16777216)
Val(r, i, t, s, v) == IF r.fst > 0 /\ t = 1 /\ s = 1 /\ v = 1 THEN First(r) ELSE LET k == (IF (t + s + v) % 2 = 0 THEN 1 ELSE -1) * (10000 * i + 1000 * t + 100 * s + 10 * v + 1)
                      IN  IF r.st = "I4" THEN Q(k, 1) ELSE IF r.st = "TX" THEN OddE(t * 5 + s * 3 + v, Q(k, 8)) ELSE IF r.st = "R8" THEN Odd(t * 5 + s * 3 + v, Q(k, 8)) ELSE Q(k, 8)
T0(r) == Q(r.nt, 2)      \* MIN
DT(r) == Q(1, 4)         \* STEP
TimeV(r, t) == QAdd(T0(r), QMul(DT(r), Int2Q(t - 1)))
B(r) == IF r.sep = 0 THEN "\t" ELSE "    "
Words(ss) == Join(ss, " ")
Pre(s, n) == SubSeq(s, 1, n)
Split(r, head, ws) == IF r.cont = 0 \/ Len(ws) = 1 THEN <<head \o B(r) \o Words(ws)>>
                      ELSE <<head \o B(r) \o Words(Pre(ws, Len(ws) - 1)), "  " \o ws[Len(ws)]>>
AxisTime(r) == IF r.tm THEN <<"AXISLAB" \o B(r) \o "'Time'", "AXIUNIT" \o B(r) \o "T", "AXIMETH" \o B(r) \o "2", "MIN " \o B(r) \o Dec(T0(r)), "STEP" \o B(r) \o Dec(DT(r))>>
               ELSE <<"AXISLAB" \o B(r) \o "'Wind speed'", "AXIUNIT" \o B(r) \o "L/T", "AXIMETH" \o B(r) \o "3", "AXIVAL" \o B(r) \o Words([t \in 1..r.nt |-> Dec(Q(3 * t, 1))])>>
AxisSec(r) == IF r.nd = 2 THEN <<>>
              ELSE <<"AXISLAB" \o B(r) \o "'Distance along blade'", "AXIUNIT" \o B(r) \o "L", "AXIMETH" \o B(r) \o "3",
                     (IF r.sx = 1 THEN "AXITICK" ELSE "AXIVAL") \o B(r) \o Words(Pre(SecTxt(r), r.nsec))>>
Fmt(r) == CASE r.st = "R8" -> "R*8" [] r.st = "I4" -> "I*4" [] OTHER -> "R*4"
Header(r) == <<"FILE" \o B(r) \o "run.$xx", "ACCESS" \o B(r) \o (IF r.st = "TX" THEN "S" ELSE "D"), "FORM" \o B(r) \o (IF r.st = "TX" THEN "F" ELSE "U"),
               "RECL" \o B(r) \o "4", "FORMAT" \o B(r) \o Fmt(r), "CONTENT" \o B(r) \o "'POWPROD'", "CONFIG" \o B(r) \o "'STATIONARY'",
               "NDIMENS" \o B(r) \o Str(r.nd), "DIMENS" \o B(r) \o (IF r.nd = 2 THEN Str(r.ns) \o B(r) \o Str(r.nt) ELSE Str(r.ns) \o B(r) \o Str(r.nsec) \o B(r) \o Str(r.nt)),
               "GENLAB" \o B(r) \o "'" \o Cat(r) \o "'">>
             \o Split(r, "VARIAB", Pre(VarNames(r), r.ns)) \o Split(r, "VARUNIT", Pre(RawUnits(r), r.ns))
             \o AxisSec(r) \o AxisTime(r) \o <<"NVARS" \o B(r) \o "0">>
Arr(r, i) == [t \in 1..r.nt |-> [s \in 1..r.nsec |-> [v \in 1..r.ns |-> Val(r, i, t, s, v)]]]
TextRows(r, i) == [k \in 1..(r.nt * r.nsec) |-> "  " \o Join([v \in 1..r.ns |-> Dec(Val(r, i, ((k - 1) \div r.nsec) + 1, ((k - 1) % r.nsec) + 1, v))], "  ")]
IntArr(r, i) == [t \in 1..r.nt |-> [s \in 1..r.nsec |-> [v \in 1..r.ns |-> Val(r, i, t, s, v).n]]]
DataOp(r, i, p) == CASE r.st = "TX" -> MkText(p, TextRows(r, i))
                     [] r.st = "R8" -> MkFile(p, <<F8(Arr(r, i))>>)
                     [] r.st = "I4" -> MkFile(p, <<I4(IntArr(r, i))>>)
                     [] OTHER       -> MkFile(p, <<F4(Arr(r, i))>>)
Num == <<"04", "09", "25", "41">>
HP(s, i) == s \o ".%" \o Num[i]
DP(s, i) == s \o ".$" \o Num[i]
Files(i) == <<MkText(HP(stem, i), Header(run[i]))>> \o (IF run[i].gone THEN <<>> ELSE <<DataOp(run[i], i, DP(stem, i))>>)

\* --- the table of one result
Cols(r) == [k \in 1..(r.nsec * r.ns) |-> LET s == ((k - 1) \div r.ns) + 1
                                             v == ((k - 1) % r.ns) + 1
                                         IN  (IF r.nd = 3 THEN SecName(r)[s] ELSE "") \o PlainNames(r)[v] \o " [" \o Units(r)[v] \o "]"]
Row(r, i, t) == [k \in 1..(r.nsec * r.ns) |-> Val(r, i, t, ((k - 1) \div r.ns) + 1, ((k - 1) % r.ns) + 1)]
Member(x, s) == \E i \in 1..Len(s) : s[i] = x
RECURSIVE Keep(_, _)        \* positions of the first occurrence of each name
Keep(cs, k) == IF k = 0 THEN <<>> ELSE Keep(cs, k - 1) \o (IF Member(cs[k], Pre(cs, k - 1)) THEN <<>> ELSE <<k>>)
Uniq(cs, rows) == LET ks == Keep(cs, Len(cs)) IN Table([j \in 1..Len(ks) |-> cs[ks[j]]], [t \in 1..Len(rows) |-> [j \in 1..Len(ks) |-> rows[t][ks[j]]]])
TimeCols(r) == IF r.tm THEN <<"Time [s]">> ELSE <<>>
TimeVals(r, t) == IF r.tm THEN <<TimeV(r, t)>> ELSE <<>>
Group(idx) == LET r1 == run[idx[1]]
                  cs == TimeCols(r1) \o Flatten([j \in 1..Len(idx) |-> Cols(run[idx[j]])])
                  rows == [t \in 1..r1.nt |-> TimeVals(r1, t) \o Flatten([j \in 1..Len(idx) |-> Row(run[idx[j]], idx[j], t)])]
              IN  Uniq(cs, rows)
One(i) == Group(<<i>>)

\* --- the project: all results with a time axis, grouped by their number of steps
RECURSIVE Sel(_, _)
Sel(P(_), k) == IF k = 0 THEN <<>> ELSE Sel(P, k - 1) \o (IF P(k) THEN <<k>> ELSE <<>>)
InProject(i) == (Len(run) = 1 \/ run[i].tm) /\ ~run[i].gone
OfLen(n) == LET P(i) == InProject(i) /\ run[i].nt = n IN Sel(P, Len(run))
Lens == {run[i].nt : i \in {j \in 1..Len(run) : InProject(j)}}
Multi == {n \in Lens : Len(OfLen(n)) > 1}
PlainName(n) == IF Len(OfLen(n)) > 1 THEN "Misc_" \o Str(n) ELSE Cat(run[OfLen(n)[1]])
NameOf(n) == IF Cardinality({m \in Lens : PlainName(m) = PlainName(n)}) > 1 THEN PlainName(n) \o "_" \o Str(n) ELSE PlainName(n)
RECURSIVE SetToSeq(_)
SetToSeq(A) == IF A = {} THEN <<>> ELSE LET x == CHOOSE y \in A : TRUE IN <<x>> \o SetToSeq(A \ {x})
Project == IF Cardinality(Multi) = 1 THEN Group(OfLen(CHOOSE n \in Multi : TRUE))
           ELSE IF Cardinality(Lens) = 1 THEN Group(OfLen(CHOOSE n \in Lens : TRUE))
           ELSE LET ls == SetToSeq(Lens) IN [dfs |-> [k \in 1..Len(ls) |-> <<NameOf(ls[k]), Group(OfLen(ls[k]))>>]]

With(r) == r @@ [gone |-> FALSE]
Base1 == [nd |-> 2, ns |-> 2, nsec |-> 1, nt |-> 2, st |-> "R4", tm |-> TRUE, q |-> 0, sx |-> 0, cont |-> 0, sep |-> 0, fst |-> 0, gone |-> FALSE]
Choices == [nd : {2, 3}, nt : NTs, q : Quotes, tm : Times, gone : BOOLEAN]
Mk(c) == [Base1 EXCEPT !.nd = c.nd, !.nsec = IF c.nd = 3 THEN 2 ELSE 1, !.nt = c.nt, !.q = c.q, !.tm = c.tm, !.gone = c.gone]
Init == /\ phase = "none" /\ hist = <<>> /\ stem \in Stems
        /\ IF Mode = "single" THEN \E r \in {x \in Result : OK(x)} : run = <<With(r)>>
           ELSE \E n \in NRes : \E cs \in [1..n -> Choices] : run = [i \in 1..n |-> Mk(cs[i])]
        /\ (Mode = "project" => \E i \in 1..Len(run) : ~run[i].gone)
Produce == /\ phase = "none" /\ phase' = "files"
           /\ hist' = Flatten([i \in 1..Len(run) |-> Files(i)]) \o <<MkText(stem \o ".$PJ", <<"<?xml version='1.0'?>", "<BladedProject/>">>)>>
           /\ UNCHANGED <<run, stem>>
Tol == IF Mode = "single" /\ run[1].st \in {"R8", "TX", "I4"} THEN "f8" ELSE "f4"
\* either file of the pair can be given
OpenOne == /\ phase = "files"
           /\ \E i \in 1..Len(run) : \E which \in {"%", "$"} :
                /\ ~run[i].gone
                /\ hist' = hist \o <<Open("A", "BladedFile", IF which = "%" THEN HP(stem, i) ELSE DP(stem, i)), DF("A", One(i), Tol), DF("A", One(i), Tol)>>
           /\ phase' = "done" /\ UNCHANGED <<run, stem>>
OpenMissing == /\ phase = "files"
               /\ \E i \in 1..Len(run) : run[i].gone /\ hist' = hist \o <<OpenErr("A", "BladedFile", HP(stem, i), "FileNotFoundError")>>
               /\ phase' = "done" /\ UNCHANGED <<run, stem>>
OpenProject == /\ phase = "files" /\ Lens # {}
               /\ hist' = hist \o <<Open("A", "BladedFile", stem \o ".$PJ"), DF("A", Project, Tol), DF("A", Project, Tol),
                                    Read("A", stem \o ".$PJ"), DF("A", Project, Tol)>>
               /\ phase' = "done" /\ UNCHANGED <<run, stem>>
Next == Produce \/ OpenOne \/ OpenMissing \/ OpenProject
\* every value of every result in the project appears in the tables at its step
Placed == \A i \in 1..Len(run) : InProject(i) => i \in Rng(OfLen(run[i].nt)) /\ \A n \in Lens : i \in Rng(OfLen(n)) => n = run[i].nt
NoDup == \A i \in 1..Len(run) : LET t == One(i) IN Cardinality(Rng(t.cols)) = Len(t.cols)
Emit == (phase = "done") => PrintT(ToJson([ops |-> hist]))
=============================================================================
