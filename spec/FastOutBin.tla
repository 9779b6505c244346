----------------------------- MODULE FastOutBin -----------------------------
(***************************************************************************)
(* OpenFAST binary output files (.outb).                                   *)
(*                                                                         *)
(* State: a data set `ds` produced by a simulation, the file (a sequence   *)
(* of typed tokens), the object weio builds from it, and the history of    *)
(* client operations.  The file formats 1..4 are specified twice, as the   *)
(* encoder Encode (what OpenFAST writes) and as the sequential decoder     *)
(* Decode (what a reader must recover); the invariants state that decoding *)
(* is the inverse of encoding and that re-encoding (weio writes format 2)  *)
(* loses at most one quantisation step per channel.                        *)
(***************************************************************************)
EXTENDS Base

CONSTANTS IDs, NChs, NTs, Pats, Scls, T0s, Dts, LenNames, Descs, NameKinds

VARIABLES ds, file, obj, phase, hist
vars == <<ds, file, obj, phase, hist>>

Names == <<"Wind1VelX", "RotSpeed", "B1Pitch", "GenPwr">>
Units == <<"m/s", "rpm", "deg", "kW">>
LongNames == <<"Wind1VelXLongNam", "RotSpeed_Filt_01", "B1Pitch", "GenPwr">>
BlankNames == <<"Wind VelX", "Rot  Speed", "B 1 P", "Gen Pwr">>
LongUnits == <<"m/s", "kg.m^2/s^2/rad", "deg", "kW.h/year/m^2">>

T0val(k) == CASE k = 0 -> Q(0,1) [] k = 1 -> Q(5,2) [] OTHER -> Q(60,1)
Dtval(k) == CASE k = 0 -> Q(1,4) [] k = 1 -> Q(1,40) [] OTHER -> Q(3,1)
\* scaling pairs (slope, offset), as functions of the channel: channel dependent, so that mixing up channels shows
Sclval(k, c) == CASE k = 0 -> Q(1,1)
                  [] k = 1 -> Q(c, 2)
                  [] k = 2 -> Q(2 * c, 1)
                  [] k = 4 -> Q(-3 * c, 2)                        \* decreasing scale
                  [] OTHER -> IF c = 2 THEN NaN ELSE Q(1, 1)     \* a channel OpenFAST failed to scale
Offval(k, c) == CASE k = 0 -> Q(0,1)
                  [] k = 1 -> Q(10 * c, 1)
                  [] k = 2 -> Q(-1000 * c, 1)
                  [] k = 4 -> Q(50 * c, 1)
                  [] OTHER -> IF c = 2 THEN NaN ELSE Q(4, 1)
DescVal(k) == CASE k = 0 -> "" [] OTHER -> "Predictions were generated by FAST"
Raw(p, t, c) == CASE p = 0 -> 10 * t + c
                  [] p = 1 -> IF (t + c) % 2 = 0 THEN 32767 - c ELSE -32768 + t
                  [] OTHER -> -7 * t * c

DataSets == [id : IDs, nch : NChs, nt : NTs, pat : Pats, scl : Scls, t0 : T0s, dt : Dts, len : LenNames, desc : Descs, nk : NameKinds]

NameOf(d, c) == IF d.nk = 1 THEN BlankNames[c] ELSE IF d.nk = 0 /\ d.id = 4 /\ d.len > 10 THEN LongNames[c] ELSE Names[c]
UnitOf(d, c) == IF d.nk = 2 THEN LongUnits[c] ELSE Units[c]
LenOf(d)     == IF d.id = 4 THEN d.len ELSE 10

\* --- what the file must contain
Chans(d) == 1..d.nch
Encode(d) ==
  <<I2(d.id)>>
  \o (IF d.id = 4 THEN <<I2(d.len)>> ELSE <<>>)
  \o <<I4(d.nch), I4(d.nt)>>
  \o (IF d.id = 1 THEN <<F8(Q(8,1)), F8(Q(-16,1))>>             \* slope and offset of the packed time
                  ELSE <<F8(T0val(d.t0)), F8(Dtval(d.dt))>>)
  \o (IF d.id = 3 THEN <<>>
      ELSE <<F4([c \in Chans(d) |-> Sclval(d.scl, c)]), F4([c \in Chans(d) |-> Offval(d.scl, c)])>>)
  \o <<I4(Len(DescVal(d.desc))), S(DescVal(d.desc), Len(DescVal(d.desc)))>>
  \o <<S("Time", LenOf(d))>> \o [c \in Chans(d) |-> S(NameOf(d, c), LenOf(d))]
  \o <<S("(s)", LenOf(d))>>  \o [c \in Chans(d) |-> S("(" \o UnitOf(d, c) \o ")", LenOf(d))]
  \o (IF d.id = 1 THEN <<I4([t \in 1..d.nt |-> 3 * t * t])>> ELSE <<>>)  \* non-uniform times
  \o (IF d.id = 3
      THEN <<F8([t \in 1..d.nt |-> [c \in Chans(d) |-> Q(Raw(d.pat, t, c), 8)]])>>
      ELSE <<I2([t \in 1..d.nt |-> [c \in Chans(d) |-> Raw(d.pat, t, c)]])>>)

\* --- a sequential reader of the tokens: what must be recovered from a file
Cell(id, v, scl, off) == IF id = 3 THEN v ELSE IF scl = NaN THEN Q(0, 1) ELSE QDiv(QSub(Int2Q(v), off), scl)
Decode(f) ==
  LET id   == f[1].v
      o4   == IF id = 4 THEN 1 ELSE 0
      nch  == f[2 + o4].v
      nt   == f[3 + o4].v
      ta   == f[4 + o4].v
      tb   == f[5 + o4].v
      o3   == IF id = 3 THEN 0 ELSE 2
      scl  == f[6 + o4].v
      off  == f[7 + o4].v
      k    == 8 + o4 + o3               \* first name
      nm   == [c \in 0..nch |-> f[k + c].v]
      un   == [c \in 0..nch |-> f[k + nch + 1 + c].v]
      o1   == IF id = 1 THEN 1 ELSE 0
      tim  == f[k + 2 * nch + 2].v
      dat  == f[k + 2 * nch + 2 + o1].v
      T(t) == IF id = 1 THEN QDiv(QSub(Int2Q(tim[t]), tb), ta) ELSE QAdd(ta, QMul(tb, Int2Q(t - 1)))
  IN [names |-> nm, units |-> un,
      rows  |-> [t \in 1..nt |-> <<T(t)>> \o [c \in 1..nch |->
                   Cell(id, dat[t][c], IF id = 3 THEN Q(1,1) ELSE scl[c], IF id = 3 THEN Q(0,1) ELSE off[c])]]]

\* --- what the user must see
Cols(d)  == <<"Time_[s]">> \o [c \in Chans(d) |-> NameOf(d, c) \o "_[" \o UnitOf(d, c) \o "]"]
Time(d, t) == IF d.id = 1 THEN Q(3 * t * t + 16, 8) ELSE QAdd(T0val(d.t0), QMul(Dtval(d.dt), Int2Q(t - 1)))
Value(d, t, c) == IF d.id = 3 THEN Q(Raw(d.pat, t, c), 8)
                  ELSE IF Sclval(d.scl, c) = NaN THEN Q(0, 1)
                  ELSE QDiv(QSub(Int2Q(Raw(d.pat, t, c)), Offval(d.scl, c)), Sclval(d.scl, c))
Rows(d)  == [t \in 1..d.nt |-> <<Time(d, t)>> \o [c \in Chans(d) |-> Value(d, t, c)]]

\* --- re-encoding by weio: format 2 (10 characters) or 4 (longer names), full int16 range per channel.
\* Span(d,c): range of a channel; one quantum is Span/65535.
ChanVals(d, c) == {Value(d, t, c) : t \in 1..d.nt}
QMax(A) == CHOOSE x \in A : \A y \in A : QLe(y, x)
QMin(A) == CHOOSE x \in A : \A y \in A : QLe(x, y)
Span(d, c) == QSub(QMax(ChanVals(d, c)), QMin(ChanVals(d, c)))
\* uniform time grid kept by format 2/4: first time and first increment
Uniform(d) == d.id # 1
CanRewrite(d) == Uniform(d)
Bound(q)   == ((IF q.n < 0 THEN -q.n ELSE q.n) \div q.d) + 1     \* an integer bound of a rational
Quantum(d, c) == LET k == Bound(Span(d, c)) IN Q(k + k \div 50 + 1, 65535)
F4Eps == Q(1, 4000000)            \* slope and offset are stored in single precision
\* rows after m re-encodings: at most m quanta away, channel by channel
Within(d, m) == [t \in 1..d.nt |-> <<Time(d, t)>> \o [c \in Chans(d) |->
                   [v |-> Value(d, t, c), tol |-> AbsRelTol(QMul(Q(m, 1), Quantum(d, c)), F4Eps)]]]

Init == /\ ds \in DataSets
        /\ (ds.id # 4 => ds.len = 10)
        /\ (ds.nk = 2 => ds.id = 4 /\ ds.len > 10)           \* long units need the format with long names
        /\ (ds.nk > 0 => ds.t0 = 0 /\ ds.dt = 0 /\ ds.desc = 1)
        /\ (ds.id = 3 => ds.scl = 0)
        /\ (ds.id = 1 => ds.t0 = 0 /\ ds.dt = 0)
        /\ file = <<>> /\ obj = <<>> /\ phase = "none" /\ hist = <<>>

Produce == /\ phase = "none"
           /\ file' = Encode(ds) /\ phase' = "file"
           /\ hist' = Append(hist, MkFile("a.outb", Encode(ds)))
           /\ UNCHANGED <<ds, obj>>
ReadIt  == /\ phase = "file"
           /\ obj' = Decode(file) /\ phase' = "obj"
           /\ hist' = hist \o <<Open("A", "FASTOutputFile", "a.outb"), DF("A", Table(Cols(ds), Rows(ds)), "f4"),
                                Get("A", <<Attr("info"), "description">>, DescVal(ds.desc), "exact")>>
           /\ UNCHANGED <<ds, file>>
Rewrite == /\ phase = "obj" /\ CanRewrite(ds)
           /\ phase' = "done"
           /\ hist' = hist \o <<Write("A", "b.outb"), DF("A", Table(Cols(ds), Rows(ds)), "f4"),
                                Open("B", "FASTOutputFile", "b.outb"), DF("B", Table(Cols(ds), Within(ds, 1)), "f8"),
                                Get("B", <<Attr("info"), "description">>, DescVal(ds.desc), "exact"),
                                Write("B", "c.outb"), Open("C", "FASTOutputFile", "c.outb"), DF("C", Table(Cols(ds), Within(ds, 2)), "f8")>>
           /\ UNCHANGED <<ds, file, obj>>
Stop    == /\ phase = "obj" /\ ~CanRewrite(ds) /\ phase' = "done" /\ UNCHANGED <<ds, file, obj, hist>>

Next == Produce \/ ReadIt \/ Rewrite \/ Stop

\* --- invariants of the model
DecodeInverts == phase \in {"obj", "done"} =>
     /\ \A t \in 1..ds.nt : \A c \in 1..(ds.nch + 1) : QEq(obj.rows[t][c], Rows(ds)[t][c])
     /\ \A c \in Chans(ds) : obj.names[c] = NameOf(ds, c) /\ obj.units[c] = "(" \o UnitOf(ds, c) \o ")"
     /\ obj.names[0] = "Time"

Emit == (phase = "done") => PrintT(ToJson([ops |-> hist]))
=============================================================================
