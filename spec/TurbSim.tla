------------------------------ MODULE TurbSim ------------------------------
(***************************************************************************)
(* TurbSim boxes (.bts).  A box is a field u[c][t][y][z], a tower field    *)
(* twr[c][t][k], coordinates, and header values.  Files hold it as 16-bit  *)
(* integers with a slope and an offset per component.  Actions: queries    *)
(* (which must show the box and leave it alone), modifiers, writing and    *)
(* reading back, conversion to and from Mann boxes.                        *)
(***************************************************************************)
EXTENDS Base
CONSTANTS Nts, Nys, Nzs, NTwrs, Pats, Scls, Srcs, OpNames, K

VARIABLES ds, box, n, hist
vars == <<ds, box, n, hist>>

DataSets == [nt : Nts, ny : Nys, nz : Nzs, ntw : NTwrs, pat : Pats, scl : Scls, src : Srcs]
IsOdd(k) == k % 2 = 1

\* --- geometry
Dy == Q(5, 2)
Dz == Q(4, 1)
Dt == Q(1, 4)
Zb == Q(17, 2)
Yc(ny, j) == Q(5 * (2 * (j - 1) - (ny - 1)), 4)
Zc(j) == QAdd(Zb, QMul(Dz, Int2Q(j - 1)))
Tc(t) == QMul(Dt, Int2Q(t - 1))
ZTw(k) == QSub(Zb, QMul(Dz, Int2Q(k - 1)))
UHub == Q(21, 2)
ZHub == Q(90, 1)

\* --- the stored integers: a steady part and a fluctuation of known standard deviation (1 or 5)
Fl(nt, t) == CASE nt = 2 -> IF t = 1 THEN 1 ELSE -1
               [] nt = 4 -> CASE t = 1 -> 1 [] t = 2 -> 7 [] t = 3 -> -7 [] OTHER -> -1
               [] OTHER  -> ((t * t * 3) % 7) - 2
FlStd(nt) == IF nt = 2 THEN 1 ELSE 5
Amp(c, y, z) == (IF (c + y * z) % 2 = 0 THEN 1 ELSE -1) * (1 + ((c + 2 * y + z) % 3))
Raw(d, c, t, y, z) ==
  CASE d.pat = 0 -> 100 * c + 10 * y + 3 * z + Amp(c, y, z) * Fl(d.nt, t)
    [] d.pat = 1 -> LET h == (c * 7919 + t * 4441 + y * 613 + z * 97) % 4096 IN 16 * h - 32768       \* spread over the whole int16 range
    [] d.pat = 2 -> IF c = 2 THEN 1234 ELSE 20000 + 100 * c + 10 * y + z + 40 * t                     \* component 2 is constant
    [] OTHER     -> 30000 + ((c + 2 * t + 3 * y + 5 * z) % 3)                                          \* narrow range far from zero
RawTwr(d, c, t, k) == IF d.pat = 3 THEN 30001 ELSE 7 * c + 11 * t - 1000 * k
Sc(d, c) == CASE d.scl = 0 -> 1 [] d.scl = 1 -> 2 * c [] OTHER -> 1000
Of(d, c) == CASE d.scl = 0 -> 0 [] d.scl = 1 -> 2 * c - 7 [] OTHER -> -40001                           \* twice the offset
ValOf(d, c, r) == IF d.scl = 0 THEN Q(r, 1) ELSE Q(2 * r - Of(d, c), 2 * Sc(d, c))
U0(d) == [c \in 1..3 |-> [t \in 1..d.nt |-> [y \in 1..d.ny |-> [z \in 1..d.nz |-> ValOf(d, c, Raw(d, c, t, y, z))]]]]
T0(d) == [c \in 1..3 |-> [t \in 1..d.nt |-> [k \in 1..d.ntw |-> ValOf(d, c, RawTwr(d, c, t, k))]]]

Info == "This file was generated by TurbSim"
\* file: header, then for each time step the plane (component fastest, then y, then z) and the tower points
Encode(d) ==
  <<I2(7), I4(d.nz), I4(d.ny), I4(d.ntw), I4(d.nt), F4(Dz), F4(Dy), F4(Dt), F4(UHub), F4(ZHub), F4(Zb)>>
  \o Flatten([c \in 1..3 |-> <<F4(Q(Sc(d, c), 1)), F4(Q(Of(d, c), 2))>>])
  \o <<I4(Len(Info)), S(Info, Len(Info))>>
  \o <<I2([t \in 1..d.nt |-> <<[z \in 1..d.nz |-> [y \in 1..d.ny |-> [c \in 1..3 |-> Raw(d, c, t, y, z)]]],
                                [k \in 1..d.ntw |-> [c \in 1..3 |-> RawTwr(d, c, t, k)]]>>])>>

\* --- what can be seen of a box
Nt(b) == Len(b.u[1])
Ny(b) == Len(b.u[1][1])
Nz(b) == Len(b.u[1][1][1])
Ntw(b) == Len(b.twr[1][1])
Field(o, u, tol) == <<Shape(o, <<"u">>, <<3, Len(u[1]), Len(u[1][1]), Len(u[1][1][1])>>), Get(o, <<"u">>, u, tol)>>
Coords(o, b) == <<Get(o, <<"y">>, [j \in 1..Ny(b) |-> Yc(Ny(b), j)], "f4"), Get(o, <<"z">>, [j \in 1..Nz(b) |-> Zc(j)], "f4"),
                  Get(o, <<"t">>, [t \in 1..Nt(b) |-> Tc(t)], "f4")>>
Everything(o, b) ==
  Field(o, b.u, "f4") \o Coords(o, b)
  \o (IF b.src = "file"
      THEN <<Shape(o, <<"uTwr">>, <<3, Nt(b), Ntw(b)>>), Get(o, <<"uTwr">>, b.twr, "f4"), Get(o, <<"dt">>, Dt, "f4"), Get(o, <<"ID">>, b.id, "exact"),
             Get(o, <<"zTwr">>, [k \in 1..Ntw(b) |-> ZTw(k)], "f4"), Get(o, <<"zRef">>, ZHub, "f4"), Get(o, <<"uRef">>, UHub, "f4")>>
      ELSE <<>>)
Same == Field("A", box.u, "f4")

\* --- numbers
RECURSIVE QSumR(_)
QSumR(s) == IF Len(s) = 1 THEN s[1] ELSE QAdd(s[1], QSumR(Tail(s)))
\* all values of a box are brought to one denominator before they are added, TLC's integers being small
Den == CASE ds.scl = 0 -> 16 [] ds.scl = 1 -> 24 [] OTHER -> 2000
Num(q) == q.n * (Den \div q.d)
Sum(s)  == Q(SumR([i \in 1..Len(s) |-> Num(s[i])]), Den)
Mean(s) == QNorm(Q(Sum(s).n, Sum(s).d * Len(s)))
MinusMean(s) == LET m == Mean(s) IN [i \in 1..Len(s) |-> QSub(s[i], m)]
All(b, c) == {b.u[c][t][y][z] : t \in 1..Nt(b), y \in 1..Ny(b), z \in 1..Nz(b)} \cup {b.twr[c][t][k] : t \in 1..Nt(b), k \in 1..Ntw(b)}
Range(b, c) == LET A == {Num(q) : q \in All(b, c)} IN Q(MaxOf(A) - MinOf(A), Den)
Quantum(b, c) == LET k == (Range(b, c).n \div Range(b, c).d) + 1 IN
                 IF Range(b, c).n = 0 THEN Q(1, 500) ELSE        \* a constant component: slope 1, the offset in single precision
                 IF Range(b, c).n * 10 < Range(b, c).d THEN Q(1, 600000) ELSE IF Range(b, c).n < Range(b, c).d THEN Q(1, 64000) ELSE Q(k + (k \div 50) + 1, 65535)
Q2(b, c) == AbsRelTol(Quantum(b, c), Q(1, 2000000))

\* --- behaviour
Init == /\ ds \in DataSets
        /\ (ds.src = "user" => ds.ntw = 0)
        /\ (ds.scl = 2 => ds.pat # 0)
        /\ n = 0
        /\ box = [u |-> U0(ds), twr |-> T0(ds), id |-> 7, src |-> ds.src]
        /\ hist = IF ds.src = "file"
                  THEN <<MkFile("a.bts", Encode(ds)), Open("A", "TurbSimFile", "a.bts"), Get("A", <<"info">>, Info, "exact")>> \o Everything("A", box)
                  ELSE <<New("A", "TurbSimFile"), Set("A", <<"u">>, [arr |-> U0(ds)]), Set("A", <<"y">>, [arr |-> [j \in 1..ds.ny |-> Yc(ds.ny, j)]]),
                         Set("A", <<"z">>, [arr |-> [j \in 1..ds.nz |-> Zc(j)]]), Set("A", <<"t">>, [arr |-> [t \in 1..ds.nt |-> Tc(t)]])>> \o Everything("A", box)

On(name) == name \in OpNames /\ n < K
Do(ops)  == hist' = hist \o ops /\ n' = n + 1 /\ UNCHANGED ds
Obs(ops) == Do(ops \o Same) /\ UNCHANGED box
Call(m, args, e) == [op |-> "call", o |-> "A", m |-> m, args |-> args, expect |-> e, tol |-> "f4"]
CallKw(m, kw, e) == [op |-> "call", o |-> "A", m |-> m, kw |-> kw, expect |-> e, tol |-> AbsRelTol(Q(1, 100000), Q(1, 300000))]
Series(u, c, y, z) == [t \in 1..Len(u[c]) |-> u[c][t][y][z]]
Point(y, z) == <<Series(box.u, 1, y, z), Series(box.u, 2, y, z), Series(box.u, 3, y, z)>>

\* a position a little off grid point (y,z), or outside the box beyond its corner
Pos(y, z) == <<IF y = Ny(box) THEN QAdd(Yc(Ny(box), y), Q(100, 1)) ELSE QAdd(Yc(Ny(box), y), Q(5, 8)),
               IF z = 1 THEN Q(-20, 1) ELSE QSub(Zc(z), Q(3, 2))>>
ValuesAt == /\ On("valuesAt")
            /\ \E y \in 1..Ny(box) : \E z \in 1..Nz(box) :
                 Obs(<<Call("valuesAt", Pos(y, z), Point(y, z)), Call("closestPoint", Pos(y, z), <<y - 1, z - 1>>)>>)
YM == (Ny(box) + 1) \div 2
ZM == (Nz(box) + 1) \div 2
Centre == IsOdd(Ny(box)) /\ IsOdd(Nz(box))
LineL(y, z, rm) == [c \in 1..3 |-> IF rm THEN MinusMean(Series(box.u, c, y, z)) ELSE Series(box.u, c, y, z)]
LineY(t, z, rm) == [c \in 1..3 |-> LET s == [y \in 1..Ny(box) |-> box.u[c][t][y][z]] IN IF rm THEN MinusMean(s) ELSE s]
LineZ(t, y, rm) == [c \in 1..3 |-> IF rm THEN MinusMean(box.u[c][t][y]) ELSE box.u[c][t][y]]
Lines == /\ On("lines")
         /\ \E rm \in BOOLEAN : \E w \in 1..4 :
              LET t == 1 + (w % Nt(box))  y == 1 + (w % Ny(box))  z == 1 + ((w + 1) % Nz(box)) IN
              CASE w = 1 -> Obs(<<CallKw("_longiline", <<<<"iy0", y - 1>>, <<"iz0", z - 1>>, <<"removeMean", rm>>>>, LineL(y, z, rm))>>)
                [] w = 2 -> Obs(<<CallKw("_latline", <<<<"ix0", t - 1>>, <<"iz0", z - 1>>, <<"removeMean", rm>>>>, LineY(t, z, rm))>>)
                [] w = 3 -> Obs(<<CallKw("_vertline", <<<<"ix0", t - 1>>, <<"iy0", y - 1>>, <<"removeMean", rm>>>>, LineZ(t, y, rm))>>)
                [] OTHER -> Centre /\ Obs(<<CallKw("_longiline", <<<<"removeMean", rm>>>>, LineL(YM, ZM, rm)),
                                            CallKw("_latline", <<<<"removeMean", rm>>>>, LineY((Nt(box) \div 2) + 1, ZM, rm)),
                                            CallKw("_vertline", <<<<"removeMean", rm>>>>, LineZ((Nt(box) \div 2) + 1, YM, rm))>>)
PlaneMean(p) == Mean(Flatten(p))
Less(p, rm) == IF rm THEN LET m == PlaneMean(p) IN [i \in 1..Len(p) |-> [j \in 1..Len(p[i]) |-> QSub(p[i][j], m)]] ELSE p
HPlane(z, rm) == [c \in 1..3 |-> Less([t \in 1..Nt(box) |-> [y \in 1..Ny(box) |-> box.u[c][t][y][z]]], rm)]
VPlane(y, rm) == [c \in 1..3 |-> Less([t \in 1..Nt(box) |-> box.u[c][t][y]], rm)]
Planes == /\ On("planes")
          /\ \E rm \in BOOLEAN : \E w \in 1..5 : \E z \in {1, Nz(box)} : \E y \in {1, Ny(box)} :
              CASE w = 1 -> y = 1 /\ Obs(<<CallKw("horizontalPlane", <<<<"z", Pos(y, z)[2]>>, <<"removeMean", rm>>>>, HPlane(z, rm))>>)
                [] w = 2 -> y = 1 /\ Obs(<<CallKw("horizontalPlane", <<<<"iz0", z - 1>>, <<"removeMean", rm>>>>, HPlane(z, rm))>>)
                [] w = 3 -> z = 1 /\ Obs(<<CallKw("verticalPlane", <<<<"y", Pos(y, z)[1]>>, <<"removeMean", rm>>>>, VPlane(y, rm))>>)
                [] w = 4 -> z = 1 /\ Obs(<<CallKw("verticalPlane", <<<<"iy0", y - 1>>, <<"removeMean", rm>>>>, VPlane(y, rm))>>)
                [] OTHER -> y = 1 /\ z = 1 /\ Centre /\ Obs(<<CallKw("horizontalPlane", <<<<"removeMean", rm>>>>, HPlane(ZM, rm)),
                                                              CallKw("verticalPlane", <<<<"removeMean", rm>>>>, VPlane(YM, rm))>>)
ProfAt(z, c, ys) == Mean(Flatten([j \in 1..Len(ys) |-> Series(box.u, c, ys[j], z)]))
Prof(ys) == [c \in 1..3 |-> [z \in 1..Nz(box) |-> ProfAt(z, c, ys)]]
AllY == [y \in 1..Ny(box) |-> y]
Zs   == [z \in 1..Nz(box) |-> Zc(z)]
IAbs(k) == IF k < 0 THEN -k ELSE k
StdKnown == ds.pat = 0 /\ ds.scl = 0 /\ Nt(box) = ds.nt /\ ds.nt \in {2, 4} /\ n = 0     \* an untouched box of pattern 0
StdMid == IF StdKnown THEN [c \in 1..3 |-> [z \in 1..Nz(box) |-> Q(FlStd(ds.nt) * IAbs(Amp(c, YM, z)), 1)]] ELSE Whatever
Profile == /\ On("profile")
           /\ \E full \in BOOLEAN :
                IF full THEN Obs(<<CallKw("vertProfile", <<>>, <<Zs, Prof(AllY), Whatever>>)>>)
                ELSE IsOdd(Ny(box)) /\ Obs(<<CallKw("vertProfile", <<<<"y_span", "mid">>>>, <<Zs, Prof(<<YM>>), StdMid>>)>>)
\* correlation coefficient with the middle line: fluctuations of pattern 0 are proportional, so it is +1 or -1
Rho(a, b) == IF (a > 0) = (b > 0) THEN 1 ELSE -1
RhoY == IF StdKnown THEN [c \in 1..3 |-> [y \in 1..Ny(box) |-> Rho(Amp(c, YM, ZM), Amp(c, y, ZM))]] ELSE <<Whatever, Whatever, Whatever>>
RhoZ == IF StdKnown THEN [c \in 1..3 |-> [z \in 1..Nz(box) |-> Rho(Amp(c, YM, ZM), Amp(c, YM, z))]] ELSE <<Whatever, Whatever, Whatever>>
Ys == [y \in 1..Ny(box) |-> Yc(Ny(box), y)]
Corr == /\ On("corr") /\ Centre
        /\ Obs(<<CallKw("crosscorr_y", <<>>, <<Ys>> \o RhoY), CallKw("crosscorr_z", <<>>, <<Zs>> \o RhoZ)>>)
Ln(y) == [data |-> <<[t \in 1..Nt(box) |-> Tc(t)], Series(box.u, 1, y, ZM), Series(box.u, 2, y, ZM), Series(box.u, 3, y, ZM)>>,
          cols |-> <<"t_[s]", "u_[m/s]", "v_[m/s]", "w_[m/s]">>]
P3 == Prof(AllY)
Frames == <<<<"VertProfile", [cols |-> <<"z_[m]", "u_[m/s]", "v_[m/s]", "w_[m/s]", "sigma_u_[m/s]", "sigma_v_[m/s]", "sigma_w_[m/s]", "TI_[%]">>,
                 data |-> <<Zs, P3[1], P3[2], P3[3], Whatever, Whatever, Whatever, Whatever>>]>>,
            <<"ZMidLine", Ln(YM)>>, <<"ZMidYStartLine", Ln(1)>>, <<"ZMidYEndLine", Ln(Ny(box))>>,
            <<"Mid_xcorr_y", [cols |-> <<"y_[m]", "rho_uu_[-]", "rho_vv_[-]", "rho_ww_[-]">>, data |-> <<Ys>> \o RhoY]>>,
            <<"Mid_xcorr_z", [cols |-> <<"z_[m]", "rho_uu_[-]", "rho_vv_[-]", "rho_ww_[-]">>, data |-> <<Zs>> \o RhoZ]>>,
            <<"Mid_csd_longi", [free |-> 1]>>, <<"Mid_csd_lat", [free |-> 1]>>, <<"Mid_csd_vert", [free |-> 1]>> >>
ToDF == /\ On("df") /\ Centre
        /\ Obs(<<DF("A", [dfs |-> Frames], AbsRelTol(Q(1, 100000), Q(1, 300000)))>>)
Repr == On("repr") /\ box.src = "file" /\ Obs(<<[op |-> "repr", o |-> "A"]>>)
Mid  == /\ On("mid") /\ Centre
        /\ Obs(<<Call("midValues", <<>>, <<Zc(ZM), Mean(Series(box.u, 1, YM, ZM))>>), Get("A", <<Attr("iMid")>>, <<YM - 1, ZM - 1>>, "exact"),
                 Get("A", <<[c |-> "hubValues"]>>, IF box.src = "file" THEN <<ZHub, UHub, TRUE>> ELSE <<Zc(ZM), Mean(Series(box.u, 1, YM, ZM)), FALSE>>, "f4")>>)
Probes == /\ On("probes")
          /\ LET ps == <<<<1, 1>>, <<1, Nz(box)>>, <<Ny(box), 1>>, <<Ny(box), Nz(box)>>>> IN
             Obs(<<[op |-> "call", o |-> "A", m |-> "writeProbes", args |-> <<[path |-> "probes.csv"], <<Yc(Ny(box), 1), Pos(Ny(box), 1)[1]>>, <<Pos(1, 1)[2], Zc(Nz(box))>>>>],
                   [op |-> "seplines", path |-> "probes.csv", sep |-> ",", tol |-> "f4",
                    expect |-> <<Whatever>> \o [t \in 1..Nt(box) |-> <<Tc(t)>> \o Flatten([i \in 1..4 |-> [c \in 1..3 |-> box.u[c][t][ps[i][1]][ps[i][2]]]])]]>>)

\* --- modifiers
SetPoint == /\ On("set")
            /\ LET v == Q(IF ds.scl = 2 THEN 45 ELSE 4500, 1) IN
               /\ box' = [box EXCEPT !.u[2][Nt(box)][1][Nz(box)] = v]
               /\ Do(<<Set("A", <<"u", [ix |-> <<1, Nt(box) - 1, 0, Nz(box) - 1>>]>>, v)>> \o Field("A", box'.u, "f4"))
Mirror(f) == f \o [i \in 1..(Len(f) - 2) |-> f[Len(f) - i]]
Periodic == /\ On("periodic")
            /\ box' = [box EXCEPT !.u = [c \in 1..3 |-> Mirror(box.u[c])], !.twr = [c \in 1..3 |-> Mirror(box.twr[c])], !.id = 8]
            /\ Do(<<[op |-> "call", o |-> "A", m |-> "makePeriodic"], Get("A", <<"ID">>, 8, "exact")>> \o Everything("A", box'))
\* scaling: the standard deviation about the time mean of each point, then a shift common to all points
ScaleTo(c, y, z, m, f) ==
   LET old == box.u[c]
       mu(j, k) == Mean(Series(box.u, c, j, k))
       sh == QSub(m, mu(y, z))
   IN [t \in 1..Nt(box) |-> [j \in 1..Ny(box) |-> [k \in 1..Nz(box) |-> QNorm(QAdd(QAdd(mu(j, k), QMul(Q(f, 1), QSub(old[t][j][k], mu(j, k)))), sh))]]]
Scale == /\ On("scale") /\ Centre /\ StdKnown
         /\ \E c \in {1, 3} : \E ref \in {"mid", "point"} :
              LET y == IF ref = "mid" THEN YM ELSE Ny(box)
                  z == IF ref = "mid" THEN ZM ELSE 1
                  s == FlStd(ds.nt) * IAbs(Amp(c, y, z))
                  kw == <<<<"component", c - 1>>, <<"reference", ref>>, <<"new_mean", Q(12, 1)>>, <<"new_std", Q(3 * s, 1)>>>>
                        \o (IF ref = "point" THEN <<<<"y_ref", Pos(y, z)[1]>>, <<"z_ref", Pos(y, z)[2]>>>> ELSE <<>>) IN
              /\ box' = [box EXCEPT !.u[c] = ScaleTo(c, y, z, Q(12, 1), 3)]
              /\ Do(<<[op |-> "call", o |-> "A", m |-> "scale", kw |-> kw]>> \o Field("A", box'.u, "f4"))

\* --- files
Within(b) == [c \in 1..3 |-> [v |-> b.u[c], tol |-> Q2(b, c)]]
WithinT(b) == [c \in 1..3 |-> [v |-> b.twr[c], tol |-> Q2(b, c)]]
HubZ(b) == IF b.src = "file" THEN ZHub ELSE IF Centre THEN Zc(ZM) ELSE Whatever
HubU(b) == IF b.src = "file" THEN UHub ELSE IF Centre THEN Mean(Series(b.u, 1, YM, ZM)) ELSE Whatever
FileLayout(b) == <<I2(b.id), I4(Nz(b)), I4(Ny(b)), I4(Ntw(b)), I4(Nt(b)), F4(Dz), F4(Dy), F4(Dt), F4(HubU(b)), F4(HubZ(b)), F4(Zb)>>
WriteOut == /\ On("write")
            /\ Do(<<Write("A", "b.bts"), [op |-> "layout", path |-> "b.bts", toks |-> FileLayout(box), tol |-> "f4", exact |-> FALSE],
                    Open("B", "TurbSimFile", "b.bts"), Get("B", <<"ID">>, box.id, "exact"), Get("B", <<"dt">>, Dt, "f4"),
                    Shape("B", <<"u">>, <<3, Nt(box), Ny(box), Nz(box)>>), Get("B", <<"u">>, Within(box), "f8"),
                    Shape("B", <<"uTwr">>, <<3, Nt(box), Ntw(box)>>), Get("B", <<"uTwr">>, WithinT(box), "f8"),
                    Get("B", <<"zRef">>, HubZ(box), "f4"), Get("B", <<"uRef">>, HubU(box), "f4"),
                    Get("B", <<"zTwr">>, [k \in 1..Ntw(box) |-> ZTw(k)], "f4")>> \o Coords("B", box) \o Everything("A", box))
            /\ UNCHANGED box
HeaderOnly == /\ On("header") /\ ds.src = "file"
              /\ Obs(<<[op |-> "open", o |-> "H", cls |-> "TurbSimFile", path |-> "a.bts", kw |-> <<<<"header_only", TRUE>>>>],
                       Get("H", <<"dt">>, Dt, "f4"), Get("H", <<"ID">>, 7, "exact"), Get("H", <<"zRef">>, ZHub, "f4"), Get("H", <<"info">>, Info, "exact"),
                       Get("H", <<"y">>, [j \in 1..ds.ny |-> Yc(ds.ny, j)], "f4"), Get("H", <<"z">>, [j \in 1..ds.nz |-> Zc(j)], "f4"),
                       Get("H", <<"t">>, [t \in 1..ds.nt |-> Tc(t)], "f4"), [op |-> "has", o |-> "H", key |-> "u", expect |-> FALSE]>>)
Reread == /\ On("reread") /\ ds.src = "file"
          /\ box' = [u |-> U0(ds), twr |-> T0(ds), id |-> 7, src |-> "file"]
          /\ Do(<<Read("A", "a.bts"), Get("A", <<"info">>, Info, "exact")>> \o Everything("A", box'))

\* --- Mann boxes: one file per component, x slowest, y reversed, z fastest
Flip(p) == [i \in 1..Len(p) |-> p[Len(p) + 1 - i]]
MannToks(f) == <<F4([t \in 1..Len(f) |-> Flip(f[t])])>>
MannBase(s) == s \o "_" \o Str(Nt(box)) \o "x" \o Str(Ny(box)) \o "x" \o Str(Nz(box))
Fluct(c) == [t \in 1..Nt(box) |-> [y \in 1..Ny(box) |-> [z \in 1..Nz(box) |-> QSub(box.u[c][t][y][z], Mean(Series(box.u, c, y, z)))]]]
Minus(c, k) == [t \in 1..Nt(box) |-> [y \in 1..Ny(box) |-> [z \in 1..Nz(box) |-> QSub(box.u[c][t][y][z], k)]]]
ToMann == /\ On("mann")
          /\ \E w \in 0..2 :
               LET fu == CASE w = 0 -> box.u[1] [] w = 1 -> Minus(1, Q(19, 2)) [] OTHER -> Fluct(1)
                   kw == CASE w = 0 -> <<>> [] w = 1 -> <<<<"removeUConstant", Q(19, 2)>>>> [] OTHER -> <<<<"removeAllUMean", TRUE>>>>
                   base == MannBase("m")
                   t4 == AbsRelTol(Q(1, 20000), Q(1, 3000000))
               IN Obs(<<[op |-> "call", o |-> "A", m |-> "toMannBox", kw |-> <<<<"base", [path |-> "m"]>>>> \o kw],
                        Layout(base \o ".u", MannToks(fu), t4), Layout(base \o ".v", MannToks(box.u[2]), t4), Layout(base \o ".w", MannToks(box.u[3]), t4),
                        Open("MU", "MannBoxFile", base \o ".u"), Open("MV", "MannBoxFile", base \o ".v"), Open("MW", "MannBoxFile", base \o ".w"),
                        Get("MU", <<"field">>, fu, t4), Get("MV", <<"field">>, box.u[2], t4), Get("MW", <<"field">>, box.u[3], t4),
                        New("R", "TurbSimFile"),
                        [op |-> "call", o |-> "R", m |-> "fromMannBox",
                         args |-> <<[val |-> <<"MU", "field">>], [val |-> <<"MV", "field">>], [val |-> <<"MW", "field">>], Q(5, 2), Q(10, 1), [arr |-> Ys], [arr |-> Zs]>>,
                         kw |-> IF w = 1 THEN <<<<"addU", Q(19, 2)>>>> ELSE <<>>],
                        Get("R", <<"u">>, <<IF w = 1 THEN box.u[1] ELSE fu, box.u[2], box.u[3]>>, t4), Get("R", <<"dt">>, Q(1, 4), "f8"), Get("R", <<"t">>, [t \in 1..Nt(box) |-> Tc(t)], "f8"),
                        Get("R", <<"y">>, Ys, "f8"), Get("R", <<"z">>, Zs, "f8"),
                        [op |-> "write", o |-> "R", path |-> "r.bts"], Open("S", "TurbSimFile", "r.bts"), Shape("S", <<"u">>, <<3, Nt(box), Ny(box), Nz(box)>>),
                        Get("S", <<"u">>, [c \in 1..3 |-> [v |-> IF c = 1 THEN (IF w = 1 THEN box.u[1] ELSE fu) ELSE box.u[c],
                                                           tol |-> AbsRelTol(QMul(Quantum(box, c), Q(4, 1)), Q(1, 1000000))]], "f8")>>)

Next == ValuesAt \/ Lines \/ Planes \/ Profile \/ Corr \/ ToDF \/ Repr \/ Mid \/ Probes \/ SetPoint \/ Periodic \/ Scale
        \/ WriteOut \/ HeaderOnly \/ Reread \/ ToMann

\* --- invariants of the model
ShapeOK == /\ \A c \in 1..3 : Len(box.u[c]) = Nt(box) /\ Len(box.twr[c]) = Nt(box)
           /\ \A c \in 1..3 : \A t \in 1..Nt(box) : Len(box.u[c][t]) = ds.ny /\ Len(box.twr[c][t]) = ds.ntw
PeriodicOK == (box.id = 8) => \A c \in {1, 3} : \A t \in 2..Nt(box) : box.u[c][t] = box.u[c][Nt(box) + 2 - t]
Emit == (n = K) => PrintT(ToJson([ops |-> hist]))
=============================================================================
