-------------------------------- MODULE Mann --------------------------------
(***************************************************************************)
(* Mann (HAWC2) turbulence boxes: single precision values, x slowest, then *)
(* y (from +ly/2 to -ly/2, so reversed when read), z fastest.  Sizes come  *)
(* from the caller or from the last three integers of the file name.       *)
(***************************************************************************)
EXTENDS Base
CONSTANTS Nxs, Nys, Nzs, NameForms, Spacings, Exts, OpNames, K

VARIABLES ds, box, n, hist
vars == <<ds, box, n, hist>>
DataSets == [nx : Nxs, ny : Nys, nz : Nzs, nf : NameForms, sp : Spacings, ext : Exts]

File(d, x, y, z) == (IF (x + y) % 2 = 0 THEN 1 ELSE -1) * (1000 * x + 100 * y + 10 * z + 1)   \* yth value from the start of the file
Base0(d) == Str(d.nx) \o "x" \o Str(d.ny) \o "x" \o Str(d.nz)
Stem(d, s) == CASE d.nf = 0 -> s \o "_" \o Base0(d)
                [] d.nf = 1 -> s \o "_seed77_12mps_" \o Base0(d)
                [] d.nf = 2 -> s \o "_" \o Str(d.nx) \o "_" \o Str(d.ny) \o "_" \o Str(d.nz) \o "_end"
                [] d.nf = 3 -> s \o "box"            \* no sizes in the name: the caller gives them
                [] d.nf = 4 -> s \o "_9x9x9"         \* misleading sizes: the caller's win
                [] OTHER    -> "sub9x9x9/" \o s \o "_" \o Base0(d)     \* only the file name counts, not the folder
Path(d, s) == Stem(d, s) \o d.ext
Sp(d) == CASE d.sp = 0 -> [kw |-> <<>>, dy |-> Q(1, 1), dz |-> Q(1, 1), y0 |-> None, z0 |-> Q(0, 1), zm |-> None]
           [] d.sp = 1 -> [kw |-> <<<<"dy", Q(5, 2)>>, <<"dz", Q(3, 4)>>, <<"z0", Q(10, 1)>>>>, dy |-> Q(5, 2), dz |-> Q(3, 4), y0 |-> None, z0 |-> Q(10, 1), zm |-> None]
           [] d.sp = 2 -> [kw |-> <<<<"dy", Q(1, 10)>>, <<"dz", Q(3, 10)>>, <<"y0", Q(-7, 1)>>, <<"z0", Q(1, 1)>>, <<"zMid", Q(90, 1)>>>>,
                           dy |-> Q(1, 10), dz |-> Q(3, 10), y0 |-> Q(-7, 1), z0 |-> Q(1, 1), zm |-> Q(90, 1)]
           [] OTHER    -> [kw |-> <<<<"dy", Q(1, 3)>>, <<"dz", Q(7, 1)>>, <<"y0", Q(0, 1)>>, <<"zMid", Q(0, 1)>>>>, dy |-> Q(1, 3), dz |-> Q(7, 1), y0 |-> Q(0, 1), z0 |-> Q(0, 1), zm |-> Q(0, 1)]
Kw(d) == (IF d.nf \in {3, 4} THEN <<<<"N", <<d.nx, d.ny, d.nz>>>>>> ELSE <<>>) \o Sp(d).kw
Toks(d) == <<F4([x \in 1..d.nx |-> [y \in 1..d.ny |-> [z \in 1..d.nz |-> Int2Q(File(d, x, y, z))]]])>>
Field(d) == [x \in 1..d.nx |-> [y \in 1..d.ny |-> [z \in 1..d.nz |-> Int2Q(File(d, x, d.ny + 1 - y, z))]]]
ToksOf(f) == <<F4([x \in 1..Len(f) |-> Rev(f[x])])>>
Grid0(a, da, k) == [i \in 1..k |-> QAdd(a, QMul(da, Int2Q(i - 1)))]
Centre0(da, k) == [i \in 1..k |-> QMul(da, Q(2 * (i - 1) - (k - 1), 2))]
Y(d) == IF Sp(d).y0 = None THEN Centre0(Sp(d).dy, d.ny) ELSE Grid0(Sp(d).y0, Sp(d).dy, d.ny)
Z(d) == IF Sp(d).zm = None THEN Grid0(Sp(d).z0, Sp(d).dz, d.nz) ELSE [i \in 1..d.nz |-> QAdd(Sp(d).zm, Centre0(Sp(d).dz, d.nz)[i])]
\* 1e-9: coordinates may be accumulated
CT == AbsRelTol(Q(1, 1000000000), Q(1, 1000000000))
Seen(o, d, f) == <<Shape(o, <<"field">>, <<d.nx, d.ny, d.nz>>), Get(o, <<"field">>, f, "exact"), Get(o, <<Attr("y")>>, Y(d), CT), Get(o, <<Attr("z")>>, Z(d), CT)>>
OpenK(o, d, s) == [op |-> "open", o |-> o, cls |-> "MannBoxFile", path |-> Path(d, s), kw |-> Kw(d)]

Init == /\ ds \in DataSets /\ n = 0 /\ box = Field(ds)
        /\ (ds.nf # 0 => ds.sp \in {0, 1})
        /\ hist = <<MkFile(Path(ds, "a"), Toks(ds)), OpenK("A", ds, "a")>> \o Seen("A", ds, box)

On(s) == s \in OpNames /\ n < K
Do(ops) == hist' = hist \o ops /\ n' = n + 1 /\ UNCHANGED ds
Obs(ops) == Do(ops \o <<Get("A", <<"field">>, box, "exact")>>) /\ UNCHANGED box
Ser(y, z) == [x \in 1..ds.nx |-> box[x][y][z]]
Call(m, args, e) == [op |-> "call", o |-> "A", m |-> m, args |-> args, expect |-> e, tol |-> CT]
\* a third of a cell off the grid point, or far outside
PosY(y) == IF y = ds.ny THEN QAdd(Y(ds)[y], Q(50, 1)) ELSE QAdd(Y(ds)[y], QMul(Sp(ds).dy, Q(1, 3)))
PosZ(z) == IF z = 1 THEN QSub(Z(ds)[z], Q(50, 1)) ELSE QSub(Z(ds)[z], QMul(Sp(ds).dz, Q(1, 3)))
ValuesAt == On("valuesAt") /\ \E y \in 1..ds.ny : \E z \in 1..ds.nz :
               Obs(<<Call("valuesAt", <<PosY(y), PosZ(z)>>, Ser(y, z)), Call("closestPoint", <<PosY(y), PosZ(z)>>, <<y - 1, z - 1>>)>>)
Time == On("time") /\ Obs(<<Call("t", <<Q(3, 1), Q(10, 1)>>, [x \in 1..ds.nx |-> Q(3 * (x - 1), 10)])>>)
Mean(s) == Q(SumR([i \in 1..Len(s) |-> s[i].n]), Len(s))
YM == (ds.ny + 1) \div 2
ZM == (ds.nz + 1) \div 2
IsOdd == ds.ny % 2 = 1 /\ ds.nz % 2 = 1 /\ ds.nx > 1
MT == AbsRelTol(Q(1, 1000), Q(1, 300000))           \* averages may be taken in single precision
Prof == [z \in 1..ds.nz |-> Mean(Ser(YM, z))]
Ln(y) == [cols |-> <<"t/T_[-]", "vel_[m/s]">>, data |-> <<[x \in 1..ds.nx |-> Q(x - 1, ds.nx - 1)], Ser(y, ZM)>>]
ToDF == On("df") /\ IsOdd /\ Obs(<<DF("A", [dfs |-> <<<<"VertProfile", [cols |-> <<"z_[m]", "vel_[m/s]", "sigma_[m/s]", "TI_[%]">>, data |-> <<Z(ds), Prof, Whatever, Whatever>>]>>,
                       <<"ZMidLine", Ln(YM)>>, <<"ZMidYEndLine", Ln(ds.ny)>>, <<"ZMidYStartLine", Ln(1)>> >>], MT),
                     Get("A", <<Attr("vertProfile")>>, <<Z(ds), Prof, Whatever>>, MT)>>)
Repr == On("repr") /\ Obs(<<[op |-> "repr", o |-> "A"]>>)
WriteOut == On("write") /\ Obs(<<Write("A", Path(ds, "b")), Layout(Path(ds, "b"), ToksOf(box), "exact"), OpenK("B", ds, "b")>> \o Seen("B", ds, box)
                \o <<Layout(Path(ds, "a"), Toks(ds), "exact")>>)
SetPoint == /\ On("set") /\ box' = [box EXCEPT ![ds.nx][1][ds.nz] = Q(77, 2)]
            /\ Do(<<Set("A", <<"field", [ix |-> <<ds.nx - 1, 0, ds.nz - 1>>]>>, Q(77, 2)), Get("A", <<"field">>, box', "exact")>>)
\* reading again forgets the options of the previous reading
Reread == /\ On("reread") /\ box' = Field(ds) /\ n' = n + 1
          /\ \E s \in Spacings : /\ (ds.nf # 0 => s \in {0, 1})
                 /\ ds' = [ds EXCEPT !.sp = s]
                 /\ hist' = hist \o <<[op |-> "read", o |-> "A", path |-> Path(ds, "a"), kw |-> Kw(ds')]>> \o Seen("A", ds', box')
NoSize == /\ On("nosize") /\ ds.nf = 3
          /\ Obs(<<OpenErr("E", "MannBoxFile", Path(ds, "a"), "BrokenFormatError")>>)
Detect == /\ On("detect") /\ ds.nf \in {0, 1, 2, 5} /\ ds.ext # ".bin"
          /\ Obs(<<WRead("D", "MannBoxFile", Path(ds, "a")), Get("D", <<"field">>, Field(ds), "exact")>>)
Next == ValuesAt \/ Time \/ ToDF \/ Repr \/ WriteOut \/ SetPoint \/ Reread \/ NoSize \/ Detect
FlipTwice == \A x \in 1..ds.nx : Rev(Rev(box[x])) = box[x]
Monotone == \A i \in 1..(ds.ny - 1) : QLe(Y(ds)[i], Y(ds)[i + 1])
Emit == (n = K) => PrintT(ToJson([ops |-> hist]))
=============================================================================
