-------------------------------- MODULE Vtk --------------------------------
(***************************************************************************)
(* Legacy VTK files: regular grids, rectilinear and structured grids and   *)
(* unstructured meshes, as text or as big-endian binary, with data at the  *)
(* points and on the cells.                                                *)
(***************************************************************************)
EXTENDS Base
CONSTANTS Types, Modes, NXs, NYs, NZs, Meshes, DSets, Reals, Outs, K
VARIABLES ds, n, wr, hist
DataSets == [type : Types, bin : Modes, nx : NXs, ny : NYs, nz : NZs, mesh : Meshes, data : DSets, real : Reals]
Grid(d) == d.type # "ug"
\* --- numbers
TypeName == [f4 |-> "float", f8 |-> "double", i4 |-> "int", u1 |-> "unsigned_char", i8 |-> "long", i1 |-> "char", u2 |-> "unsigned_short", i2 |-> "short", u4 |-> "unsigned_int", u8 |-> "unsigned_long"]
Ints == {"i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8"}
Txt(s) == [t |-> "s", v |-> s \o "\n", n |-> Len(s) + 1]
\* numbers of full precision, and whole numbers beyond 32 bits
Fine(k) == [n |-> IF k % 2 = 0 THEN 1048577 ELSE -1048579, d |-> 1048576]
Huge(h, e) == [n |-> h, d |-> 1, e |-> e]
NumT(q) == IF q.d = 1 /\ "e" \in DOMAIN q THEN Str(q.n) \o Pad0("", q.e) ELSE IF q.d = 1048576 THEN (IF q.n > 0 THEN "1.00000095367431640625" ELSE "-1.00000286102294921875") ELSE IF q.d = 1 THEN Str(q.n) ELSE Dec(q)
\* a block of numbers: one line of text, or big-endian numbers followed by a newline
Nums(d, ty, vals) == IF d.bin THEN <<[t |-> ">" \o ty, v |-> IF ty \in Ints THEN [i \in 1..Len(vals) |-> IF "e" \in DOMAIN vals[i] THEN vals[i] ELSE vals[i].n] ELSE vals], Txt("")>> ELSE <<Txt(Join([i \in 1..Len(vals) |-> NumT(vals[i])], IF Len(vals) % 2 = 0 THEN " " ELSE "\n"))>>
\* --- geometry of the grids
Ori == <<Q(-5, 2), Q(10, 1), Q(0, 1)>>
Spa == <<Q(1, 2), Q(5, 1), Q(3, 4)>>
DimOf(d, a) == IF a = 1 THEN d.nx ELSE IF a = 2 THEN d.ny ELSE d.nz
\* rectilinear axes have uneven steps
Ax(d, a, i) == IF d.type = "rg" /\ d.real = "f8" /\ a = 2 THEN QL(1012345678 + 100000001 * i, 8) ELSE IF d.type = "rg" THEN QAdd(Ori[a], Q((i - 1) * (i + a), 4)) ELSE QAdd(Ori[a], QMul(Q(i - 1, 1), Spa[a]))
AxT(d, a) == [i \in 1..DimOf(d, a) |-> Ax(d, a, i)]
NP0(d) == d.nx * d.ny * d.nz
IJK(d, p) == <<((p - 1) % d.nx) + 1, (((p - 1) \div d.nx) % d.ny) + 1, ((p - 1) \div (d.nx * d.ny)) + 1>>
PId(d, i, j, k) == ((i - 1) + d.nx * ((j - 1) + d.ny * (k - 1)))
GPoint(d, p) == LET c == IJK(d, p) IN IF d.type = "sg" THEN <<QAdd(Ax(d, 1, c[1]), Q(c[2], 8)), Ax(d, 2, c[2]), QAdd(Ax(d, 3, c[3]), Q(c[1], 4))>> ELSE <<Ax(d, 1, c[1]), Ax(d, 2, c[2]), Ax(d, 3, c[3])>>
\* the axes along which there are cells
Thick(d) == SelectSeq(<<1, 2, 3>>, LAMBDA a : DimOf(d, a) > 1)
NCells(d, a) == IF DimOf(d, a) > 1 THEN DimOf(d, a) - 1 ELSE 1
GCells(d) == LET tx == Thick(d)  mx == NCells(d, 1)  my == NCells(d, 2)
                 cell(q) == LET i == ((q - 1) % mx) + 1  j == (((q - 1) \div mx) % my) + 1  k == ((q - 1) \div (mx * my)) + 1
                                at(v) == PId(d, i + v[1], j + v[2], k + v[3])
                                u(a, b) == [e \in 1..3 |-> IF Len(tx) >= 1 /\ e = tx[1] THEN a ELSE IF Len(tx) >= 2 /\ e = tx[2] THEN b ELSE 0]
                            IN CASE Len(tx) = 0 -> <<at(<<0, 0, 0>>)>>
                               [] Len(tx) = 1 -> <<at(u(0, 0)), at(u(1, 0))>>
                               [] Len(tx) = 2 -> <<at(u(0, 0)), at(u(1, 0)), at(u(1, 1)), at(u(0, 1))>>
                               [] OTHER -> <<at(<<0, 0, 0>>), at(<<1, 0, 0>>), at(<<1, 1, 0>>), at(<<0, 1, 0>>), at(<<0, 0, 1>>), at(<<1, 0, 1>>), at(<<1, 1, 1>>), at(<<0, 1, 1>>)>>
             IN <<[type |-> <<"vertex", "line", "quad", "hexahedron">>[Len(tx) + 1], cells |-> [q \in 1..(mx * my * NCells(d, 3)) |-> cell(q)]]>>
\* --- unstructured meshes: a sequence of blocks of cells of one type
MTypes == << <<"triangle", 5, 3>>, <<"quad", 9, 4>>, <<"line", 3, 2>>, <<"tetra", 10, 4>>, <<"wedge", 13, 6>>, <<"vertex", 1, 1>>, <<"hexahedron", 12, 8>>, <<"pyramid", 14, 5>>,
   <<"penta_prism", 15, 10>>, <<"hexa_prism", 16, 12>>, <<"line3", 21, 3>>, <<"triangle6", 22, 6>>, <<"quad8", 23, 8>>, <<"tetra10", 24, 10>>, <<"hexahedron20", 25, 20>>, <<"wedge15", 26, 15>>, <<"pyramid13", 27, 13>>,
   <<"quad9", 28, 9>>, <<"hexahedron27", 29, 27>>, <<"quad6", 30, 6>>, <<"wedge12", 31, 12>>, <<"wedge18", 32, 18>>, <<"hexahedron24", 33, 24>>, <<"triangle7", 34, 7>>, <<"line4", 35, 4>>,
   <<"polygon5", 7, 5>>, <<"polygon3", 7, 3>> >>
Mesh(d) == CASE d.mesh = 1 -> << <<1, 2>> >> [] d.mesh = 2 -> << <<1, 2>>, <<2, 1>>, <<1, 1>> >> [] d.mesh = 3 -> << <<3, 3>> >> [] d.mesh = 4 -> << <<5, 2>>, <<6, 1>>, <<4, 1>> >> [] d.mesh = 5 -> << <<7, 1>>, <<8, 2>>, <<3, 1>> >>
           [] d.mesh = 6 -> << <<9, 1>>, <<10, 2>>, <<11, 2>>, <<12, 1>>, <<13, 1>>, <<14, 2>> >> [] d.mesh = 7 -> << <<15, 1>>, <<16, 2>>, <<17, 1>>, <<18, 1>> >> [] d.mesh = 8 -> << <<19, 1>>, <<20, 1>>, <<21, 2>>, <<22, 1>>, <<23, 1>>, <<24, 1>>, <<25, 3>> >>
           \* with polygons: of any number of sides, among other cells
           [] d.mesh = 9 -> << <<26, 2>>, <<5, 1>>, <<27, 1>>, <<1, 2>> >> [] d.mesh = 10 -> << <<2, 1>>, <<27, 2>> >> [] d.mesh = 11 -> << <<2, 2>>, <<1, 3>> >>
Poly(d) == ~Grid(d) /\ d.mesh \in {9, 10}
\* one mesh has many points
NU(d) == IF d.mesh = 11 THEN 300 ELSE 9
UPoint(d, p) == <<Q(p, 2), IF d.real = "f8" THEN Odd(p, Q((p * p) % 7, 4)) ELSE Q((p * p) % 7, 4), Q(5 - p, 8)>>
UCells(d) == [b \in 1..Len(Mesh(d)) |-> LET ty == MTypes[Mesh(d)[b][1]] IN [type |-> ty[1], cells |-> [q \in 1..Mesh(d)[b][2] |-> [v \in 1..ty[3] |-> (IF d.mesh = 11 THEN b * 97 + q * 41 + v * 131 ELSE b * 3 + q + v + (v \div 9)) % NU(d)]]]]
\* a wedge is stored with its nodes in another order
VOrd(type, c) == IF type = "wedge" THEN <<c[1], c[3], c[2], c[4], c[6], c[5]>> ELSE c
VType(type) == LET i == CHOOSE i \in 1..Len(MTypes) : MTypes[i][1] = type IN MTypes[i][2]
AllCells(bs) == Flatten([b \in 1..Len(bs) |-> [q \in 1..Len(bs[b].cells) |-> [type |-> bs[b].type, c |-> VOrd(bs[b].type, bs[b].cells[q])]]])
NP(d) == IF Grid(d) THEN NP0(d) ELSE NU(d)
Points(d) == [p \in 1..NP(d) |-> IF Grid(d) THEN GPoint(d, p) ELSE UPoint(d, p)]
Blocks(d) == IF Grid(d) THEN GCells(d) ELSE UCells(d)
NCell(d) == SumR([b \in 1..Len(Blocks(d)) |-> Len(Blocks(d)[b].cells)])
\* --- the data
F(name, kind, comps, ty) == [name |-> name, kind |-> kind, nc |-> comps, ty |-> ty]
PData(d) == CASE d.data = "none" -> <<>>
            [] d.data = "vec" -> <<F("U", "VECTORS", 3, d.real)>>
            [] d.data = "sca" -> <<F("P", "SCALARS", 1, d.real), F("Q3", "SCALARS", 3, "f4"), F("R2", "SCALARS", 2, "f8"), F("S4", "SCALARS", 4, "f4")>>
            [] d.data = "field" -> <<F("Gamma", "FIELD", 1, d.real), F("Vel", "FIELD", 3, "f4"), F("Id", "FIELD", 1, "i4"), F("W4", "FIELD", 4, d.real)>>
            [] d.data = "ten" -> <<F("T", "TENSORS", 9, d.real), F("U", "VECTORS", 3, "f8")>>
            [] d.data = "look" -> <<F("P", "SCALARS", 1, "i4"), F("tab", "LOOKUP_TABLE", 4, "u1"), F("col", "COLOR_SCALARS", 3, "u1"), F("U", "VECTORS", 3, d.real)>>
            [] d.data = "ints" -> <<F("a1", "SCALARS", 1, "i1"), F("a2", "VECTORS", 3, "u2"), F("a3", "SCALARS", 2, "i2"), F("a4", "FIELD", 1, "u4"), F("a5", "FIELD", 3, "i8"), F("a6", "FIELD", 1, "u8")>>
            [] d.data = "cells" -> <<>>
            [] d.data = "both" -> <<F("U", "VECTORS", 3, d.real)>>
CData(d) == CASE d.data = "cells" -> <<F("Cp", "SCALARS", 1, d.real), F("N", "VECTORS", 3, "f8"), F("U", "FIELD", 3, "f4")>>
            [] d.data = "both" -> <<F("U", "SCALARS", 1, d.real), F("V2", "FIELD", 1, "f8")>>
            [] d.data = "field" -> <<F("Cg", "FIELD", 1, d.real)>>
            [] OTHER -> <<>>
Seen(fs) == SelectSeq(fs, LAMBDA f : f.kind \notin {"LOOKUP_TABLE", "COLOR_SCALARS"})
Big(ty) == CASE ty = "i1" -> -128 [] ty = "u1" -> 255 [] ty = "i2" -> -32768 [] ty = "u2" -> 65535 [] OTHER -> 1987654321
BigQ(ty) == CASE ty = "u4" -> Huge(4123456, 3) [] ty = "i8" -> Huge(-9123456, 12) [] ty = "u8" -> Huge(12345678, 12) [] OTHER -> Q(Big(ty), 1)
Val(f, p, c) == LET v == ((Len(f.name) * 13 + p * 7 + c * 29) % 120) - (IF f.ty \in {"u1", "u2", "u4", "u8"} THEN 0 ELSE 60) IN IF f.ty \in Ints THEN (IF (p + c) % 3 = 0 THEN BigQ(f.ty) ELSE Q(v, 1)) ELSE IF f.ty = "f8" /\ (p + 2 * c) % 5 = 0 THEN Fine(p + c) ELSE IF f.ty = "f8" THEN OddE(p * 3 + c, Q(v, 8)) ELSE Q(v, 8)
Flat(f, m) == [i \in 1..(m * f.nc) |-> Val(f, ((i - 1) \div f.nc) + 1, ((i - 1) % f.nc) + 1)]
FieldTok(d, f, m) ==
   CASE f.kind = "SCALARS" -> <<Txt("SCALARS " \o f.name \o " " \o TypeName[f.ty] \o (IF f.nc = 1 THEN "" ELSE " " \o Str(f.nc))), Txt("LOOKUP_TABLE default")>> \o Nums(d, f.ty, Flat(f, m))
   [] f.kind \in {"VECTORS", "TENSORS"} -> <<Txt(f.kind \o " " \o f.name \o " " \o TypeName[f.ty])>> \o Nums(d, f.ty, Flat(f, m))
   [] f.kind = "FIELD" -> <<Txt(f.name \o " " \o Str(f.nc) \o " " \o Str(m) \o " " \o TypeName[f.ty])>> \o Nums(d, f.ty, Flat(f, m))
   [] f.kind = "LOOKUP_TABLE" -> <<Txt("LOOKUP_TABLE tab 2")>> \o Nums(d, "u1", [i \in 1..8 |-> Q(64 + i, 1)])
   [] f.kind = "COLOR_SCALARS" -> <<Txt("COLOR_SCALARS col 3")>> \o Nums(d, "u1", [i \in 1..(3 * m) |-> IF d.bin THEN Q(64 + (i % 190), 1) ELSE Q(i % 16, 16)])
\* newer versions tell the range of an array after it
Meta(i) == <<Txt("METADATA"), Txt("INFORMATION " \o Str(i % 3))>> \o (IF i % 3 = 0 THEN <<>> ELSE <<Txt("NAME L2_NORM_RANGE LOCATION vtkDataArray"), Txt("DATA 2 0.5 1.5")>>) \o <<Txt("")>>
Section(d, head, fs, m) == IF fs = <<>> THEN <<>> ELSE
   <<Txt(head \o " " \o Str(m))>> \o (IF \E i \in 1..Len(fs) : fs[i].kind = "FIELD"
       THEN LET ff == SelectSeq(fs, LAMBDA f : f.kind = "FIELD")  fo == SelectSeq(fs, LAMBDA f : f.kind # "FIELD") IN
            Flatten([i \in 1..Len(fo) |-> FieldTok(d, fo[i], m)]) \o <<Txt("FIELD attributes " \o Str(Len(ff)))>> \o Flatten([i \in 1..Len(ff) |-> FieldTok(d, ff[i], m) \o (IF d.real = "f8" /\ i % 2 = 1 THEN Meta(i) ELSE <<>>)])
       ELSE Flatten([i \in 1..Len(fs) |-> FieldTok(d, fs[i], m)]))
FlatP(ps) == Flatten(ps)
UGTok(d) == LET cs == AllCells(UCells(d))  sizes == [q \in 1..Len(cs) |-> Len(cs[q].c)] IN
   <<Txt("POINTS " \o Str(NU(d)) \o " " \o TypeName[d.real])>> \o Nums(d, d.real, FlatP(Points(d)))
   \o (IF d.real = "f8" /\ ~Poly(d)    \* both ways of listing the cells
       THEN <<Txt("CELLS " \o Str(Len(cs) + 1) \o " " \o Str(SumR(sizes))), Txt("OFFSETS vtktypeint64")>> \o Nums(d, "i8", [q \in 1..(Len(cs) + 1) |-> Q(SumR(SubSeq(sizes, 1, q - 1)), 1)])
            \o <<Txt("CONNECTIVITY vtktypeint64")>> \o Nums(d, "i8", Flatten([q \in 1..Len(cs) |-> [v \in 1..sizes[q] |-> Q(cs[q].c[v], 1)]]))
       ELSE <<Txt("CELLS " \o Str(Len(cs)) \o " " \o Str(SumR(sizes) + Len(cs)))>> \o Nums(d, "i4", Flatten([q \in 1..Len(cs) |-> <<Q(sizes[q], 1)>> \o [v \in 1..sizes[q] |-> Q(cs[q].c[v], 1)]])))
   \o <<Txt("CELL_TYPES " \o Str(Len(cs)))>> \o Nums(d, "i4", [q \in 1..Len(cs) |-> Q(VType(cs[q].type), 1)])
Triple(v) == NumT(v[1]) \o " " \o NumT(v[2]) \o " " \o NumT(v[3])
\* the axes need not have the same type
AxTy(d, a) == IF a = 1 THEN "f4" ELSE d.real
Coord(d, a) == <<Txt(<<"X", "Y", "Z">>[a] \o "_COORDINATES " \o Str(DimOf(d, a)) \o " " \o TypeName[AxTy(d, a)])>> \o Nums(d, AxTy(d, a), AxT(d, a))
DimTxt(d) == Txt("DIMENSIONS " \o Str(d.nx) \o " " \o Str(d.ny) \o " " \o Str(d.nz))
Geo(d) == CASE d.type = "sp" -> <<Txt("DATASET STRUCTURED_POINTS"), DimTxt(d), Txt("ORIGIN " \o Triple(Ori)), Txt((IF d.real = "f4" THEN "SPACING " ELSE "ASPECT_RATIO ") \o Triple(Spa))>>
          [] d.type = "rg" -> <<Txt("DATASET RECTILINEAR_GRID"), DimTxt(d)>> \o Coord(d, 1) \o Coord(d, 2) \o Coord(d, 3)
          [] d.type = "sg" -> <<Txt("DATASET STRUCTURED_GRID"), DimTxt(d), Txt("POINTS " \o Str(NP0(d)) \o " " \o TypeName[d.real])>> \o Nums(d, d.real, FlatP(Points(d))) \o (IF d.bin THEN <<Txt("METADATA"), Txt("INFORMATION 0"), Txt("")>> ELSE <<>>)
          [] d.type = "ug" -> <<Txt("DATASET UNSTRUCTURED_GRID")>> \o UGTok(d)
File(d) == <<Txt("# vtk DataFile Version 3.0"), Txt("A title, with : 3 things"), Txt(IF d.bin THEN "BINARY" ELSE "ASCII")>> \o Geo(d)
           \o Section(d, "POINT_DATA", PData(d), NP(d)) \o Section(d, "CELL_DATA", CData(d), NCell(d))
\* --- what is seen
\* one-component fields are vectors, tensors 3 by 3
FVal(f, p) == IF f.kind = "FIELD" /\ f.nc = 1 THEN Val(f, p, 1) ELSE IF f.kind = "TENSORS" THEN [a \in 1..3 |-> [b \in 1..3 |-> Val(f, p, 3 * (a - 1) + b)]] ELSE [c \in 1..f.nc |-> Val(f, p, c)]
\* once written every array is a field; two components are completed with zeros
WVal(f, p) == IF f.nc = 1 THEN Val(f, p, 1) ELSE IF f.nc = 2 THEN <<Val(f, p, 1), Val(f, p, 2), Q(0, 1)>> ELSE [c \in 1..f.nc |-> Val(f, p, c)]
FV(f, p, w) == IF w THEN WVal(f, p) ELSE FVal(f, p)
Count(o, at, e) == [op |-> "count", o |-> o, at |-> at, expect |-> e]
Bef(d, b) == SumR([x \in 1..(b - 1) |-> Len(Blocks(d)[x].cells)])
SeeMesh(d, o) == <<Get(o, <<Attr("points")>>, Points(d), "f8"), Count(o, <<Attr("cells")>>, Len(Blocks(d)))>>
   \o Flatten([b \in 1..Len(Blocks(d)) |-> <<Get(o, <<Attr("cells"), b - 1, Attr("type")>>, Blocks(d)[b].type, "exact"), Get(o, <<Attr("cells"), b - 1, Attr("data")>>, Blocks(d)[b].cells, "exact")>>])
SeeData(d, o, w) == LET pf == Seen(PData(d))  cf == Seen(CData(d)) IN
   <<Count(o, <<Attr("point_data")>>, Len(pf)), Count(o, <<Attr("cell_data")>>, Len(cf))>>
   \o [i \in 1..Len(pf) |-> Get(o, <<Attr("point_data"), pf[i].name>>, [p \in 1..NP(d) |-> FV(pf[i], p, w)], "f8")]
   \o Flatten([i \in 1..Len(cf) |-> [b \in 1..Len(Blocks(d)) |-> Get(o, <<Attr("cell_data"), cf[i].name, IF w THEN b - 1 ELSE b - 1>>, [q \in 1..Len(Blocks(d)[b].cells) |-> FV(cf[i], Bef(d, b) + q, w)], "f8")]])
GVal(f, p) == IF f.kind = "TENSORS" THEN FVal(f, p) ELSE [c \in 1..f.nc |-> Val(f, p, c)]
SeeGrid(d, o) == IF d.type \in {"sp", "rg"} THEN <<Get(o, <<Attr("xp_grid")>>, AxT(d, 1), "f4"), Get(o, <<Attr("yp_grid")>>, AxT(d, 2), "f4"), Get(o, <<Attr("zp_grid")>>, AxT(d, 3), "f4")>>
   \o (IF d.type = "rg" THEN <<Get(o, <<Attr("point_data_grid")>>, None, "exact")>> ELSE
       LET pf == Seen(PData(d)) IN <<Count(o, <<Attr("point_data_grid")>>, Len(pf))>> \o
       [x \in 1..Len(pf) |-> Get(o, <<Attr("point_data_grid"), pf[x].name>>, [i \in 1..d.nx |-> [j \in 1..d.ny |-> [k \in 1..d.nz |-> GVal(pf[x], PId(d, i, j, k) + 1)]]], "f8")])
   ELSE <<Get(o, <<Attr("xp_grid")>>, None, "exact"), Get(o, <<Attr("yp_grid")>>, None, "exact"), Get(o, <<Attr("zp_grid")>>, None, "exact"), Get(o, <<Attr("point_data_grid")>>, None, "exact")>>
NoGrid(o) == <<Get(o, <<Attr("xp_grid")>>, None, "exact"), Get(o, <<Attr("point_data_grid")>>, None, "exact")>>
See(d, o) == SeeMesh(d, o) \o SeeData(d, o, FALSE) \o SeeGrid(d, o) \o <<[op |-> "repr", o |-> o]>>
SeeW(d, o) == SeeMesh(d, o) \o SeeData(d, o, TRUE) \o NoGrid(o)
Canon(d) == (Poly(d) => CData(d) = <<>>) /\ (Grid(d) => d.mesh = MinOf(Meshes)) /\ (~Grid(d) => d.nx = MinOf(NXs) /\ d.ny = MinOf(NYs) /\ d.nz = MinOf(NZs))
Init == /\ ds \in {d \in DataSets : Canon(d)} /\ n = 0 /\ wr = FALSE
        /\ hist = <<MkFile("a.vtk", File(ds)), Open("A", "VTKFile", "a.vtk")>> \o See(ds, "A")
SeeNow(o) == IF wr THEN SeeW(ds, o) ELSE See(ds, o)
WriteIt == /\ "write" \in Outs /\ n < K /\ n' = n + 1 /\ UNCHANGED <<ds, wr>>
           /\ \E b \in {TRUE, FALSE} : LET w == "w" \o Str(n) \o ".vtk" IN
              hist' = hist \o <<[op |-> "write", o |-> "A", path |-> w, kw |-> <<<<"binary", b>>>>]>> \o SeeNow("A") \o <<Open("B", "VTKFile", w)>> \o SeeW(ds, "B")
                       \o <<[op |-> "write", o |-> "B", path |-> "v" \o w, kw |-> <<<<"binary", b>>>>], [op |-> "same", a |-> w, b |-> "v" \o w]>>
\* reading again what was just written, by name or not
Again == /\ "again" \in Outs /\ n < K /\ n' = n + 1 /\ UNCHANGED ds /\ wr' = TRUE
         /\ hist' = hist \o <<Write("A", "r" \o Str(n) \o ".vtk"), [op |-> "read", o |-> "A"]>> \o SeeW(ds, "A")
Another == /\ "another" \in Outs /\ n < K /\ n' = n + 1 /\ wr' = FALSE
           /\ \E e \in {x \in DataSets : Canon(x) /\ x.type # ds.type /\ x.data # ds.data /\ x.bin # ds.bin /\ x.real = ds.real} :
              ds' = e /\ hist' = hist \o <<MkFile("b" \o Str(n) \o ".vtk", File(e)), Read("A", "b" \o Str(n) \o ".vtk")>> \o See(e, "A")
Next == WriteIt \/ Again \/ Another
\* neighbouring blocks differ in type, so blocks are well defined
BlocksApart == \A b \in 1..(Len(Blocks(ds)) - 1) : Blocks(ds)[b].type # Blocks(ds)[b + 1].type
\* every point of a grid belongs to a cell
Covered == Grid(ds) => UNION {Rng(GCells(ds)[1].cells[q]) : q \in 1..Len(GCells(ds)[1].cells)} = 0..(NP0(ds) - 1)
Emit == n = K => PrintT(ToJson([ops |-> hist]))
=============================================================================
