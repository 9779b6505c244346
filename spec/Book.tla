-------------------------------- MODULE Book ---------------------------------
(***************************************************************************)
(* Binary table containers: Excel workbooks, Parquet tables, NetCDF and    *)
(* TDMS files.  The specification keeps the named tables, lays them out in *)
(* the container (the container files are made with the container's own    *)
(* library, not with the code under test), and says what a client sees     *)
(* after reading, editing, writing, and reading another file.              *)
(***************************************************************************)
EXTENDS Base
CONSTANTS Kinds, NTs, NRs, NCs, Forms, Gens, Ops, K
VARIABLES ds, c, n, hist
\* c : sequence of tables [name, cols, rows];  a cell is [k, v], of kind q (a rational), s (text), b (truth value) or m (missing)
DataSets == [kind : Kinds, nt : NTs, nr : NRs, nc : NCs, form : Forms, gen : Gens]
Cls == [xlsx |-> "ExcelFile", parquet |-> "ParquetFile", nc |-> "NetCDFFile", tdms |-> "TDMSFile"]
Ext == [xlsx |-> ".xlsx", parquet |-> ".parquet", nc |-> ".nc", tdms |-> ".tdms"]
\* --- the cells: column q is of one type: 0 rationals, 1 rationals with gaps, 2 text, 3 truth values, 4 whole numbers
Type(d, t, q) == IF d.kind \in {"nc", "tdms"} THEN 0 ELSE IF d.form = 0 THEN 0 ELSE (q + t + d.gen) % 5
Num(v) == [k |-> "q", v |-> v]
Missing == [k |-> "m", v |-> None]
Raw(row) == [i \in 1..Len(row) |-> row[i].v]
Cell(d, t, r, q) ==
  LET v == ((t * 43 + r * 19 + q * 11 + d.gen * 7) % 101) - 50 IN
  CASE Type(d, t, q) = 0 -> Num(IF d.kind = "nc" /\ d.form = 1 THEN Q(v, 8) ELSE OddE(t * 4 + r * 3 + q, Q(v, 8)))
  [] Type(d, t, q) = 1 -> IF (r + t) % 3 = 1 THEN Missing ELSE Num(Q(v, 4))
  [] Type(d, t, q) = 2 -> [k |-> "s", v |-> (<<"abc", "12", "x y", "1.5e3", "True", "-", "two words, comma">>)[1 + ((r + q + d.gen) % 7)]]
  [] Type(d, t, q) = 3 -> [k |-> "b", v |-> ((r + q) % 2 = 0)]
  [] Type(d, t, q) = 4 -> Num(Q(v, 1))
Sheet(d, t) == CASE d.form = 2 -> (<<"Sheet 1", "data (2)", "x", "last one">>)[t] [] OTHER -> (<<"Sheet1", "b", "A", "Z9">>)[t]
CName(d, t, q) == IF d.form = 1 THEN (<<"Time_[s]", "a b", "Wind Speed [m/s]", "2b", "x.1">>)[q] ELSE "c" \o Str(t) \o "_" \o Str(q)
Rows(d, t) == (d.nr + t) % 5       \* tables of different lengths, some with names only
NRow(d, t) == IF d.kind \in {"nc", "tdms"} THEN (IF d.kind = "nc" /\ t = 2 THEN d.nr + 1 ELSE d.nr) ELSE Rows(d, t)
OneTab(d, t) == [name |-> Sheet(d, t), cols |-> [q \in 1..d.nc |-> CName(d, t, q)], rows |-> [r \in 1..NRow(d, t) |-> [q \in 1..d.nc |-> Cell(d, t, r, q)]]]
\* a row without any value does not count as a row of a sheet
Void(row) == \A q \in 1..Len(row) : row[q].k = "m"
Contents(d) == [t \in 1..(IF d.kind = "parquet" THEN 1 ELSE d.nt) |-> OneTab(d, t)]
\* --- Excel: the table may start anywhere and hold empty rows and columns
Blank(k) == [q \in 1..k |-> None]
Shifted(d, row) == (IF d.form = 2 THEN <<None, None>> ELSE <<>>) \o (IF d.form = 1 /\ Len(row) > 1 THEN <<row[1], None>> \o Tail(row) ELSE row)
GridOf(d, x) == (IF d.form = 2 THEN <<Blank(2), Blank(1), Blank(1)>> ELSE <<>>) \o <<Shifted(d, x.cols)>>
                \o Flatten([r \in 1..Len(x.rows) |-> (IF d.form >= 1 /\ r = 2 THEN <<Blank(1)>> ELSE <<>>) \o <<Shifted(d, Raw(x.rows[r]))>>])
BookOf(d, x) == [op |-> "mkbook", path |-> "p", sheets |-> Flatten([t \in 1..Len(x) |-> (IF d.form = 2 THEN <<<<"Empty" \o Str(t), <<>>>>>> ELSE <<>>) \o <<<<x[t].name, GridOf(d, x[t])>>>>])]
\* --- Parquet
PTypes == <<"double", "double", "string", "bool", "int">>
ParOf(d, x) == [op |-> "mkparquet", path |-> "p", cols |-> [q \in 1..d.nc |-> <<x[1].cols[q], PTypes[Type(d, 1, q) + 1], [r \in 1..Len(x[1].rows) |-> x[1].rows[r][q].v]>>]]
\* --- NetCDF: table 1 is over (x, y), the other tables over (x2, y) and so on; a table of one column is stored as a vector
\*     the coordinates of the axes, and a variable with three axes, are kept but are no tables
NcDims(d, t) == IF d.nc = 1 THEN <<"r" \o Str(IF t = 2 THEN 2 ELSE 1)>> ELSE <<"r" \o Str(IF t = 2 THEN 2 ELSE 1), "y">>
NcType(d) == <<"f8", "f4", "f8">>[d.form + 1]
NcVal(d, x) == IF d.nc = 1 THEN [r \in 1..Len(x.rows) |-> x.rows[r][1].v] ELSE [r \in 1..Len(x.rows) |-> Raw(x.rows[r])]
NcName(d, t) == (<<"wind", "u_10", "Temp", "z">>)[t]
NcVars(d, x) == [t \in 1..Len(x) |-> <<NcName(d, t), NcDims(d, t), NcType(d), NcVal(d, x[t])>>]
                \o (IF d.form = 2 THEN <<<<"r1", <<"r1">>, "f8", [r \in 1..d.nr |-> Q(r * 3, 2)]>>, <<"cube", <<"r1", "r1", "r1">>, "f8", [i \in 1..d.nr |-> [j \in 1..d.nr |-> [k \in 1..d.nr |-> Q(i * 16 + j * 4 + k, 2)]]]>>>> ELSE <<>>)
NcOf(d, x) == [op |-> "mknc", path |-> "p", vars |-> NcVars(d, x)]
\* --- TDMS: each table is a group, each column a channel; all channels share the time axis
TdName(d, t, q) == "ch " \o Str(t) \o Str(q)
Chan(d, x) == Flatten([t \in 1..Len(x) |-> [q \in 1..d.nc |-> <<Sheet(d, t), TdName(d, t, q), [r \in 1..Len(x[t].rows) |-> x[t].rows[r][q].v]>>]])
TdInc(d) == Q(1 + d.gen, 8)
TdOff(d) == IF d.form = 2 THEN Q(5, 2) ELSE Q(0, 1)
TdOf(d, x) == [op |-> "mktdms", path |-> "p", inc |-> TdInc(d), off |-> TdOff(d), chan |-> Chan(d, x)]
File(d, x, p) == [(CASE d.kind = "xlsx" -> BookOf(d, x) [] d.kind = "parquet" -> ParOf(d, x) [] d.kind = "nc" -> NcOf(d, x) [] d.kind = "tdms" -> TdOf(d, x)) EXCEPT !.path = p]
\* --- what a client sees
Seen(cell) == IF cell.k = "m" THEN NaN ELSE cell.v
TabOf(x) == Table(x.cols, [r \in 1..Len(x.rows) |-> [q \in 1..Len(x.rows[r]) |-> Seen(x.rows[r][q])]])
Filled(x) == [x EXCEPT !.rows = SelectSeq(x.rows, LAMBDA row : ~Void(row))]
Tables(d, x) == CASE d.kind = "xlsx" -> [dfs |-> [t \in 1..Len(x) |-> <<x[t].name, TabOf(Filled(x[t]))>>]]
                [] d.kind = "parquet" -> TabOf(x[1])
                [] d.kind = "nc" -> [dfs |-> [t \in 1..Len(x) |-> <<NcName(d, t), Table([q \in 1..d.nc |-> q - 1], [r \in 1..Len(x[t].rows) |-> Raw(x[t].rows[r])])>>]]
                [] d.kind = "tdms" -> Table(<<"Time_[s]">> \o [k \in 1..Len(Chan(d, x)) |-> Chan(d, x)[k][2]],
                                            [r \in 1..d.nr |-> <<QAdd(TdOff(d), QMul(TdInc(d), Q(r - 1, 1)))>> \o [k \in 1..Len(Chan(d, x)) |-> Chan(d, x)[k][3][r]]])
See(d, x, o) == <<DF(o, Tables(d, x), "f8"), DF(o, Tables(d, x), "f8"), [op |-> "repr", o |-> o]>>
Stored(d, x, p) == CASE d.kind = "xlsx" -> [op |-> "book", path |-> p, sheets |-> [t \in 1..Len(x) |-> LET f == Filled(x[t]) IN <<x[t].name, <<x[t].cols>> \o [r \in 1..Len(f.rows) |-> Raw(f.rows[r])]>>]]
                   [] d.kind = "parquet" -> [op |-> "parquet", path |-> p, cols |-> [q \in 1..d.nc |-> <<x[1].cols[q], [r \in 1..Len(x[1].rows) |-> x[1].rows[r][q].v]>>]]
                   [] d.kind = "nc" -> [op |-> "nc", path |-> p, vars |-> [v \in 1..Len(NcVars(d, x)) |-> <<NcVars(d, x)[v][1], NcVars(d, x)[v][2], NcVars(d, x)[v][4]>>]]
OpenIt(d, o, p) == IF d.gen = 0 THEN WRead(o, Cls[d.kind], p) ELSE Open(o, Cls[d.kind], p)
Okay(d) == /\ (d.kind \in {"nc", "tdms"} => d.nr > 0)
           /\ (d.kind = "xlsx" => \E t \in 1..d.nt : Rows(d, t) >= 0)
Init == /\ ds \in {d \in DataSets : Okay(d) /\ (d.kind = "parquet" => d.nt = MinOf(NTs))}
        /\ c = Contents(ds) /\ n = 0
        /\ LET p == "my.file" \o Ext[ds.kind] IN hist = <<File(ds, c, p), OpenIt(ds, "A", p)>> \o See(ds, c, "A")
Another == /\ "another" \in Ops /\ n < K /\ n' = n + 1
           /\ \E e \in {y \in DataSets : Okay(y) /\ y.kind = ds.kind /\ y # ds /\ (y.kind = "parquet" => y.nt = ds.nt)} :
              /\ ds' = e /\ c' = Contents(e)
              /\ hist' = hist \o <<File(e, c', "b" \o Str(n) \o Ext[e.kind]), Read("A", "b" \o Str(n) \o Ext[e.kind])>> \o See(e, c', "A")
\* the file is replaced after it was read: the object keeps what it read
Replaced == /\ "replaced" \in Ops /\ n < K /\ n' = n + 1 /\ UNCHANGED <<ds, c>> /\ n = 0
            /\ \E e \in {y \in DataSets : Okay(y) /\ y.kind = ds.kind /\ y.gen # ds.gen /\ y.nr # ds.nr /\ y.nt = ds.nt /\ y.form = ds.form /\ y.nc = ds.nc} :
               LET p == "my.file" \o Ext[ds.kind] IN
               hist' = SubSeq(hist, 1, 2) \o <<File(e, Contents(e), p)>> \o See(ds, c, "A") \o <<Open("B", Cls[ds.kind], p)>> \o See(e, Contents(e), "B") \o See(ds, c, "A")
Target(d, x, t, r, q) == CASE d.kind = "xlsx" -> <<Attr("data"), x[t].name, Attr("iloc"), [ix |-> <<r - 1, q - 1>>]>>
                         [] d.kind = "parquet" -> <<Attr("data"), Attr("iloc"), [ix |-> <<r - 1, q - 1>>]>>
                         [] d.kind = "nc" -> <<Attr("data"), NcName(d, t), [ix |-> IF d.nc = 1 THEN <<r - 1>> ELSE <<r - 1, q - 1>>]>>
NoVoid(x) == \A r \in 1..Len(x.rows) : ~Void(x.rows[r])
Edit == /\ "edit" \in Ops /\ n < K /\ n' = n + 1 /\ UNCHANGED ds /\ ds.kind # "tdms"
        /\ \E t \in {1, Len(c)} : \E q \in {1, ds.nc} : Len(c[t].rows) > 0 /\ NoVoid(c[t]) /\ Type(ds, t, q) \in {0, 1} /\
           LET v == Q(9 + n, 2)  r == Len(c[t].rows) IN
           /\ c' = [c EXCEPT ![t].rows[r][q] = Num(v)]
           /\ hist' = hist \o <<Set("A", Target(ds, c, t, r, q), v)>> \o See(ds, c', "A")
WriteIt == /\ "write" \in Ops /\ n < K /\ n' = n + 1 /\ UNCHANGED <<ds, c>> /\ ds.kind # "tdms"
           /\ LET w == "w" \o Str(n) \o Ext[ds.kind] IN
              hist' = hist \o <<Write("A", w), Stored(ds, c, w)>> \o See(ds, c, "A") \o <<Open("B", Cls[ds.kind], w)>> \o See(ds, c, "B") \o <<Write("B", "v" \o w), Stored(ds, c, "v" \o w)>>
Next == Another \/ Replaced \/ Edit \/ WriteIt
\* names of tables and of columns are used once
NamesApart == /\ Cardinality({c[t].name : t \in 1..Len(c)}) = Len(c)
              /\ \A t \in 1..Len(c) : Cardinality(Rng(c[t].cols)) = Len(c[t].cols)
Emit == n = K => PrintT(ToJson([ops |-> hist]))
=============================================================================
