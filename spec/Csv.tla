--------------------------------- MODULE Csv ---------------------------------
(***************************************************************************)
(* Delimited text tables: comment lines, an optional line of names (or the *)
(* names in the last comment line), an optional line of units, rows of     *)
(* numbers, words or missing values.  The reader infers the layout or      *)
(* follows the options it is given; the writer produces a file that reads  *)
(* back as the same table.                                                 *)
(***************************************************************************)
EXTENDS Base
CONSTANTS Seps, NComs, CChars, NameKinds, UnitKinds, NCols, NRows, Pats, Encs, Nls, Opts, Ops, K
VARIABLES ds, n, df, hist
vars == <<ds, n, df, hist>>
\* sep: 1 comma 2 semicolon 3 tab 4 blank 5 blanks (right-aligned rows) 6 comma and blank
SepS(d) == <<",", ";", "\t", " ", "    ", ", ">>[d.sep]
White(d) == d.sep \in {4, 5} \/ d.nc = 1
CC(d) == <<"#", "!", ";", "%">>[d.cc]
\* pat: 0 integers, 1 reals, 2 a column of words, 3 missing values, 4 exponents and signs, 5 words with brackets, half of the names are numbers, 6 integers, words and repeated rows, 7 words only
DataSets == {d \in [sep : Seps, ncom : NComs, cc : CChars, nk : NameKinds, uk : UnitKinds, nc : NCols, nr : NRows, pat : Pats, enc : Encs, nl : Nls, opt : Opts] :
   /\ (d.ncom = 0 => d.cc = 1)
   /\ (d.nk = 2 => d.ncom > 0) /\ (d.nk = 3 => d.ncom > 1 /\ d.opt \in {0, 1, 2})          \* 3: names and then units in comments
   /\ (d.pat = 7 => d.opt = 7) /\ (d.nk # 1 => d.uk = 0 /\ d.nr > 0)
   /\ (d.nc = 1 => d.sep = 1)
   /\ (d.pat \in {2, 6} => d.nk = 1 \/ d.nc >= 3)
   /\ (d.pat = 5 => d.nk = 1 /\ d.nc # 1)
   /\ (d.cc = 4 => d.opt \in {2, 3})
   /\ CASE d.opt = 0 -> TRUE
        [] d.opt = 1 -> d.sep # 6 /\ ~(d.nc = 1 /\ d.ncom > 0 /\ d.nk # 1)                 \* separator given
        [] d.opt = 2 -> d.ncom > 0                                                        \* comment character given
        [] d.opt = 3 -> d.ncom > 0 /\ d.nk < 2 /\ ~(d.nc = 7)                             \* leading comment lines given by number
        [] d.opt = 4 -> d.nk = 0                                                          \* names given
        [] d.opt = 5 -> d.nk = 1 /\ d.uk = 0                                              \* line of names given
        [] d.opt = 6 -> d.nk = 2                                                          \* names in the last comment line
        [] d.opt = 7 -> d.nk = 0                                                          \* no names to be looked for
        [] d.opt = 8 -> d.nk = 1 /\ d.uk = 0 /\ d.ncom = 1 /\ d.nr > 0                    \* the comment follows the names
        [] d.opt = 10 -> d.nk \in {0, 1} /\ d.uk = 0 /\ d.ncom > 0 /\ d.cc = 1 /\ d.nr > 1 /\ d.sep # 6     \* numbered comment lines before the last row
        [] OTHER     -> d.nk = 1 /\ d.uk = 0 /\ d.ncom = 0 /\ d.nr > 0}                   \* two lines of text above the names
ColName(d, c) == CASE c = 1 -> "Time" [] c = 2 -> (IF White(d) THEN "Wind_Speed" ELSE "Wind Speed") [] c = 3 -> (IF d.nk = 1 THEN "4" ELSE "x-pos") [] c = 4 /\ d.pat = 5 -> "12" [] OTHER -> (IF d.enc = 4 THEN "Yaw" ELSE "Yaw~deg~")
Unit(d, c) == LET u == CASE c = 1 -> "s" [] c = 2 -> (IF White(d) THEN "m/s" ELSE "kN m") [] c = 3 -> "-" [] OTHER -> (IF d.enc = 4 THEN "deg" ELSE "~deg~") IN IF d.uk = 1 THEN "(" \o u \o ")" ELSE "[" \o u \o "]"
\* --- cells
IsWord(d, c) == (d.pat \in {2, 5, 6} /\ c = 2) \/ d.pat = 7
Word(d, r) == IF d.pat = 5 THEN (IF d.sep \in {1, 6} /\ d.cc # 3 THEN "v;" \o Str(r) ELSE IF r % 2 = 1 THEN "v(" \o Str(r) \o ")" ELSE "[u]" \o Str(r)) ELSE IF d.pat = 6 THEN "w" \o Str(r % 3) ELSE "w" \o Str(r)
IsNaN(d, r, c) == d.pat = 3 /\ ((d.nk = 1 \/ r > 1) /\ (r + c) % 3 = 0) /\ ~(r = 1 /\ d.nr = 1)
Num(d, r, c) == CASE d.pat = 0 -> Q(10 * r + c, 1)
                  [] d.pat = 6 -> Q(10 * (r % 3) + c, 1)
                  [] d.pat = 4 -> Q((IF c % 2 = 0 THEN 1 ELSE -1) * (100 * r + c), 1000)
                  [] d.pat = 1 -> OddE(3 * r + c, Q(1000 * r - 125 * c, 8))
                  [] OTHER     -> Q((IF (r + c) % 2 = 0 THEN 1 ELSE -1) * (1000 * r + 125 * c), 8)
NumTxt(d, r, c) == CASE d.pat \in {0, 6} -> Str(Num(d, r, c).n)
                     [] d.pat = 4 -> (IF c % 2 = 0 THEN "+" ELSE "") \o Str(Num(d, r, c).n) \o (IF c % 3 = 0 THEN "E-03" ELSE ".0e-3")
                     [] OTHER     -> Dec(Num(d, r, c))
Cell(d, r, c) == IF IsWord(d, c) THEN Word(d, r) ELSE IF IsNaN(d, r, c) THEN NaN ELSE Num(d, r, c)
CellTxt(d, r, c) == IF IsWord(d, c) THEN Word(d, r) ELSE IF IsNaN(d, r, c) THEN (IF White(d) \/ d.sep = 3 THEN "NaN" ELSE "") ELSE NumTxt(d, r, c)
\* --- lines
J(d, s) == Join(s, SepS(d))
RowLine(d, r) == (IF d.sep = 5 /\ d.nc > 1 THEN "   " ELSE "") \o J(d, [c \in 1..d.nc |-> CellTxt(d, r, c)])
NameTxt(d) == J(d, [c \in 1..d.nc |-> ColName(d, c)])
Pre(d) == IF d.opt = 3 THEN "text " ELSE CC(d) \o " "
Long == "one two three four five six seven"
Com(d, i) == IF d.nk = 3 /\ i = d.ncom THEN CC(d) \o " " \o J(d, [c \in 1..d.nc |-> Unit(d, c)])
             ELSE IF (i = d.ncom /\ d.nk = 2) \/ (i = d.ncom - 1 /\ d.nk = 3) THEN CC(d) \o " " \o NameTxt(d) ELSE Pre(d) \o Long
Coms(d) == [i \in 1..d.ncom |-> Com(d, i)]
Rows(d) == [r \in 1..d.nr |-> RowLine(d, r)]
Lines(d) == CASE d.opt = 8 -> <<NameTxt(d)>> \o Coms(d) \o Rows(d)
              [] d.opt = 9 -> <<"Some title", "and more of it">> \o <<NameTxt(d)>> \o Rows(d)
              [] d.opt = 10 -> (IF d.nk = 1 THEN <<NameTxt(d)>> ELSE <<>>) \o [r \in 1..(d.nr - 1) |-> RowLine(d, r)] \o Coms(d) \o <<RowLine(d, d.nr)>>
              [] OTHER -> Coms(d) \o (IF d.nk = 1 THEN <<NameTxt(d)>> ELSE <<>>) \o (IF d.uk > 0 THEN <<J(d, [c \in 1..d.nc |-> Unit(d, c)])>> ELSE <<>>) \o Rows(d)
EncS(d) == <<"utf-8", "utf-8-sig", "utf-16", "ascii">>[d.enc]
HasAccent(d) == d.enc # 4
\* --- what is read
Given(d, c) == (IF White(d) THEN "given_" ELSE "given ") \o Str(c)
Cols(d) == [c \in 1..d.nc |-> CASE d.opt = 4 -> Given(d, c) [] d.nk = 0 -> "C" \o Str(c - 1) [] d.uk > 0 -> ColName(d, c) \o "_" \o Unit(d, c) [] OTHER -> ColName(d, c)]
Cells(d) == [r \in 1..d.nr |-> [c \in 1..d.nc |-> Cell(d, r, c)]]
Kw(d) == CASE d.opt = 1 -> <<<<"sep", IF d.sep = 5 THEN " " ELSE SepS(d)>>>>
           [] d.opt = 2 -> <<<<"commentChar", CC(d)>>>>
           [] d.opt = 3 -> <<<<"commentLines", [i \in 1..d.ncom |-> i - 1]>>>>
           [] d.opt = 4 -> <<<<"colNames", [c \in 1..d.nc |-> Given(d, c)]>>>>
           [] d.opt = 5 -> <<<<"colNamesLine", d.ncom>>>>
           [] d.opt = 6 -> <<<<"colNamesLine", -1>>>>
           [] d.opt = 7 -> <<<<"detectColumnNames", FALSE>>>>
           [] d.opt = 8 -> <<<<"commentLines", <<1>>>>>>
           [] d.opt = 10 -> <<<<"commentLines", [i \in 1..d.ncom |-> (IF d.nk = 1 THEN 1 ELSE 0) + d.nr - 2 + i]>>>>
           [] d.opt = 9 -> <<<<"colNamesLine", 2>>>>
           [] OTHER     -> <<>>
\* the options with which the written file is read back: those that still apply to it
KwBack(d) == CASE d.opt \in {4, 7} /\ d.ncom = 0 -> <<>>
               [] d.opt = 8 -> <<<<"commentLines", <<0>>>>>>
               [] d.opt = 10 -> <<<<"commentLines", [i \in 1..d.ncom |-> i - 1]>>>>
               [] d.opt = 9 -> <<>>
               [] OTHER -> Kw(d)
OpenKw(o, p, kw) == [op |-> "open", o |-> o, cls |-> "CSVFile", path |-> p, kw |-> kw]
See(o, t) == <<DF(o, Table(t.cols, t.rows), "f8"), [op |-> "get", o |-> o, at |-> <<Attr("header")>>, expect |-> t.head, tol |-> "exact"]>>
Tab(d) == [cols |-> Cols(d), rows |-> Cells(d), head |-> Coms(d)]

Init == /\ ds \in DataSets /\ n = 0 /\ df = Tab(ds)
        /\ hist = <<[op |-> "mktext", path |-> "a.csv", lines |-> Lines(ds), enc |-> EncS(ds), nl |-> IF ds.nl = 0 THEN "\n" ELSE "\r\n"], OpenKw("A", "a.csv", Kw(ds))>> \o See("A", Tab(ds))
Do(ops) == hist' = hist \o ops /\ n' = n + 1 /\ UNCHANGED ds
Simple == ds.opt # 6 /\ ds.opt # 4
\* the caller replaces the table: another value, another name, one row more
MkDf(t) == <<[op |-> "mkdf", o |-> "D", cols |-> t.cols, rows |-> t.rows], Set("A", <<Attr("data")>>, [ref |-> "D"])>>
EditCell == /\ "cell" \in Ops /\ n < K - 1 /\ ds.nr > 0 /\ df' = [df EXCEPT !.rows[1][1] = Q(777, 8)] /\ df' # df /\ Do(MkDf(df'))
EditName == /\ "name" \in Ops /\ n < K - 1 /\ Simple /\ df' = [df EXCEPT !.cols[1] = "New_[m]"] /\ df' # df /\ Do(MkDf(df'))
AddRow   == /\ "row" \in Ops /\ n < K - 1 /\ ds.nr > 0 /\ df' = [df EXCEPT !.rows = Append(@, [c \in 1..ds.nc |-> IF IsWord(ds, c) THEN "w0" ELSE Q(c, 8)])] /\ Do(MkDf(df'))
Reread   == /\ "reread" \in Ops /\ n < K - 1 /\ df' = Tab(ds) /\ Do(<<Read("A", "a.csv")>> \o See("A", Tab(ds)))
Back(t)  == IF df.cols # Cols(ds) /\ ds.opt = 7 THEN <<>> ELSE KwBack(ds)
WriteIt  == /\ n < K /\ UNCHANGED df
            /\ LET p == "b" \o Str(n) \o ".csv" IN
               Do(<<Write("A", p)>> \o See("A", df) \o <<OpenKw("B", p, Back(df))>> \o See("B", df)
                  \o <<Write("B", "c.csv"), OpenKw("C", "c.csv", Back(df))>> \o See("C", df) \o <<[op |-> "same", a |-> p, b |-> "c.csv"]>>)
Next == IF n = K - 1 THEN WriteIt ELSE EditCell \/ EditName \/ AddRow \/ Reread \/ (n < K - 1 /\ WriteIt)
\* the layout is unambiguous: no comment can be taken for the names, and vice versa
Unambiguous == /\ (ds.nk # 2 => ds.nc # 7)
               /\ Len(Lines(ds)) = ds.ncom + (IF ds.nk = 1 THEN 1 ELSE 0) + (IF ds.uk > 0 THEN 1 ELSE 0) + ds.nr + (IF ds.opt = 9 THEN 2 ELSE 0)
Emit == (n = K) => PrintT(ToJson([ops |-> hist]))
=============================================================================
