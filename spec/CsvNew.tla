------------------------------- MODULE CsvNew -------------------------------
(* Tables made by the caller and handed to the CSV writer. *)
EXTENDS Base
CONSTANTS Seps, Heads, NCols, NRows, Pats
VARIABLES ds, hist
SepS(d) == <<",", ";", "\t", " ", "\\s+", "">>[d.sep]
DataSets == [sep : Seps, head : Heads, nc : NCols, nr : NRows, pat : Pats]
Name(d, c) == CASE c = 1 -> "Time" [] c = 2 -> (IF d.sep \in {1, 2, 3} THEN "Wind Speed [m/s]" ELSE "Wind_[m/s]") [] c = 3 -> "Yaw_[~deg~]" [] OTHER -> "x#" \o Str(c)
Cell(d, r, c) == CASE d.pat = 1 /\ (r + c) % 2 = 1 -> NaN
                   [] d.pat = 2 -> OddE(3 * r + c, Q(10000 * r + c, 3))
                   [] d.pat = 3 -> (IF c = 2 THEN "word" \o Str(r) ELSE Q(r, 1))
                   [] OTHER -> Q(r - c, 7)
Cols(d) == [c \in 1..d.nc |-> Name(d, c)]
Rows(d) == [r \in 1..d.nr |-> [c \in 1..d.nc |-> Cell(d, r, c)]]
\* 0 none, 1 one line, 2 many lines, 3 with another comment character, 4 one line given as such
Head1(d) == CASE d.head = 0 -> <<>> [] d.head \in {1, 4} -> <<"# a comment with several words and values 1 2 3">> [] d.head = 2 -> [i \in 1..120 |-> "# comment of seven words number " \o Str(i)]
              [] OTHER -> <<"! one", "! more than five words in there">>
Tab(o, d) == <<DF(o, Table(Cols(d), Rows(d)), "f8")>>
Init == /\ ds \in DataSets
        /\ LET kw == (IF ds.sep = 7 THEN <<>> ELSE <<<<"sep", SepS(ds)>>>>) \o (IF ds.head = 0 THEN <<>> ELSE <<<<"header", IF ds.head = 4 THEN Head1(ds)[1] ELSE Head1(ds)>>>>)
           IN hist = <<[op |-> "mkdf", o |-> "D", cols |-> Cols(ds), rows |-> Rows(ds)], [op |-> "new", o |-> "A", cls |-> "CSVFile", kw |-> kw], Set("A", <<Attr("data")>>, [ref |-> "D"]),
                       Write("A", "a.csv")>> \o Tab("A", ds) \o <<Open("B", "CSVFile", "a.csv")>> \o Tab("B", ds)
                       \o <<[op |-> "get", o |-> "B", at |-> <<Attr("header")>>, expect |-> Head1(ds), tol |-> "exact"], Write("A", "b.csv"), [op |-> "same", a |-> "a.csv", b |-> "b.csv"],
                            Write("B", "c.csv")>> \o (IF ds.pat = 3 THEN <<[op |-> "same", a |-> "a.csv", b |-> "c.csv"]>> ELSE <<>>) \o <<WRead("W", "CSVFile", "c.csv")>> \o Tab("W", ds)
Next == FALSE /\ UNCHANGED <<ds, hist>>
Emit == PrintT(ToJson([ops |-> hist]))
=============================================================================
