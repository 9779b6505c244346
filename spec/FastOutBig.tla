----------------------------- MODULE FastOutBig -----------------------------
(***************************************************************************)
(* OpenFAST binary outputs too long to be decoded in one piece: the value  *)
(* of time step t, channel c (both from 0) only depends on its position    *)
(* i = t*nch + c in the file, whatever the reader buffers.  The raw values *)
(* are generated, v(i) = lo + (a*i + b) mod m, so that every position is   *)
(* distinguishable from its neighbours.                                    *)
(***************************************************************************)
EXTENDS Base
CONSTANTS IDs, NChs, Blocks, Extras
VARIABLES ds, phase, hist
vars == <<ds, phase, hist>>

PerBlock(nch) == 163840 \div nch                  \* lines in a block of 4096*40 values, the natural buffer of the readers
DataSets == [id : IDs, nch : NChs, blk : Blocks, extra : Extras]
NT(d) == d.blk * PerBlock(d.nch) + d.extra
V(d, i) == -3000 + ((7 * i + 13) % 6007)
Cols(d) == [c \in 1..d.nch |-> "Ch" \o Str(c)]
Scl(c) == Q(c, 4)
Off(c) == Q(5 * c, 1)
File(d) ==
  <<I2(d.id)>> \o (IF d.id = 4 THEN <<I2(12)>> ELSE <<>>) \o <<I4(d.nch), I4(NT(d))>>
  \o (IF d.id = 1 THEN <<F8(Q(1,1)), F8(Q(0,1))>> ELSE <<F8(Q(0,1)), F8(Q(1,2))>>)
  \o (IF d.id = 3 THEN <<>> ELSE <<F4([c \in 1..d.nch |-> Scl(c)]), F4([c \in 1..d.nch |-> Off(c)])>>)
  \o <<I4(0)>>
  \o <<S("Time", IF d.id = 4 THEN 12 ELSE 10)>> \o [c \in 1..d.nch |-> S(Cols(d)[c], IF d.id = 4 THEN 12 ELSE 10)]
  \o <<S("(s)", IF d.id = 4 THEN 12 ELSE 10)>>  \o [c \in 1..d.nch |-> S("(-)", IF d.id = 4 THEN 12 ELSE 10)]
  \o (IF d.id = 1 THEN <<Tok("i4", [gen |-> <<2, 0, 1000000, 0, NT(d)>>])>> ELSE <<>>)
  \o <<Tok(IF d.id = 3 THEN "f8" ELSE "i2", [gen |-> <<7, 13, 6007, -3000, NT(d) * d.nch>>])>>

Probe(d) == LET n == NT(d)  p == PerBlock(d.nch)
            IN {t \in {0, 1, p - 2, p - 1, p, p + 1, 2 * p - 1, 2 * p, n \div 2, n - 2, n - 1} : t >= 0 /\ t < n}
Cell(d, t, c) == LET v == Int2Q(V(d, t * d.nch + c - 1)) IN IF d.id = 3 THEN v ELSE QDiv(QSub(v, Off(c)), Scl(c))
RECURSIVE Seqn(_)
Seqn(A) == IF A = {} THEN <<>> ELSE LET x == MinOf(A) IN <<x>> \o Seqn(A \ {x})
Cells(d) == Flatten([k \in 1..Len(Seqn(Probe(d))) |->
              LET t == Seqn(Probe(d))[k] IN
              << <<t, 0, IF d.id = 1 THEN Int2Q((2 * t) % 1000000) ELSE Q(t, 2)>> >> \o [c \in 1..d.nch |-> <<t, c, Cell(d, t, c)>>]])

Init == ds \in DataSets /\ phase = "none" /\ hist = <<>>
Produce == phase = "none" /\ phase' = "file" /\ hist' = <<MkFile("big.outb", File(ds))>> /\ UNCHANGED ds
ReadIt  == phase = "file" /\ phase' = "done" /\ UNCHANGED ds
           /\ hist' = hist \o <<Open("A", "FASTOutputFile", "big.outb"),
                 [op |-> "dfcells", o |-> "A", shape |-> <<NT(ds), ds.nch + 1>>, cells |-> Cells(ds), tol |-> "f4"]>>
Next == Produce \/ ReadIt
\* every position of the file is one cell of the table
Positions == phase = "done" => \A t \in Probe(ds) : \A c \in 1..ds.nch : t * ds.nch + c <= NT(ds) * ds.nch
Emit == (phase = "done") => PrintT(ToJson([ops |-> hist]))
=============================================================================
