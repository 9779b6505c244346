------------------------------- MODULE DetectRule -------------------------------
(***************************************************************************)
(* Which format opens a file.                                              *)
(*                                                                         *)
(* The registry is made once: the built-in formats and those of the user's *)
(* modules, in the order of their priorities, the earlier registered first *)
(* among equals (built-in before user, user modules by their file names).  *)
(* Opening a file asks, in this order, the formats one of whose extensions *)
(* matches that of the file (without regard to case, '*' stands for any    *)
(* text).  A reader accepts, rejects, or fails: the first that does not    *)
(* reject decides.  Nothing else does: not what was opened before.         *)
(*                                                                         *)
(* Two uses: behaviours with user formats that accept, reject and fail,    *)
(* replayed into weio; and openings of real files recorded from weio, with *)
(* the verdict of every reader concerned, checked against Decide.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* --- the built-in formats, as published (extensions in small letters)
Fmt(c, p, e) == [c |-> c, p |-> p, e |-> e, u |-> 0]
Builtin == <<
  Fmt("CSVFile", 0, <<".csv", ".txt">>), Fmt("ExcelFile", 0, <<".xls", ".xlsx">>),
  Fmt("TecplotFile", 10, <<".dat">>), Fmt("BladedFile", 10, <<".%*", ".$*">>),
  Fmt("FASTInputFile", 20, <<".dat", ".fst", ".txt", ".fstf">>), Fmt("FASTOutputFile", 20, <<".out", ".outb", ".elm", ".elev">>),
  Fmt("FASTWndFile", 20, <<".wnd">>), Fmt("FASTLinearizationFile", 20, <<".lin">>), Fmt("FASTSummaryFile", 20, <<".sum", ".yaml">>),
  Fmt("TurbSimTSFile", 20, <<".txt">>), Fmt("TurbSimFile", 20, <<".bts">>),
  Fmt("HAWC2DatFile", 30, <<".dat", ".sel">>), Fmt("HAWC2HTCFile", 30, <<".htc">>), Fmt("HAWC2StFile", 30, <<".st", ".dat">>),
  Fmt("HAWC2PCFile", 30, <<".dat", ".pc", ".txt">>), Fmt("HAWC2AEFile", 30, <<".dat", ".ae", ".txt">>),
  Fmt("HAWCStab2PwrFile", 30, <<".pwr", ".txt">>), Fmt("HAWCStab2IndFile", 30, <<".ind", ".txt">>), Fmt("HAWCStab2CmbFile", 30, <<".cmb">>),
  Fmt("MannBoxFile", 30, <<".u", ".v", ".w", ".bin">>),
  Fmt("FLEXBladeFile", 40, <<".bld", ".bla", ".00x">>), Fmt("FLEXProfileFile", 40, <<".pro", ".00x">>), Fmt("FLEXOutFile", 40, <<".res", ".int">>),
  Fmt("FLEXWaveKinFile", 40, <<".wko">>), Fmt("FLEXDocFile", 40, <<".out", ".doc">>),
  Fmt("BModesOutFile", 50, <<".out">>), Fmt("ROSCOPerformanceFile", 50, <<".txt">>),
  Fmt("NetCDFFile", 60, <<".nc">>), Fmt("VTKFile", 60, <<".vtk", ".vtp">>), Fmt("TDMSFile", 60, <<".tdms">>), Fmt("ParquetFile", 60, <<".parquet">>),
  Fmt("CactusFile", 70, <<".in">>), Fmt("RAAWMatFile", 70, <<".mat">>)>>

\* --- extensions
Up == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lo == "abcdefghijklmnopqrstuvwxyz"
At(s, i) == SubSeq(s, i, i)
LowC(c) == IF \E i \in 1..26 : At(Up, i) = c THEN At(Lo, CHOOSE i \in 1..26 : At(Up, i) = c) ELSE c
RECURSIVE Low(_)
Low(s) == IF Len(s) = 0 THEN "" ELSE LowC(At(s, 1)) \o Low(SubSeq(s, 2, Len(s)))
From(s, i) == SubSeq(s, i, Len(s))
RECURSIVE Glob(_, _)
Glob(p, s) == IF Len(p) = 0 THEN Len(s) = 0
              ELSE IF At(p, 1) = "*" THEN \E i \in 1..Len(s) + 1 : Glob(From(p, 2), From(s, i))
              ELSE Len(s) > 0 /\ At(p, 1) = At(s, 1) /\ Glob(From(p, 2), From(s, 2))
\* (f and ext in small letters)
Small(f) == [f EXCEPT !.e = [i \in 1..Len(f.e) |-> Low(f.e[i])]]
Matches(f, ext) == \E i \in 1..Len(f.e) : Glob(f.e[i], ext)

\* --- the registry: stable in the priorities
Sorted(fs) == LET N == Len(fs)
                  rank == TLCEval([i \in 1..N |-> Cardinality({j \in 1..N : fs[j].p < fs[i].p \/ (fs[j].p = fs[i].p /\ j <= i)})])
              IN TLCEval([k \in 1..N |-> fs[CHOOSE i \in 1..N : rank[i] = k]])

\* --- the decision: the verdict of every format concerned -> the outcome
DecideIn(r, ext, verdict) ==
  LET cand == TLCEval({i \in 1..Len(r) : Matches(r[i], ext) /\ (r[i].c \in DOMAIN verdict => verdict[r[i].c] # "wrong")})
  IN  IF cand = {} THEN [k |-> "notdetected", c |-> ""]
      ELSE LET f == r[CHOOSE i \in cand : \A j \in cand : i <= j]
           IN  [k |-> IF f.c \in DOMAIN verdict THEN verdict[f.c] ELSE "unknown", c |-> f.c]
Decide(r, ext, verdict) == DecideIn(r, TLCEval(Low(ext)), verdict)

=============================================================================
