----------------------------- MODULE DetectTrace -----------------------------
(***************************************************************************)
(* Openings recorded from weio against DetectRule.  A trace is what one    *)
(* process did: a sequence of openings [ext, own, verdicts: class ->       *)
(* verdict, each measured in a process of its own, out: [k, c]].           *)
(***************************************************************************)
EXTENDS DetectRule, Json, IOUtils
Reg0 == Sorted(Builtin)
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES ti, at, bad
Clause(t) == LET r == Reg0
                 need == {i \in 1..Len(r) : Matches(r[i], Low(t.ext))}
                 miss == {i \in need : r[i].c \notin DOMAIN t.verdicts}
                 dec == Decide(r, t.ext, t.verdicts)
             IN IF miss # {} THEN "a format whose extension matches is not registered"
                ELSE IF dec.k # t.out.k \/ (dec.k = "ok" /\ dec.c # t.out.c) THEN "opens as " \o t.out.k \o " " \o t.out.c \o " instead of " \o dec.k \o " " \o dec.c
                ELSE IF t.own # "" /\ (t.out.k # "ok" \/ t.out.c # t.own) THEN "a file of " \o t.own \o " opens as " \o t.out.k \o " " \o t.out.c
                ELSE ""


TraceInit == ti \in 1..Len(Traces) /\ at = 0 /\ bad = ""
TraceNext == /\ at < Len(Traces[ti]) /\ at' = at + 1 /\ bad' = Clause(Traces[ti][at + 1]) /\ UNCHANGED ti
TraceOK == bad = ""
=============================================================================
