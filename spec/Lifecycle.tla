------------------------------ MODULE Lifecycle ------------------------------
(***************************************************************************)
(* The life of file objects, the same for every format.                    *)
(*                                                                         *)
(* Files: a path holds nothing, an empty file, or data [s, d]: sample s    *)
(* carried through d rounds of writing.  Objects: an object holds nothing, *)
(* data [s, d], or something unknown (after a failed read, or after its    *)
(* client changed it in place).  Reading puts the data of a file into the  *)
(* object, whatever the object held; writing puts the data of the object,  *)
(* one round older, into a file; observing, in any way, changes nothing.   *)
(* The data [s, d] look, by any observation, like the data of an object    *)
(* that read sample s in a process of its own and was written and read     *)
(* back d times: this is what the replay compares.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Objs, Ops, Kinds, Reads, Writes, CanWrite, K, Last, Prelude
VARIABLES disk, objs, n, hist
vars == <<disk, objs, n, hist>>
Slots == {"p1", "p2", "m", "e", "w1", "w2"}
No == [s |-> 0, d |-> 0]            \* nothing: no file, or nothing read yet
Void == [s |-> -1, d |-> 0]         \* an empty file
Unknown == [s |-> -2, d |-> 0]
Known(x) == x.s > 0
Absent == [on |-> FALSE, c |-> No, f |-> "none"]
Sample(k) == [s |-> k, d |-> 0]
Disk0 == [x \in Slots |-> IF x = "p1" THEN Sample(1) ELSE IF x = "p2" THEN Sample(2) ELSE IF x = "e" THEN Void ELSE No]
Outcome(x) == IF x.s = 0 THEN "missing" ELSE IF x.s = -1 THEN "empty" ELSE "ok"
\* --- transitions; every step is recorded with the files as they are after it
Rec(r) == hist' = Append(hist, r @@ [disk |-> disk'])
Count == n < K /\ n' = n + 1
\* making an object without a file name does nothing
New(o) == /\ "new" \in Ops /\ Count /\ objs' = [objs EXCEPT ![o] = [on |-> TRUE, c |-> No, f |-> "none"]] /\ UNCHANGED disk /\ Rec([op |-> "new", o |-> o])
Load(o, p) == [on |-> TRUE, c |-> IF Known(disk[p]) THEN disk[p] ELSE Unknown, f |-> p]
Open(o, p) == /\ "open" \in Ops /\ Count /\ UNCHANGED disk
              /\ objs' = [objs EXCEPT ![o] = IF Known(disk[p]) THEN Load(o, p) ELSE Absent]
              /\ Rec([op |-> "open", o |-> o, at |-> p, res |-> Outcome(disk[p])])
Read(o, p) == /\ "read" \in Ops /\ objs[o].on /\ Count /\ UNCHANGED disk /\ objs' = [objs EXCEPT ![o] = Load(o, p)]
              /\ Rec([op |-> "read", o |-> o, at |-> p, res |-> Outcome(disk[p])])
Again(o) == /\ "again" \in Ops /\ objs[o].on /\ objs[o].f # "?" /\ Count /\ UNCHANGED disk
            /\ IF objs[o].f = "none" THEN UNCHANGED objs /\ Rec([op |-> "again", o |-> o, res |-> "nofile"])
               ELSE objs' = [objs EXCEPT ![o] = Load(o, objs[o].f)] /\ Rec([op |-> "again", o |-> o, at |-> objs[o].f, res |-> Outcome(disk[objs[o].f])])
Observe(o, k) == /\ "obs" \in Ops /\ objs[o].on /\ Known(objs[o].c) /\ Count /\ UNCHANGED <<disk, objs>> /\ Rec([op |-> "obs", o |-> o, k |-> k, is |-> objs[o].c])
\* writing: the object goes on with the file it wrote
Write(o, p) == /\ "write" \in Ops /\ objs[o].on /\ Known(objs[o].c) /\ objs[o].c.d < 2 /\ Count
               /\ IF CanWrite THEN /\ disk' = [disk EXCEPT ![p] = [objs[o].c EXCEPT !.d = @ + 1]] /\ objs' = [objs EXCEPT ![o].f = p]
                  ELSE UNCHANGED disk /\ objs' = [objs EXCEPT ![o].f = "?"]
               /\ Rec([op |-> "write", o |-> o, at |-> p, res |-> IF CanWrite THEN "ok" ELSE "cannot", is |-> objs[o].c])
Rewrite(o) == /\ "rewrite" \in Ops /\ objs[o].on /\ objs[o].f # "?" /\ Count
              /\ IF objs[o].f = "none" THEN UNCHANGED <<disk, objs>> /\ Rec([op |-> "rewrite", o |-> o, res |-> "nofile"])
                 ELSE /\ Known(objs[o].c) /\ objs[o].c.d < 2 /\ CanWrite /\ UNCHANGED objs /\ disk' = [disk EXCEPT ![objs[o].f] = [objs[o].c EXCEPT !.d = @ + 1]]
                      /\ Rec([op |-> "rewrite", o |-> o, at |-> objs[o].f, res |-> "ok", is |-> objs[o].c])
\* the client changes, in place, everything the object hands out
Poke(o) == /\ "poke" \in Ops /\ objs[o].on /\ Count /\ UNCHANGED disk /\ objs' = [objs EXCEPT ![o].c = Unknown] /\ Rec([op |-> "poke", o |-> o])
\* another program changes the files
Change(p, k) == /\ "change" \in Ops /\ disk[p] # Sample(k) /\ Count /\ disk' = [disk EXCEPT ![p] = Sample(k)] /\ UNCHANGED objs /\ Rec([op |-> "change", at |-> p, to |-> k])
Remove(p) == /\ "remove" \in Ops /\ disk[p] # No /\ Count /\ disk' = [disk EXCEPT ![p] = No] /\ UNCHANGED objs /\ Rec([op |-> "remove", at |-> p])
Step(o) == \/ New(o) \/ Again(o) \/ Rewrite(o) \/ Poke(o)
           \/ \E p \in Reads : Open(o, p) \/ Read(o, p)
           \/ \E k \in Kinds : Observe(o, k)
           \/ \E p \in Writes : Write(o, p)
\* a prelude that all histories of a family share
Pre == CASE Prelude = "none" -> [d |-> Disk0, o |-> [o \in Objs |-> Absent], h |-> <<>>]
       [] Prelude = "open" -> [d |-> Disk0, o |-> [o \in Objs |-> IF o = "A" THEN [on |-> TRUE, c |-> Sample(1), f |-> "p1"] ELSE Absent],
                               h |-> <<[op |-> "open", o |-> "A", at |-> "p1", res |-> "ok", disk |-> Disk0]>>]
       [] Prelude = "two" -> [d |-> Disk0, o |-> [o \in Objs |-> [on |-> TRUE, c |-> Sample(IF o = "A" THEN 1 ELSE 2), f |-> IF o = "A" THEN "p1" ELSE "p2"]],
                               h |-> <<[op |-> "open", o |-> "A", at |-> "p1", res |-> "ok", disk |-> Disk0], [op |-> "open", o |-> "B", at |-> "p2", res |-> "ok", disk |-> Disk0]>>]
Init == disk = Pre.d /\ objs = Pre.o /\ hist = Pre.h /\ n = 0
Next == (\E o \in Objs : Step(o)) \/ (\E p \in Reads \cap {"p1", "p2"} : Remove(p) \/ (\E k \in 1..2 : Change(p, k)))
\* --- two objects of different formats share nothing but the disk: each keeps to its own files
Own(o) == IF o = "A" THEN "p1" ELSE "p2"
OwnW(o) == IF o = "A" THEN "w1" ELSE "w2"
CrossNext == \E o \in Objs : \/ New(o) \/ Again(o) \/ Poke(o) \/ Open(o, Own(o)) \/ Read(o, Own(o)) \/ (\E k \in Kinds : Observe(o, k)) \/ Write(o, OwnW(o))
\* --- properties of the model
TypeOK == /\ \A p \in Slots : disk[p].s \in -1..2 /\ disk[p].d \in 0..3
          /\ \A o \in Objs : objs[o].c.s \in -2..2 /\ objs[o].f \in Slots \cup {"none", "?"}
\* an object's data change only by what is done with that object
Independent == [][\A o \in Objs : objs'[o] # objs[o] => (Len(hist') > 0 /\ "o" \in DOMAIN hist'[Len(hist')] /\ hist'[Len(hist')].o = o)]_vars
\* observing and writing leave the data of the object alone
Pure == [][\A o \in Objs : (Len(hist') > Len(hist) /\ hist'[Len(hist')].op \in {"obs", "write", "rewrite"}) => objs'[o].c = objs[o].c]_vars
\* only writing (and other programs) changes files
Untouched == [][disk' # disk => hist'[Len(hist')].op \in {"write", "rewrite", "change", "remove"}]_vars
\* data are as old as the number of rounds of writing they went through
Rounds == \A o \in Objs : Known(objs[o].c) => objs[o].c.d <= 2
\* the history ends with a full look at all objects whose data are known
Final == [o \in {x \in Objs : objs[x].on /\ Known(objs[x].c)} |-> objs[o].c]
Useful == \E o \in Objs : objs[o].on /\ Known(objs[o].c)
Emit == (n = K /\ (Last => Useful)) => PrintT(ToJson([ops |-> hist, final |-> [o \in Objs |-> IF objs[o].on THEN objs[o].c ELSE No]]))
=============================================================================
