-------------------------------- MODULE Base --------------------------------
(***************************************************************************)
(* Vocabulary shared by the specifications: rationals, typed tokens of a   *)
(* binary file, text helpers, and the operation records of a behaviour     *)
(* (what a client does with weio and what it must observe).  Operation     *)
(* records are what the replay interpreter executes against the real code. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

\* --- Rationals (not normalised): used for every real number in a file or table
Q(n, d)    == [n |-> n, d |-> d]
Int2Q(n)   == Q(n, 1)
QAdd(a, b) == Q(a.n * b.d + b.n * a.d, a.d * b.d)
QSub(a, b) == Q(a.n * b.d - b.n * a.d, a.d * b.d)
QMul(a, b) == Q(a.n * b.n, a.d * b.d)
QDiv(a, b) == IF b.n < 0 THEN Q(-(a.n * b.d), -(a.d * b.n)) ELSE Q(a.n * b.d, a.d * b.n)
QEq(a, b)  == a.n * b.d = b.n * a.d
QLe(a, b)  == a.n * b.d <= b.n * a.d
QAbs(a)    == Q(IF a.n < 0 THEN -a.n ELSE a.n, a.d)

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
QNorm(q) == LET g == Gcd(IF q.n < 0 THEN -q.n ELSE q.n, q.d) IN Q(q.n \div g, q.d \div g)

NaN  == [nan  |-> 1]
Whatever == [any  |-> 1]
None == [none |-> 1]

\* --- Tokens of a binary file: type code (struct-like) and value(s)
Tok(t, v)  == [t |-> t, v |-> v]
I2(v) == Tok("i2", v)
I4(v) == Tok("i4", v)
U1(v) == Tok("u1", v)
F4(v) == Tok("f4", v)
F8(v) == Tok("f8", v)
S(s, len)  == [t |-> "s", v |-> s, n |-> len]      \* string padded with blanks to len bytes

\* --- Sequences
Map(f(_), s)    == [i \in 1..Len(s) |-> f(s[i])]
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
RECURSIVE JoinR(_, _)
JoinR(ss, sep) == IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o JoinR(Tail(ss), sep)
Join(ss, sep)  == IF ss = <<>> THEN "" ELSE JoinR(ss, sep)
RECURSIVE SumR(_)
SumR(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumR(Tail(s))
Rev(s)  == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Rng(s)  == {s[i] : i \in 1..Len(s)}
MinOf(S0) == CHOOSE x \in S0 : \A y \in S0 : x <= y
MaxOf(S0) == CHOOSE x \in S0 : \A y \in S0 : x >= y
Str(n)  == ToString(n)

\* --- Numbers of many digits: n / 10^k, and n / 10^k times 10^e
P10 == <<10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000>>
QL(n, k)    == Q(n, P10[k])
QE(n, k, e) == [n |-> n, d |-> P10[k], e |-> e]
RECURSIVE Pad0(_, _)
Pad0(s, k) == IF k <= 0 THEN s ELSE Pad0("0" \o s, k - 1)
DecL(q) == LET a == IF q.n < 0 THEN -q.n ELSE q.n
               k == CHOOSE i \in 1..9 : P10[i] = q.d
               fs == ToString(a % q.d)
           IN (IF q.n < 0 THEN "-" ELSE "") \o ToString(a \div q.d) \o "." \o Pad0(fs, k - Len(fs))
\* here and there a number of many digits (which is only copied, never computed with)
Sg(k) == IF k % 2 = 0 THEN 1 ELSE -1
Odd(k, q) == IF k % 7 = 3 THEN QL(Sg(k) * (123456789 + 10007 * (k % 9999)), 8) ELSE IF k % 13 = 5 THEN QL(Sg(k) * (987654321 - 20011 * (k % 9999)), 4) ELSE q
\* the same, very large and very small ones included
OddE(k, q) == IF k % 11 = 6 THEN QE(Sg(k) * (345678912 + 7 * (k % 9999)), 8, 11) ELSE IF k % 17 = 8 THEN QE(Sg(k) * (765432198 - 3 * (k % 9999)), 8, -9) ELSE Odd(k, q)

\* Decimal text of a rational whose denominator is 1, 2, 4, 5, 8 or 10, or a number of many digits
Dec(q) == IF "e" \in DOMAIN q THEN DecL(q) \o "E" \o (IF q.e < 0 THEN "-" ELSE "+") \o Pad0(ToString(IF q.e < 0 THEN -q.e ELSE q.e), IF q.e \in -9..9 THEN 1 ELSE 0)
  ELSE IF q.d >= 10000 THEN DecL(q) ELSE
  LET neg == q.n < 0
      a   == IF neg THEN -q.n ELSE q.n
      ip  == a \div q.d
      fp  == ((a % q.d) * 1000) \div q.d
      fs  == ToString(fp)
      txt == ToString(ip) \o "." \o (IF fp < 10 THEN "00" ELSE IF fp < 100 THEN "0" ELSE "") \o fs
  IN  IF neg THEN "-" \o txt ELSE txt

\* the same with four decimals, for small steps
Dec4(q) ==
  LET a  == IF q.n < 0 THEN -q.n ELSE q.n
      fp == ((a % q.d) * 10000) \div q.d
      fs == ToString(fp)
  IN  (IF q.n < 0 THEN "-" ELSE "") \o ToString(a \div q.d) \o "." \o Pad0(fs, 4 - Len(fs)) 

\* --- Operations of a behaviour and what they must show
MkFile(path, toks)   == [op |-> "mkfile", path |-> path, toks |-> toks]
MkText(path, lines)  == [op |-> "mktext", path |-> path, lines |-> lines]
RmFile(path)         == [op |-> "rmfile", path |-> path]
New(o, cls)          == [op |-> "new", o |-> o, cls |-> cls]
Open(o, cls, path)   == [op |-> "open", o |-> o, cls |-> cls, path |-> path]
OpenErr(o, cls, path, err) == [op |-> "open", o |-> o, cls |-> cls, path |-> path, err |-> err]
Read(o, path)        == [op |-> "read", o |-> o, path |-> path]
WRead(o, cls, path)  == [op |-> "weioread", o |-> o, cls |-> cls, path |-> path]
Write(o, path)       == [op |-> "write", o |-> o, path |-> path]
DF(o, e, tol)        == [op |-> "df", o |-> o, expect |-> e, tol |-> tol]
Get(o, at, e, tol)   == [op |-> "get", o |-> o, at |-> at, expect |-> e, tol |-> tol]
Shape(o, at, e)      == [op |-> "shape", o |-> o, at |-> at, expect |-> e]
Set(o, at, v)        == [op |-> "set", o |-> o, at |-> at, val |-> v]
Layout(path, toks, tol) == [op |-> "layout", path |-> path, toks |-> toks, tol |-> tol]
Attr(a)              == [a |-> a]
Table(cols, rows)    == [cols |-> cols, rows |-> rows]
AbsTol(q)            == [abs |-> q]
AbsRelTol(q, r)      == [abs |-> q, rel |-> r]
RelTol(q)            == [rel |-> q]
=============================================================================
