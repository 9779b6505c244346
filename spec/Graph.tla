------------------------------- MODULE Graph -------------------------------
(***************************************************************************)
(* The graph of a structure: nodes with a position and data, elements      *)
(* between two nodes with data and properties, in an order.  A client adds *)
(* nodes and elements, divides elements, sorts nodes, changes data, and    *)
(* asks for the connectivity at any time: the answers always agree with    *)
(* the graph as it is.                                                     *)
(***************************************************************************)
EXTENDS Base
CONSTANTS Starts, Ops, Divs, K
VARIABLES nodes, elems, n, hist
vars == <<nodes, elems, n, hist>>
\* node: id, position, numbers stored at it, other things stored at it, keys it must not have
Node(id, p, num, oth) == [id |-> id, p |-> p, num |-> num, oth |-> oth, absent |-> <<>>]
Elem(id, a, b, dat, ps, pids, props) == [id |-> id, a |-> a, b |-> b, dat |-> dat, ps |-> ps, pids |-> pids, props |-> props]
NodeOf(ns, id) == ns[CHOOSE i \in 1..Len(ns) : ns[i].id = id]
Pos(ns, id) == CHOOSE i \in 1..Len(ns) : ns[i].id = id
MaxId(s) == MaxOf({s[i].id : i \in 1..Len(s)})
Lerp(a, b, s, k) == QNorm(QAdd(QNorm(QMul(a, Q(k - s, k))), QNorm(QMul(b, Q(s, k)))))
LookUp(pairs, key) == pairs[CHOOSE i \in 1..Len(pairs) : pairs[i][1] = key][2]
Keys(pairs) == {pairs[i][1] : i \in 1..Len(pairs)}
\* --- division of one element in k parts: <<nodes, element, new elements>>
InsNode(n1, n2, id, s, k, drop) ==
   [id |-> id, p |-> [c \in 1..3 |-> Lerp(n1.p[c], n2.p[c], s, k)],
    num |-> LET both == SelectSeq(n1.num, LAMBDA x : x[1] \in Keys(n2.num) /\ x[1] \notin drop) IN [i \in 1..Len(both) |-> <<both[i][1], Lerp(both[i][2], LookUp(n2.num, both[i][1]), s, k)>>],
    oth |-> <<>>, absent |-> SelectSeq(<<"IBC", "RBC", "addedMassMatrix", "note">>, LAMBDA x : x \in drop)]
DivOne(ns, e, k, maxE, drop) ==
   LET mx == MaxId(ns)  n1 == NodeOf(ns, e.a)  n2 == NodeOf(ns, e.b)
       new == [s \in 1..(k - 1) |-> InsNode(n1, n2, mx + s, s, k, drop)]
       end(s) == IF s = 0 THEN e.a ELSE IF s = k THEN e.b ELSE mx + s
   IN [ns |-> ns \o new, e |-> [e EXCEPT !.b = end(1)], new |-> [s \in 1..(k - 1) |-> [e EXCEPT !.id = maxE + s, !.a = end(s), !.b = end(s + 1)]]]
RECURSIVE DivAll(_, _, _, _, _, _, _, _)
\* i: next element; old, new: the elements so far; ins: each element followed by its parts
DivAll(ns, es, i, k, maxE, drop, excl, acc) ==
   IF i > Len(es) THEN [ns |-> ns, old |-> acc.old, new |-> acc.new, ins |-> acc.ins]
   ELSE IF \E j \in 1..Len(es[i].dat) : es[i].dat[j][1] = "Type" /\ es[i].dat[j][2] \in excl
        THEN DivAll(ns, es, i + 1, k, maxE, drop, excl, [old |-> Append(acc.old, es[i]), new |-> acc.new, ins |-> Append(acc.ins, es[i])])
        ELSE LET r == DivOne(ns, es[i], k, maxE, drop) IN
             DivAll(r.ns, es, i + 1, k, maxE + k - 1, drop, excl, [old |-> Append(acc.old, r.e), new |-> acc.new \o r.new, ins |-> acc.ins \o <<r.e>> \o r.new])
\* --- what must be seen of a graph
Conn(ns, es) == [i \in 1..Len(es) |-> <<Pos(ns, es[i].a) - 1, Pos(ns, es[i].b) - 1>>]
Around(ns, es) == [i \in 1..Len(ns) |-> <<ns[i].id, LET t == SelectSeq(es, LAMBDA e : ns[i].id \in {e.a, e.b}) IN [j \in 1..Len(t) |-> t[j].id]>>]
QMin(S0) == CHOOSE x \in S0 : \A y \in S0 : QLe(x, y)
QMax(S0) == CHOOSE x \in S0 : \A y \in S0 : QLe(y, x)
Ext(ns) == LET lo == [c \in 1..3 |-> QMin({ns[i].p[c] : i \in 1..Len(ns)})]  hi == [c \in 1..3 |-> QMax({ns[i].p[c] : i \in 1..Len(ns)})] IN
           <<lo, hi, [c \in 1..3 |-> QNorm(QSub(hi[c], lo[c]))]>>
LenSq(ns, e) == LET a == NodeOf(ns, e.a).p  b == NodeOf(ns, e.b).p  d(c) == QNorm(QSub(b[c], a[c]))  sq(c) == QNorm(QMul(d(c), d(c))) IN QNorm(QAdd(QNorm(QAdd(sq(1), sq(2))), sq(3)))
SeeG(ns, es, o) == <<[op |-> "graph", o |-> o, nodes |-> ns, elems |-> es, conn |-> Conn(ns, es), around |-> Around(ns, es), ext |-> IF ns = <<>> THEN <<>> ELSE Ext(ns),
                      lensq |-> [i \in 1..Len(es) |-> LenSq(ns, es[i])]]>>
\* a part of the questions only: what was asked before must not matter
Ask(w, o) == <<[op |-> "graphask", o |-> o, what |-> w]>>
Asks == {"none", "connectivity", "nodeIDs2ElementIDs", "nodeIDs2Elements", "elementIDs2NodeIDs"}
Call(o, m, args, kw) == [op |-> "call", o |-> o, at |-> <<>>, m |-> m, args |-> args, kw |-> kw]
\* --- starting points
Beam(i) == <<<<"E", Q(210 + i, 1)>>, <<"D", Q(3 * i, 2)>>, <<"t", Q(i, 20)>>>>
NProp(o, id) == [op |-> "new", o |-> o, cls |-> "NodeProperty", kw |-> <<<<"ID", id>>>> \o Beam(id)]
PropOps == <<[op |-> "call", o |-> "G", at |-> <<>>, m |-> "addNodePropertySet", args |-> <<"Beam">>], NProp("P1", 1), NProp("P2", 2),
             Call("G", "addNodeProperty", <<"Beam", [ref |-> "P1"]>>, <<>>), Call("G", "addNodeProperty", <<"Beam", [ref |-> "P2"]>>, <<>>)>>
MkNode(nd) == <<[op |-> "new", o |-> "N" \o Str(nd.id), cls |-> "Node", kw |-> <<<<"ID", nd.id>>, <<"x", nd.p[1]>>, <<"y", nd.p[2]>>, <<"z", nd.p[3]>>>> \o nd.num \o nd.oth], Call("G", "addNode", <<[ref |-> "N" \o Str(nd.id)]>>, <<>>)>>
MkElem(e) == <<[op |-> "new", o |-> "E" \o Str(e.id), cls |-> "Element", kw |-> <<<<"ID", e.id>>, <<"nodeIDs", <<e.a, e.b>>>>>> \o e.dat \o (IF e.pids = <<>> THEN <<>> ELSE <<<<"propset", e.ps>>, <<"propIDs", e.pids>>>>)], Call("G", "addElement", <<[ref |-> "E" \o Str(e.id)]>>, <<>>)>>
NN == << Node(5, <<Q(0, 1), Q(0, 1), Q(-10, 1)>>, <<<<"m", Q(4, 1)>>, <<"k", Q(1, 2)>>>>, <<<<"note", "base">>>>),
         Node(2, <<Q(1, 1), Q(6, 1), Q(0, 1)>>, <<<<"m", Q(-2, 1)>>>>, <<>>),
         Node(9, <<Q(4, 1), Q(-3, 2), Q(7, 1)>>, <<<<"m", Q(8, 1)>>, <<"k", Q(7, 2)>>>>, <<>>),
         Node(1, <<Q(-8, 1), Q(2, 1), Q(3, 1)>>, <<>>, <<<<"note", "tip">>>>) >>
EE == << Elem(3, 5, 2, <<<<"Type", "Beam">>>>, "Beam", <<1, 1>>, <<Beam(1), Beam(1)>>), Elem(7, 2, 9, <<<<"Type", "Cable">>>>, "Beam", <<2, 2>>, <<Beam(2), Beam(2)>>),
         Elem(1, 9, 5, <<<<"Type", "Beam">>>>, "", <<>>, <<>>), Elem(8, 1, 9, <<<<"Type", "Rigid">>, <<"w", Q(5, 4)>>>>, "", <<>>, <<>>) >>
\* a start: how many of the nodes and elements are there already
Init == /\ \E s \in Starts : nodes = SubSeq(NN, 1, s \div 10) /\ elems = SubSeq(EE, 1, s % 10)
        /\ n = 0
        /\ hist = <<[op |-> "new", o |-> "G", cls |-> "GraphModel"]>> \o PropOps \o Flatten([i \in 1..Len(nodes) |-> MkNode(nodes[i])]) \o Flatten([i \in 1..Len(elems) |-> MkElem(elems[i])])
Tick == n < K /\ n' = n + 1
AddNode == /\ "add" \in Ops /\ Tick /\ UNCHANGED elems
           /\ \E i \in 1..Len(NN), w \in Asks : /\ NN[i].id \notin {nodes[j].id : j \in 1..Len(nodes)}
                 /\ nodes' = Append(nodes, NN[i]) /\ hist' = hist \o Ask(w, "G") \o MkNode(NN[i])
AddElem == /\ "add" \in Ops /\ Tick /\ UNCHANGED nodes
           /\ \E i \in 1..Len(EE), w \in Asks : /\ EE[i].id \notin {elems[j].id : j \in 1..Len(elems)} /\ {EE[i].a, EE[i].b} \subseteq {nodes[j].id : j \in 1..Len(nodes)}
                 /\ elems' = Append(elems, EE[i]) /\ hist' = hist \o Ask(w, "G") \o MkElem(EE[i])
\* an element needs its nodes
AddBad == /\ "bad" \in Ops /\ Tick /\ UNCHANGED <<nodes, elems>>
          /\ \E i \in 1..Len(EE) : /\ ~({EE[i].a, EE[i].b} \subseteq {nodes[j].id : j \in 1..Len(nodes)})
                /\ hist' = hist \o <<MkElem(EE[i])[1], MkElem(EE[i])[2] @@ [err |-> "KeyError"]>>
Divide == /\ "divide" \in Ops /\ Tick /\ elems # <<>>
          /\ \E k \in Divs, meth \in {"append", "insert"}, excl \in {{}, {"Cable"}, {"Cable", "Rigid"}}, drop \in {{}, {"note", "k"}}, w \in {"none", "connectivity", "nodeIDs2Elements"} :
             LET r == DivAll(nodes, elems, 1, k, MaxId(elems), drop, excl, [old |-> <<>>, new |-> <<>>, ins |-> <<>>])
                 kw == <<<<"method", meth>>>> \o (IF excl = {} THEN <<>> ELSE <<<<"excludeDataKey", "Type">>, <<"excludeDataList", IF excl = {"Cable"} THEN <<"Cable">> ELSE <<"Cable", "Rigid">>>>>>) \o (IF drop = {} THEN <<>> ELSE <<<<"keysNotToCopy", <<"note", "k">>>>>>)
             IN /\ Len(elems) * k <= 24
                /\ nodes' = r.ns /\ elems' = (IF meth = "append" THEN r.old \o r.new ELSE r.ins)
                /\ hist' = hist \o Ask(w, "G") \o <<Call("G", "divideElements", <<k>>, kw)>>
SortKey(nd, key) == CASE key = "x" -> nd.p[1] [] key = "y" -> nd.p[2] [] key = "z" -> nd.p[3] [] key = "ID" -> Q(nd.id, 1) [] OTHER -> LookUp(nd.num, key)
RECURSIVE Sorted(_, _)
Sorted(ns, key) == IF ns = <<>> THEN <<>> ELSE LET i == CHOOSE i \in 1..Len(ns) : \A j \in 1..Len(ns) : QLe(SortKey(ns[i], key), SortKey(ns[j], key)) IN <<ns[i]>> \o Sorted(SubSeq(ns, 1, i - 1) \o SubSeq(ns, i + 1, Len(ns)), key)
Sort == /\ "sort" \in Ops /\ Tick /\ nodes # <<>> /\ UNCHANGED elems
        /\ \E key \in {"x", "y", "z", "ID", "m"}, w \in Asks :
           /\ key = "m" => \A i \in 1..Len(nodes) : "m" \in Keys(nodes[i].num)
           /\ \A i, j \in 1..Len(nodes) : i # j => ~QEq(SortKey(nodes[i], key), SortKey(nodes[j], key))      \* ties: any order
           /\ nodes' = Sorted(nodes, key) /\ hist' = hist \o Ask(w, "G") \o <<Call("G", "sortNodesBy", <<key>>, <<>>)>>
SetData == /\ "data" \in Ops /\ Tick /\ nodes # <<>> /\ UNCHANGED elems
           /\ \E i \in {1, Len(nodes)} :
              /\ nodes' = [nodes EXCEPT ![i].num = SelectSeq(@, LAMBDA x : x[1] # "m") \o <<<<"m", Q(17 + n, 4)>>>>]
              /\ hist' = hist \o <<Call("G", "setNodalData", <<nodes[i].id>>, <<<<"m", Q(17 + n, 4)>>>>)>>
\* the client rewires an element and says so
Rewire == /\ "rewire" \in Ops /\ Tick /\ Len(elems) > 0 /\ Len(nodes) > 2 /\ UNCHANGED nodes
          /\ \E w \in Asks : LET e == elems[1]  c == CHOOSE i \in 1..Len(nodes) : nodes[i].id \notin {e.a, e.b} IN
             /\ elems' = [elems EXCEPT ![1].b = nodes[c].id]
             /\ hist' = hist \o Ask(w, "G") \o <<Set("G", <<Attr("Elements"), 0, Attr("nodeIDs")>>, <<e.a, nodes[c].id>>), Call("G", "updateConnectivity", <<>>, <<>>)>>
Next == AddNode \/ AddElem \/ AddBad \/ Divide \/ Sort \/ SetData \/ Rewire
Emit == n = K => PrintT(ToJson([ops |-> hist \o SeeG(nodes, elems, "G") \o SeeG(nodes, elems, "G")]))
\* --- what the specification itself must satisfy
UniqueIds == (\A i, j \in 1..Len(nodes) : i # j => nodes[i].id # nodes[j].id) /\ (\A i, j \in 1..Len(elems) : i # j => elems[i].id # elems[j].id)
Closed == \A i \in 1..Len(elems) : {elems[i].a, elems[i].b} \subseteq {nodes[j].id : j \in 1..Len(nodes)}
\* nodes and elements never disappear; the ends of an element stay where they are
Kept == [][Rng([i \in 1..Len(nodes) |-> nodes[i].id]) \subseteq Rng([i \in 1..Len(nodes') |-> nodes'[i].id]) /\ Rng([i \in 1..Len(elems) |-> elems[i].id]) \subseteq Rng([i \in 1..Len(elems') |-> elems'[i].id])]_vars
=============================================================================
