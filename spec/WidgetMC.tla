------------------------------ MODULE WidgetMC ------------------------------
(***************************************************************************)
(* Exhaustive exploration of drags in the GTK widget: in every tree which  *)
(* relations can build, every one, two (or MaxDrag) rows are dropped at    *)
(* every place.  The tree does not change after a drop: the drops are the  *)
(* leaves of the explored graph.                                           *)
(***************************************************************************)
EXTENDS LarchWidget, Json

CONSTANTS Ids, MaxDrag, Emit
VARIABLES T, hist
vars == <<T, hist>>

IdSeq == CHOOSE q \in [1..Cardinality(Ids) -> Ids] : {q[k] : k \in DOMAIN q} = Ids
Start == [Empty(Ids) EXCEPT !.nodes = Ids, !.root = IdSeq, !.obj = [x \in Ids |-> "in"]]
StartHist == [k \in 1..(2 * Len(IdSeq)) |->
                IF k % 2 = 1 THEN [op |-> "new", n |-> IdSeq[(k + 1) \div 2]]
                ELSE [op |-> "add", n |-> IdSeq[k \div 2]]]
Init == T = Start /\ hist = StartHist

TreeOp(k, n, p) ==
    LET c == IF k = "addpar" THEN CallAddParent(T, n, p) ELSE CallSetParent(T, n, p)
        r == RunReqs(c.t, c.reqs, {})
    IN  /\ r.out = "ok" /\ r.t # T
        /\ T' = r.t
        /\ hist' = IF Emit THEN Append(hist, [op |-> k, n |-> n, p |-> p]) ELSE hist

Rows == AllPaths(T, T.nodes, FALSE)
Drags == {S \in SUBSET Rows : Cardinality(S) \in 1..MaxDrag}
Places == {<<r, pos>> : r \in Rows, pos \in {"into", "before", "after"}} \cup {<<<<>>, "out">>}
Orders(S) == {q \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN q : q[i] = q[j] => i = j}
Drop(q, w) == [drag |-> q, dst |-> w[1], pos |-> w[2], ext |-> FALSE, move |-> FALSE, fn |-> ""]

DropEdge(S, w) == PrintT("EDGE|" \o ToJson(Append(hist,
    [op |-> "drop", v |-> "v0", a |-> "int", rows |-> CHOOSE q \in Orders(S) : TRUE,
     row |-> w[1], e |-> w[2]])))

Next == \/ \E k \in {"addpar", "move"}, n, p \in Ids : TreeOp(k, n, p)
        \/ /\ Emit /\ UNCHANGED vars
           /\ \A S \in Drags, w \in Places : DropEdge(S, w)
Spec == Init /\ [][Next]_vars
View == T

-----------------------------------------------------------------------------
(* C17, independently of the order in which the nodes are moved *)
InvDrop ==
    \A S \in Drags, w \in Places : \A q \in Orders(S) :
        LET d == Drop(q, w)
            t == DropResult(T, d).t
            x == DropTarget(d)
            ns == {LastOf(r) : r \in S}
        IN  /\ Valid(t)
            /\ t.nodes = T.nodes
            /\ \A n \in T.nodes \ ns : t.par[n] = T.par[n]
            /\ \A n \in ns : \/ t.par[n] = (IF x = NONE THEN <<>> ELSE <<x>>)
                             \/ t.par[n] = T.par[n] /\ x # NONE /\ x \in Down(T, n)
            /\ \A n \in ns : x # NONE /\ n = x => t.par[n] = T.par[n]
(* the target is where the row can be seen to be *)
InvTarget ==
    \A w \in Places : LET x == DropTarget(Drop(<<>>, w)) IN
        IF w[2] = "into" THEN x = LastOf(w[1])
        ELSE IF w[2] = "out" THEN x = NONE
        ELSE IF x = NONE THEN LastOf(w[1]) \in ViewTop(T, T.nodes, FALSE)
        ELSE x \in ViewParents(T, T.nodes, FALSE, LastOf(w[1]))
InvTree == Valid(T)
=============================================================================
