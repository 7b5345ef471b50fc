----------------------------- MODULE LarchWidget -----------------------------
(***************************************************************************)
(* The GTK widget on a view: dragging rows, the selection, the order of    *)
(* sorted siblings, expanded and collapsed rows.  Rows are paths of ids.   *)
(*                                                                         *)
(* W: widget (by the key of its view) ->                                   *)
(*    [col, desc  sort column ("" unsorted) and direction                  *)
(*     sel        selected rows                                            *)
(*     open       expanded rows                                            *)
(*     fold       node -> "closed" | "open": the last request about it]    *)
(* G: view with a GTK model -> [fun, val]: the function of its last column *)
(*    and the values of this column (row -> value)                         *)
(***************************************************************************)
EXTENDS LarchViews

LastOf(p) == p[Len(p)]
Prefixes(p) == {SubSeq(p, 1, k) : k \in 1..(Len(p) - 1)}
IsPrefix(q, p) == Len(q) <= Len(p) /\ SubSeq(p, 1, Len(q)) = q

-----------------------------------------------------------------------------
(* The last column of a model shows one of these functions of the node; it *)
(* can be replaced, which concerns a row when it is announced next         *)
(* the columns do not show the tag "heavy" *)
Visible(T, n) == T.col[n] \ {"heavy"}
ColFun(T, fun, n) ==
    CASE fun = "first" -> IF "blue" \in T.col[n] THEN "blue" ELSE IF "red" \in T.col[n] THEN "red" ELSE "~null"
      [] fun = "last" -> IF "red" \in T.col[n] THEN "red" ELSE IF "blue" \in T.col[n] THEN "blue" ELSE "~null"
      [] OTHER -> IF Visible(T, n) = {} THEN "black" ELSE "~null"
ModelsAfter(G, o) ==
    IF o.op = "gtk" THEN (o.v :> [fun |-> "first", val |-> [x \in {} |-> ""]]) @@ G
    ELSE IF o.op = "colfun" THEN [G EXCEPT ![o.v].fun = o.a]
    ELSE G
ColumnFaults(old, new, ov, told, T) ==
    IF \E k \in DOMAIN ov.rows :
          LET r == ov.rows[k]
              n == LastOf(r.path)
          IN  n \in T.nodes /\
              \/ r.num # Cardinality(Visible(T, n))
              \/ r.path \in told /\ r.bg # ColFun(T, new.fun, n)
              \/ r.path \notin told /\ r.path \in DOMAIN old.val /\ r.bg # old.val[r.path]
    THEN {"gtk.column"} ELSE {}

-----------------------------------------------------------------------------
(* Dropping the rows d.drag at the position d.pos of the row d.dst:        *)
(* onto a row: they become children of its node; before or after it:       *)
(* children of the node it is displayed under; elsewhere: top level.       *)
(* The nodes are moved one after the other; a circular move is refused     *)
(* without any consequence for the others.                                 *)
DropTarget(d) ==
    IF d.pos = "out" \/ d.dst = <<>> THEN NONE
    ELSE IF d.pos = "into" THEN LastOf(d.dst)
    ELSE IF Len(d.dst) > 1 THEN d.dst[Len(d.dst) - 1] ELSE NONE
Dragged(d) == [k \in DOMAIN d.drag |-> LastOf(d.drag[k])]

RECURSIVE MoveAll(_, _, _, _)
MoveAll(T, ns, p, must) ==
    IF ns = <<>> THEN Result(T, "ok", must)
    ELSE LET c == IF Head(ns) \in T.nodes THEN CallSetParent(T, Head(ns), p)
                  ELSE Called(T, <<>>, "-")
             r == RunReqs(c.t, c.reqs, {})
         IN  MoveAll(r.t, Tail(ns), p, must \cup r.must)

(* within the widget nodes are moved; from another widget the function of  *)
(* the application is called for every node (d.move: the one used by the   *)
(* harness moves it to the top level; d.fn: which of the functions         *)
(* registered for kinds of rows, "none" for an unknown kind)               *)
DropResult(T, d) ==
    IF ~d.ext THEN MoveAll(T, Dragged(d), DropTarget(d), {})
    ELSE IF DropTarget(d) = NONE \/ ~d.move THEN Result(T, "ok", {})
    ELSE MoveAll(T, Dragged(d), NONE, {})
DropCalls(d) ==
    IF ~d.ext \/ DropTarget(d) = NONE \/ d.fn = "none" THEN <<>>
    ELSE [k \in DOMAIN d.drag |-> <<LastOf(d.drag[k]) \o d.fn, DropTarget(d)>>]
(* rows of another widget never pass for rows of this one *)
DropScope(d) == IF d.ext THEN "app" ELSE "widget"

-----------------------------------------------------------------------------
(* Sorting: by the number of tags (column num, the default order of GTK)   *)
(* or by the function of the application (column key: nodes without tags   *)
(* first in both directions)                                               *)
Weight(T, n) == (IF "red" \in T.col[n] THEN 2 ELSE 0) + (IF "blue" \in T.col[n] THEN 1 ELSE 0)
                + (IF "heavy" \in T.col[n] THEN 4 ELSE 0)
InOrder(T, col, desc, a, b) ==
    IF col = "num"
    THEN IF desc THEN Cardinality(Visible(T, a)) >= Cardinality(Visible(T, b))
         ELSE Cardinality(Visible(T, a)) <= Cardinality(Visible(T, b))
    ELSE IF desc THEN Weight(T, a) = 0 \/ (Weight(T, b) # 0 /\ Weight(T, a) >= Weight(T, b))
         ELSE Weight(T, a) <= Weight(T, b)
Sorted(T, col, desc, kids) ==
    \A k \in 1..(Len(kids) - 1) : InOrder(T, col, desc, kids[k], kids[k + 1])

-----------------------------------------------------------------------------
NewWidget == [col |-> "", desc |-> FALSE, sel |-> {}, open |-> {}, fold |-> [x \in {} |-> ""]]
WidgetsAfter(W, o) ==
    IF o.op = "gtk" /\ o.a = "widget" THEN W @@ (o.v :> NewWidget)
    \* a click on the header which the rows are sorted by reverses them
    ELSE IF o.op = "wsort" THEN [W EXCEPT ![o.v].col = o.a,
                                          ![o.v].desc = IF o.e = "click" THEN W[o.v].col = o.a /\ ~W[o.v].desc
                                                        ELSE o.rec]
    ELSE IF o.op \in {"fold", "unfold"}
    THEN [W EXCEPT ![o.v].fold = (o.n :> IF o.op = "fold" THEN "closed" ELSE "open") @@ @]
    ELSE W

(* A row is visible if the rows above it are expanded.  Rows with children *)
(* are expanded unless the node was collapsed more recently than expanded. *)
(* (Nothing is said about rows below nodes which had been collapsed.)      *)
FoldOk(w, rows, open, p) ==
    LET n == LastOf(p) IN
    \/ \A r \in rows : ~(Len(r) > Len(p) /\ IsPrefix(p, r))         \* no children
    \/ \E q \in Prefixes(p) : LastOf(q) \in DOMAIN w.fold \/ q \notin open
    \/ (p \in open) = (n \notin DOMAIN w.fold \/ w.fold[n] = "open")

(* A selection stays as long as no row disappears: when the row with the   *)
(* cursor does, GTK selects another one.                                   *)
WidgetFaults(v, old, w, ov, l, T, gone) ==
    LET o == l.o
        rows == {ov.rows[k].path : k \in DOMAIN ov.rows}
        open == Rng(ov.open)
        sel == Rng(ov.sel)
        vis == {r \in rows : Prefixes(r) \subseteq open}
        Kids(p) == LET s == SelectSeq(ov.rows, LAMBDA r : Len(r.path) = Len(p) + 1 /\ IsPrefix(p, r.path))
                   IN  [k \in DOMAIN s |-> LastOf(s[k].path)]
        before == IF o.op = "drop" /\ (IF o.f = NONE THEN o.v ELSE o.f) = v THEN Rng(l.w.drag) ELSE old.sel
        mine == {<<l.w.folds[k].e, l.w.folds[k].path>> : k \in {j \in DOMAIN l.w.folds : l.w.folds[j].v = v}}
    IN  (IF w.col # "" /\ \E p \in rows \cup {<<>>} : ~Sorted(T, w.col, w.desc, Kids(p))
         THEN {"wid.sort"} ELSE {}) \cup
        (IF ov.selids # [k \in DOMAIN ov.sel |-> LastOf(ov.sel[k])] THEN {"wid.selected"} ELSE {}) \cup
        (IF o.op = "wsel" /\ o.v = v
         THEN IF sel # Rng(o.rows) \cap vis THEN {"wid.selected"} ELSE {}
         ELSE IF gone = {} /\ o.op \notin {"fold", "unfold"} /\ sel # before \cap vis
         THEN {"wid.unselected"} ELSE {}) \cup
        (IF \E p \in rows : ~FoldOk(w, rows, open, p) THEN {"wid.fold"} ELSE {}) \cup
        (IF o.op \in {"fold", "unfold"} /\ o.v = v /\
            mine # {<<"collapsed", r>> : r \in {x \in old.open \ open : LastOf(x) = o.n}} \cup
                   {<<"expanded", r>> : r \in {x \in open \ old.open : LastOf(x) = o.n}}
         THEN {"wid.signal"} ELSE {})
=============================================================================
