------------------------------ MODULE ColumnsMC ------------------------------
(***************************************************************************)
(* Exhaustive exploration of descriptions of columns and of requests to    *)
(* the widget which shows them.                                            *)
(***************************************************************************)
EXTENDS Columns, Json

CONSTANTS Number,    \* of columns
          Orders, Looks, Own, MaxOps, Emit
VARIABLES S, desc, hist
vars == <<S, desc, hist>>

Funs == <<"dat", "cold", "flag">>
Mine == {Names[k] : k \in 1..Number}
Col(c, o, w, v, s, f) ==
    [name |-> c, order |-> IF o = 99 THEN 0 - 1 ELSE o, new |-> w, visible |-> v, resizable |-> v, expand |-> ~w,
     title |-> IF v THEN c ELSE "", fun |-> Funs[NameNo(c)],
     rend |-> IF Funs[NameNo(c)] = "flag" THEN "toggle" ELSE "markup", sort |-> s, sfun |-> f]
Cols(c) == {Col(c, o, w, v, s, f) : o \in Orders, w \in BOOLEAN, v \in Looks,
              s \in IF Own THEN {"", c} ELSE {""} \cup Mine, f \in IF Own THEN {FALSE} ELSE BOOLEAN}
Perms == {p \in [1..Number -> Mine] : \A a, b \in 1..Number : p[a] = p[b] => a = b}

Rows == <<"n1", "n2", "n3">>
Data == <<1, 0, 3>>
Init == /\ \E p \in Perms : \E q \in [1..Number -> UNION {Cols(c) : c \in Mine}] :
              /\ \A k \in 1..Number : q[k].name = p[k]
              /\ desc = q
        /\ S = Start(desc, Rows, [n \in Rng(Rows) |-> Data[CHOOSE k \in DOMAIN Rows : Rows[k] = n]])
        /\ hist = <<>>

Ops == [op : {"visible", "resizable", "sort"}, c : Mine \cup {"cz"}, b : BOOLEAN]
       \cup [op : {"expander", "search"}, c : Mine]
       \cup {[op |-> "click", k |-> k] : k \in {j \in DOMAIN S.cols : S.cols[j].visible}}
       \cup [op : {"bg"}, c : {x \in Mine : S.fun[x] \in ColorFuns}, fun : {"warm", "mild"}]
       \cup [op : {"sep"}, fun : {"odd", ""}]
       \cup [op : {"multi"}, b : BOOLEAN]
       \cup [op : {"select"}, ids : {<<"n1", "n3">>, <<"n2">>}]
       \cup {[op |-> "set", n |-> "n2", d |-> 2], [op |-> "new", n |-> "n4", d |-> 2], [op |-> "del", n |-> "n1"]}

Once(o) == o.op \in {"new", "del"} => ~\E k \in DOMAIN hist : hist[k].op = o.op
Next == /\ Len(hist) < MaxOps
        /\ \E o \in Ops :
             /\ Once(o)
             /\ (o.op = "select" /\ \E k \in DOMAIN hist : hist[k].op = "del") => o.ids = <<"n2">>
             /\ S' = Apply(S, o)
             /\ hist' = Append(hist, o)
             /\ desc' = desc
             /\ (IF Emit THEN PrintT("EDGE|" \o ToJson([desc |-> desc, rows |-> Rows, data |-> Data, ops |-> hist'])) ELSE TRUE)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Places == {<<k, j>> : k \in DOMAIN S.cols, j \in 1..9}
Cells == [p \in {q \in Places : q[2] \in DOMAIN S.cols[q[1]].cells} |-> S.cols[p[1]].cells[p[2]]]
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
DescOf(c) == Desc(S, c)
(* every described column is shown exactly once *)
InvOnce == /\ {Cells[p] : p \in DOMAIN Cells} = Mine
           /\ \A p, q \in DOMAIN Cells : Cells[p] = Cells[q] => p = q
(* in the demanded order; columns without an order are after the others *)
InvOrder == \A p, q \in DOMAIN Cells : LET a == DescOf(Cells[p]).order
                                          b == DescOf(Cells[q]).order
                                      IN  a >= 0 /\ (b < 0 \/ a < b) => Before(p, q)
(* a new column does not continue another one *)
InvNew == \A p \in DOMAIN Cells : DescOf(Cells[p]).new <=> (p[2] = 1 /\ (p[1] > 1 \/ DescOf(Cells[p]).new))
InvSel == S.sel = {"?"} \/ S.multi \/ Cardinality(S.sel) <= 1
(* there is an order of the rows which is right *)
InvRows == \E p \in {q \in [1..Len(S.rows) -> Rng(S.rows)] : \A a, b \in DOMAIN q : q[a] = q[b] => a = b} : RowsOk(S, p)
(* a request about a column concerns nothing but what it is about *)
StepLocal == [][LET o == hist'[Len(hist')] IN
                /\ o.op \notin {"visible", "resizable"} => S'.cols = S.cols
                /\ o.op \notin {"sort", "click"} => S'.sort = S.sort
                /\ o.op \notin {"set", "new"} => \A n \in Rng(S'.rows) : S'.d[n] = S.d[n]
                /\ o.op \in {"visible", "resizable"} => \A k \in DOMAIN S.cols :
                       S'.cols[k] # S.cols[k] => o.c \in Rng(S.cols[k].cells)]_vars
=============================================================================
