------------------------------- MODULE Columns -------------------------------
(***************************************************************************)
(* The columns of the GTK widget: what a description of columns asks for,  *)
(* and what the widget shows afterwards.  (The rows themselves, drags,     *)
(* selections of many rows and folding are in LarchWidget; here the tree   *)
(* is flat and the values matter.)                                         *)
(*                                                                         *)
(* A description is a sequence of columns                                  *)
(*   [name, order (-1: none), new, visible, resizable, expand,             *)
(*    title ("": none), fun (the value), rend (the renderer),              *)
(*    sort ("": none, or the column to sort by), sfun (own comparison)]    *)
(* in the order in which the application wrote them.                       *)
(*                                                                         *)
(* S: [desc, cols  the visual columns, see Visual                          *)
(*     fun    column -> the function of its values                         *)
(*     sort   [c, desc]: the column which orders the rows ("": none,       *)
(*            "?": nothing is known)                                       *)
(*     told   [c, desc]: what get_sort_column has to return                *)
(*     search, expander   columns ("": as GTK likes)                       *)
(*     bg     the column of background colors ("": none)                   *)
(*     sep    the function of separators ("": none)                        *)
(*     multi  more than one row can be selected                            *)
(*     rows   the nodes in the order of the tree, d: their data            *)
(*     sel    the selected nodes]                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

If(b, x) == IF b THEN {x} ELSE {}
Rng(s) == {s[k] : k \in DOMAIN s}
RECURSIVE JoinC(_)
JoinC(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o JoinC(Tail(s))

-----------------------------------------------------------------------------
(* Columns with an order come where it says; the others after them, as     *)
(* they were written.                                                      *)
(* (Two columns with the same order: in the order of their names; TLC      *)
(* cannot compare strings, hence the table.)                               *)
Names == <<"ca", "cb", "cc", "cd", "ce">>
NameNo(x) == CHOOSE k \in DOMAIN Names : Names[k] = x
Key(desc, k) == LET o == IF desc[k].order >= 0 THEN desc[k].order ELSE 9999 + k
                IN  o * 10 + NameNo(desc[k].name)
RECURSIVE Order(_, _)
Order(desc, left) ==
    IF left = {} THEN <<>>
    ELSE LET k == CHOOSE x \in left : \A y \in left : Key(desc, x) <= Key(desc, y)
         IN  <<k>> \o Order(desc, left \ {k})
Ordered(desc) == LET p == Order(desc, DOMAIN desc) IN [k \in DOMAIN p |-> desc[p[k]]]

(* A column which is not "new" continues the one before it.  The first one *)
(* has none before it.  The last column which says something about the     *)
(* common column wins.                                                     *)
Sorts(c) == If(c.sort # "", c.sort) \cup If(c.sfun, c.name)
RECURSIVE Build(_)
Build(cs) ==      \* cs is ordered
    IF cs = <<>> THEN <<>>
    ELSE LET done == Build(SubSeq(cs, 1, Len(cs) - 1))
             c == cs[Len(cs)]
             n == Len(done)
             old == IF c.new \/ n = 0 THEN [cells |-> <<>>, title |-> "", sorts |-> {}]
                    ELSE [cells |-> done[n].cells, title |-> done[n].title, sorts |-> done[n].sorts]
             this == [cells |-> Append(old.cells, c.name),
                      title |-> IF c.title # "" THEN c.title ELSE old.title,
                      visible |-> c.visible, resizable |-> c.resizable, expand |-> c.expand,
                      sorts |-> old.sorts \cup Sorts(c)]
         IN  IF c.new \/ n = 0 THEN Append(done, this) ELSE [done EXCEPT ![n] = this]
Visual(desc) == Build(Ordered(desc))
At(cols, c) == CHOOSE k \in DOMAIN cols : c \in Rng(cols[k].cells)
Has(S, c) == \E k \in DOMAIN S.desc : S.desc[k].name = c
Desc(S, c) == S.desc[CHOOSE k \in DOMAIN S.desc : S.desc[k].name = c]

-----------------------------------------------------------------------------
(* Values, as texts *)
Digit == <<"0", "1", "2", "3">>
Text(fun, n, d) ==
    CASE fun = "id" -> n
      [] fun \in {"dat", "num"} -> Digit[d + 1]
      [] fun = "rev" -> Digit[4 - d]
      [] fun = "flag" -> IF d % 2 = 1 THEN "True" ELSE "False"
      [] fun = "opt" -> IF d = 0 THEN "~null" ELSE Digit[d + 1]
      [] fun = "cold" -> <<"#ff0000", "~null", "#ffffff", "#202020">>[d + 1]
      [] fun = "warm" -> <<"~null", "#ffff00", "#7f7f7f", "#0000ff">>[d + 1]
      [] OTHER -> <<"#818181", "#00ff00", "~null", "#ff8080">>[d + 1]
(* the color as 8-bit red, green, blue *)
Rgb(text) ==
    CASE text = "#ff0000" -> <<255, 0, 0>>
      [] text = "#ffffff" -> <<255, 255, 255>>
      [] text = "#202020" -> <<32, 32, 32>>
      [] text = "#ffff00" -> <<255, 255, 0>>
      [] text = "#7f7f7f" -> <<127, 127, 127>>
      [] text = "#0000ff" -> <<0, 0, 255>>
      [] text = "#818181" -> <<129, 129, 129>>
      [] text = "#00ff00" -> <<0, 255, 0>>
      [] text = "#ff8080" -> <<255, 128, 128>>
      [] OTHER -> <<>>
(* white text on dark colors (relative luminance below one half) *)
Dark(c) == 2126 * c[1] + 7152 * c[2] + 722 * c[3] < 5000 * 255
ColorFuns == {"cold", "warm", "mild"}

Sep(fun, d) == (fun = "odd" /\ d % 2 = 1) \/ (fun = "two" /\ d = 2)

(* the key of a row for the order by a column, -1: nothing is said *)
Rank(S, c, n) ==
    LET d == S.d[n]
        fun == S.fun[c]
    IN  IF Desc(S, c).sfun THEN 3 - d
        ELSE IF c = S.bg \/ fun \in ColorFuns \cup {"opt"} THEN 0 - 1
        ELSE IF fun = "rev" THEN 3 - d
        ELSE IF fun = "flag" THEN d % 2
        ELSE IF fun = "id" THEN CHOOSE k \in 1..9 : n = <<"n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9">>[k]
        ELSE d
RowsOk(S, shown) ==
    \/ S.sort.c = "?"
    \/ S.sort.c = "" /\ shown = S.rows
    \/ /\ S.sort.c \notin {"", "?"}
       /\ \A k \in 1..(Len(shown) - 1) :
            LET a == Rank(S, S.sort.c, shown[k])
                b == Rank(S, S.sort.c, shown[k + 1])
            IN  a < 0 \/ b < 0 \/ IF S.sort.desc THEN a >= b ELSE a <= b

-----------------------------------------------------------------------------
Start(desc, rows, d) ==
    [desc |-> desc, cols |-> Visual(desc),
     fun |-> [x \in {desc[k].name : k \in DOMAIN desc} |-> desc[CHOOSE k \in DOMAIN desc : desc[k].name = x].fun],
     sort |-> [c |-> "", desc |-> FALSE], told |-> [c |-> "", desc |-> FALSE],
     search |-> "", expander |-> "", bg |-> "", sep |-> "", multi |-> FALSE,
     rows |-> rows, d |-> d, sel |-> {"?"}]

(* requests about columns which do not exist are refused *)
Refused(S, o) == o.op \in {"visible", "resizable", "expander", "search", "sort", "bg"} /\ ~Has(S, o.c)
Clicked(S, k) ==
    LET cand == S.cols[k].sorts IN
    IF cand = {} THEN S.sort
    ELSE IF Cardinality(cand) > 1 THEN [c |-> "?", desc |-> FALSE]
    ELSE LET c == CHOOSE x \in cand : TRUE
         IN  [c |-> c, desc |-> S.sort.c = c /\ ~S.sort.desc]
Apply(S, o) ==
    IF Refused(S, o) THEN S
    ELSE CASE o.op = "visible" -> [S EXCEPT !.cols[At(S.cols, o.c)].visible = o.b]
           [] o.op = "resizable" -> [S EXCEPT !.cols[At(S.cols, o.c)].resizable = o.b]
           [] o.op = "expander" -> [S EXCEPT !.expander = o.c]
           [] o.op = "search" -> [S EXCEPT !.search = o.c]
           [] o.op = "sort" -> LET s == [c |-> o.c, desc |-> o.b] IN [S EXCEPT !.sort = s, !.told = s]
           [] o.op = "click" -> LET s == Clicked(S, o.k) IN
                                [S EXCEPT !.sort = s, !.told = IF s = S.sort /\ s.c # "?" THEN @ ELSE s]
           [] o.op = "bg" -> [S EXCEPT !.bg = o.c, !.fun[o.c] = o.fun]
           [] o.op = "sep" -> [S EXCEPT !.sep = o.fun, !.sel = {"?"}]
           [] o.op = "multi" -> [S EXCEPT !.multi = o.b, !.sel = {"?"}]
           [] o.op = "select" -> [S EXCEPT !.sel = IF o.ids = <<>> \/ S.sep # "" THEN {"?"} ELSE IF S.multi THEN Rng(o.ids) ELSE {o.ids[Len(o.ids)]}]
           [] o.op = "new" -> [S EXCEPT !.rows = Append(@, o.n), !.d = (o.n :> o.d) @@ @]
           [] o.op = "del" -> [S EXCEPT !.rows = SelectSeq(@, LAMBDA x : x # o.n), !.sel = {"?"}]
           [] o.op = "set" -> [S EXCEPT !.d[o.n] = o.d]
           [] OTHER -> S

-----------------------------------------------------------------------------
(* What is shown in a cell: [t, bg, fg].  The foreground of text only.     *)
Cell(S, c, n) ==
    LET d == S.d[n]
        text == Text(S.fun[c], n, d)
        bg == IF S.bg = "" THEN <<>> ELSE Rgb(Text(S.fun[S.bg], n, d))
    IN  [t |-> IF Desc(S, c).rend = "toggle" THEN text ELSE IF text = "~null" THEN "" ELSE text,
         bg |-> bg,
         fg |-> IF Desc(S, c).rend # "toggle" /\ bg # <<>> /\ Dark(bg) THEN <<255, 255, 255>> ELSE <<>>]
=============================================================================
