---------------------------- MODULE ColumnsTrace ----------------------------
(***************************************************************************)
(* Judges recorded executions of the real widget against Columns.  The     *)
(* first line of an execution is "open": the widget was built.             *)
(***************************************************************************)
EXTENDS Columns, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, st
vars == <<tr, i, st>>

Same(a, b) == Rng(a) = Rng(b) /\ Len(a) = Len(b)

Faults(S0, S, l) ==
    LET o == l.o
        obs == l.obs
        out == If((l.out = "raise") # Refused(S0, o), IF l.out = "raise" THEN "exc.op" ELSE "col.accepted")
        ids == [k \in DOMAIN obs.rows |-> obs.rows[k].id]
        rowsok == Same(ids, S.rows)
        layout == /\ Len(obs.cols) = Len(S.cols)
                  /\ \A k \in DOMAIN S.cols : \A r \in DOMAIN obs.cols[k].cells :
                        Len(obs.cols[k].cells[r]) = Len(S.cols[k].cells)
        Shown(f(_, _, _, _)) ==      \* f holds of: column, row, cell, observed cell
            \A k \in DOMAIN S.cols : \A r \in DOMAIN ids : \A j \in DOMAIN S.cols[k].cells :
                f(k, r, S.cols[k].cells[j], obs.cols[k].cells[r][j])
        Want(r, c) == Cell(S, c, ids[r])
        seps == {ids[r] : r \in {x \in DOMAIN ids : obs.rows[x].sep}}
    IN  out \cup
        If(Rng(obs.names) # {S.desc[k].name : k \in DOMAIN S.desc} \/ Len(obs.names) # Len(S.desc), "col.names") \cup
        If(~rowsok, "col.rows") \cup
        If(rowsok /\ ~RowsOk(S, ids), "col.sort") \cup
        If(S.told.c \notin {"", "?"} /\ obs.sort # S.told, "col.sortcol") \cup
        (IF ~layout THEN {"col.layout"} ELSE
            If(\E k \in DOMAIN S.cols : obs.cols[k].title # S.cols[k].title, "col.title") \cup
            If(\E k \in DOMAIN S.cols : \/ obs.cols[k].visible # S.cols[k].visible
                                        \/ obs.cols[k].resizable # S.cols[k].resizable
                                        \/ obs.cols[k].expand # S.cols[k].expand, "col.look") \cup
            If(\E k \in DOMAIN S.cols : obs.cols[k].click # (S.cols[k].sorts # {}), "col.click") \cup
            If(S.expander # "" /\ obs.expander # At(S.cols, S.expander), "col.expander") \cup
            (IF ~rowsok THEN {} ELSE
                If(~Shown(LAMBDA k, r, c, x : x.t = Want(r, c).t), "col.value") \cup
                If(~Shown(LAMBDA k, r, c, x : x.bg = Want(r, c).bg /\ x.fg = Want(r, c).fg), "col.color") \cup
                If((\E k \in DOMAIN S.cols : S.cols[k].visible) /\
                   seps # {n \in Rng(ids) : Sep(S.sep, S.d[n])}, "col.separator") \cup
                If(S.search # "" /\ obs.search # [r \in DOMAIN ids |-> Text(S.fun[S.search], ids[r], S.d[ids[r]])], "col.search"))) \cup
        If(obs.multi # S.multi, "col.multi") \cup
        If(S.sel # {"?"} /\ ~(Rng(obs.sel) = S.sel /\ Len(obs.sel) = Cardinality(S.sel)), "col.selected")

Init == /\ tr \in 1..Len(Traces)
        /\ i = 0
        /\ st = <<>>
Next == LET t == Traces[tr]
            ls == t.lines IN
        \/ /\ i >= 0 /\ i < Len(ls)
           /\ LET l == ls[i + 1]
                  S0 == IF i = 0 THEN Start(t.desc, t.rows, [x \in Rng(t.rows) |-> t.data[CHOOSE k \in DOMAIN t.rows : t.rows[k] = x]])
                        ELSE st
                  hang == l.out = "hang"
                  S == IF i = 0 THEN S0 ELSE Apply(S0, l.o)
                  bad == IF hang THEN {"hang"} ELSE IF ~l.has THEN {"exc.op"} ELSE Faults(S0, S, l)
              IN  /\ (IF bad = {} THEN TRUE ELSE PrintT("BAD|" \o ToString(tr) \o "|" \o ToString(i + 1) \o "|" \o ToString(bad)))
                  /\ (IF bad = {} THEN TRUE ELSE PrintT("DONE|" \o ToString(tr) \o "|" \o ToString(i + 1) \o "|stopped"))
                  /\ i' = IF bad = {} THEN i + 1 ELSE 0-1
                  /\ st' = S
                  /\ tr' = tr
        \/ /\ i = Len(ls)
           /\ PrintT("DONE|" \o ToString(tr) \o "|" \o ToString(i) \o "|complete")
           /\ i' = 0-1 /\ UNCHANGED <<tr, st>>
Spec == Init /\ [][Next]_vars
=============================================================================
