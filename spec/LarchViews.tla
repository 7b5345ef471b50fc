----------------------------- MODULE LarchViews -----------------------------
(***************************************************************************)
(* The state of views and counters: which filters are applied, whether     *)
(* what they display is up to date, names, parameters of filters, and the  *)
(* actions queued for nodes.  Used by the judge of executions (LarchTrace) *)
(* and explored exhaustively by ViewsMC.                                   *)
(*                                                                         *)
(* s.V: view -> [appl, sync, conn, mir, D, quiet]                          *)
(*   appl  names of the applied filters, in order                          *)
(*   sync  the contents are up to date (no postponed refresh)              *)
(*   conn, mir, D, quiet  see LarchTrace                                   *)
(* s.C: counter -> [appl, sync, n, on, born, init, wide]                   *)
(*   init  all nodes have been evaluated; wide  a filter was changed or     *)
(*   replaced since: nodes which are not counted may have to be            *)
(* s.F: filter -> its definition;  s.bank: filters in the bank             *)
(* s.names, s.cnames: name -> view or counter                              *)
(***************************************************************************)
EXTENDS Larch

FilterOps == {"apply", "unapply", "reset"}

-----------------------------------------------------------------------------
(* Views of the specification after an operation (before notifications)    *)
NewView(o) == [appl |-> <<>>, sync |-> o.refresh, conn |-> o.rec, mir |-> <<>>,
               D |-> {}, quiet |-> FALSE]
FilterOp(w, o) ==
    CASE o.op = "apply" ->
           LET base == IF o.reset THEN <<>> ELSE w.appl
               change == ~Has(base, o.f) \/ o.par.set
           IN  [w EXCEPT !.appl = AddTo(base, o.f),
                         !.sync = IF change THEN o.refresh ELSE @]
      [] o.op = "unapply" ->
           IF Has(w.appl, o.f)
           THEN [w EXCEPT !.appl = Without(@, o.f), !.sync = o.refresh] ELSE w
      [] o.op = "reset" -> [w EXCEPT !.appl = <<>>, !.sync = o.refresh]

(* a filter is put into the bank, or taken out of it *)
Replaces(s, o) == (o.op = "addfilt") = (o.f \notin s.bank)
Simple(kind) == [kind |-> kind, tag |-> "red", neg |-> FALSE, flat |-> FALSE]

ViewsAfter(s, o, ret) ==
    IF o.op = "view" /\ ret \notin DOMAIN s.V /\ ret # "main"
    THEN s.V @@ (ret :> NewView(o))
    ELSE IF o.op \in FilterOps /\ o.v \in DOMAIN s.V
    THEN [v \in DOMAIN s.V |->
            IF v = o.v THEN FilterOp(s.V[v], o)
            ELSE IF o.op = "apply" /\ o.par.set /\ Has(s.V[v].appl, o.f)
            THEN [s.V[v] EXCEPT !.sync = FALSE]
            ELSE s.V[v]]
    ELSE IF o.op \in {"addfilt", "remfilt"} /\ Replaces(s, o)
    THEN [v \in DOMAIN s.V |-> IF Has(s.V[v].appl, o.f) THEN [s.V[v] EXCEPT !.sync = FALSE] ELSE s.V[v]]
    ELSE IF o.op \in {"gtk", "state"} /\ o.v \in DOMAIN s.V
    THEN [s.V EXCEPT ![o.v].conn = TRUE]
    ELSE s.V

BankAfter(s, o) ==
    IF o.op = "apply" /\ o.par.set /\ o.v # "main"
    THEN [s.F EXCEPT ![o.f].tag = o.par.tag, ![o.f].neg = o.par.neg, ![o.f].flat = o.par.flat]
    ELSE IF o.op = "addfilt" /\ Replaces(s, o) THEN (o.f :> Simple("all")) @@ s.F
    ELSE IF o.op = "remfilt" /\ Replaces(s, o) THEN (o.f :> Simple("nothing")) @@ s.F
    ELSE s.F

CountersAfter(s, o, ret) ==
    IF o.op = "count" /\ ret \notin DOMAIN s.C
    THEN s.C @@ (ret :> [appl |-> <<>>, sync |-> o.refresh, n |-> 0, on |-> TRUE, born |-> TRUE,
                        init |-> o.refresh, wide |-> FALSE])
    ELSE IF o.op = "capply" /\ o.v \in DOMAIN s.C /\ ~Has(s.C[o.v].appl, o.f) /\ o.f \in s.bank
    THEN [s.C EXCEPT ![o.v].appl = Append(@, o.f),
                     ![o.v].sync = o.refresh /\ ~(s.C[o.v].wide /\ s.C[o.v].init),
                     ![o.v].wide = @ /\ ~(o.refresh /\ ~s.C[o.v].init),
                     ![o.v].init = @ \/ o.refresh]
    ELSE IF o.op = "cunapply" /\ o.v \in DOMAIN s.C /\ Has(s.C[o.v].appl, o.f)
    THEN [s.C EXCEPT ![o.v].appl = Without(@, o.f), ![o.v].sync = TRUE, ![o.v].wide = FALSE]
    ELSE IF o.op = "cunreg" THEN [s.C EXCEPT ![o.v].on = FALSE]
    ELSE IF o.op = "creg" \/ (o.op = "conce" /\ o.rec) THEN [s.C EXCEPT ![o.v].on = TRUE]
    ELSE IF (o.op = "apply" /\ o.par.set) \/ (o.op \in {"addfilt", "remfilt"} /\ Replaces(s, o))
    THEN [c \in DOMAIN s.C |-> IF Has(s.C[c].appl, o.f)
                               THEN [s.C[c] EXCEPT !.sync = FALSE, !.wide = TRUE] ELSE s.C[c]]
    ELSE s.C


(* what a call about views tells its caller ("-" unspecified) *)
ViewRet(s, o) ==
    CASE o.op = "view" -> IF o.name # NONE /\ o.name \in DOMAIN s.names THEN s.names[o.name]
                          ELSE "v" \o ToString(Cardinality(DOMAIN s.V))
      [] o.op = "count" -> IF o.name # NONE /\ o.name \in DOMAIN s.cnames THEN s.cnames[o.name]
                           ELSE "c" \o ToString(Cardinality(DOMAIN s.C))
      [] o.op = "reg" -> "key"
      [] o.op = "addfilt" -> IF o.f \in s.bank THEN "False" ELSE "True"
      [] o.op = "remfilt" -> IF o.f \in s.bank THEN "True" ELSE "False"
      [] OTHER -> "-"
NamesAfter(s, o, ret) ==
    IF o.op = "view" /\ o.name # NONE /\ o.name \notin DOMAIN s.names
    THEN s.names @@ (o.name :> ret) ELSE s.names
CNamesAfter(s, o, ret) ==
    IF o.op = "count" /\ o.name # NONE /\ o.name \notin DOMAIN s.cnames
    THEN s.cnames @@ (o.name :> ret) ELSE s.cnames
RegAfter(s, o) ==
    IF o.op = "addfilt" THEN s.bank \cup {o.f}
    ELSE IF o.op = "remfilt" THEN s.bank \ {o.f} ELSE s.bank
=============================================================================
