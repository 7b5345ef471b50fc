------------------------------ MODULE ViewsMC ------------------------------
(***************************************************************************)
(* Exhaustive exploration of the operations on views, filters, counters    *)
(* and actions, over a small tree which changes.                           *)
(*                                                                         *)
(* The contents of views and counters are maintained here as the library   *)
(* does it: a refresh evaluates all nodes, but after a request only the    *)
(* announced nodes and their ancestors are evaluated again.  InvContents   *)
(* shows that this always gives what is specified declaratively.           *)
(***************************************************************************)
EXTENDS LarchViews, Json

CONSTANTS Ids, Kinds, FilterNames, Names, MaxViews, MaxCounts, MaxActs, MaxRegs, Lazy, Emit

VARIABLES s,     \* as in LarchTrace: T, Q, V, C, F, names, cnames, bank
          D,     \* view or counter -> what it displays
          A,     \* waiting actions: [k, v, n, m]
          na,    \* number of actions queued so far
          R,     \* registered callbacks: [a, v, e, once]
          nr,    \* number of registrations so far
          hist
vars == <<s, D, A, na, R, nr, hist>>

Bank == [red    |-> [kind |-> "col", tag |-> "red", neg |-> FALSE, flat |-> FALSE],
         notred |-> [kind |-> "col", tag |-> "red", neg |-> TRUE, flat |-> FALSE],
         anyred |-> [kind |-> "any", tag |-> "red", neg |-> FALSE, flat |-> FALSE],
         nobluechild |-> [kind |-> "nochild", tag |-> "blue", neg |-> FALSE, flat |-> FALSE],
         noreddesc |-> [kind |-> "nodesc", tag |-> "red", neg |-> FALSE, flat |-> FALSE],
         all    |-> [kind |-> "all", tag |-> "red", neg |-> FALSE, flat |-> FALSE],
         leaf   |-> [kind |-> "leaf", tag |-> "red", neg |-> FALSE, flat |-> FALSE],
         flatall |-> [kind |-> "all", tag |-> "red", neg |-> FALSE, flat |-> TRUE],
         flatred |-> [kind |-> "col", tag |-> "red", neg |-> FALSE, flat |-> TRUE],
         p1     |-> [kind |-> "col", tag |-> "red", neg |-> FALSE, flat |-> FALSE]]

NoPar == [set |-> FALSE, tag |-> NONE, neg |-> FALSE, flat |-> FALSE]
Pars  == {[set |-> TRUE, tag |-> t, neg |-> n, flat |-> f] : t \in {"red", "blue"}, n \in BOOLEAN, f \in {FALSE}}
O0 == [op |-> "ref", n |-> NONE, p |-> NONE, rec |-> FALSE, pri |-> "low", col |-> <<>>,
       th |-> "m", v |-> NONE, f |-> NONE, name |-> NONE, reset |-> FALSE,
       refresh |-> TRUE, e |-> NONE, a |-> NONE, par |-> NoPar]

Refreshes == IF Lazy THEN BOOLEAN ELSE {TRUE}
RECURSIVE OpsOf(_)
OpsOf(k) ==
    CASE k \in {"add", "del", "ref"} -> {[O0 EXCEPT !.op = k, !.n = n] : n \in Ids}
      [] k = "delrec" -> {[O0 EXCEPT !.op = "del", !.n = n, !.rec = TRUE] : n \in Ids}
      [] k = "col"    -> {[O0 EXCEPT !.op = k, !.n = n, !.col = c] : n \in Ids, c \in {<<>>, <<"red">>}}
      [] k = "move"   -> {[O0 EXCEPT !.op = k, !.n = n, !.p = p] : n \in Ids, p \in Ids \cup {NONE}}
      [] k \in {"addpar", "nremp"} -> {[O0 EXCEPT !.op = k, !.n = n, !.p = p] : n \in Ids, p \in Ids}
      [] k = "view"   -> {[O0 EXCEPT !.op = k, !.name = x, !.refresh = b, !.rec = TRUE] : x \in Names, b \in Refreshes}
      [] k = "apply"  -> {[O0 EXCEPT !.op = k, !.v = v, !.f = f, !.reset = r, !.refresh = b] :
                            v \in DOMAIN s.V, f \in FilterNames, r \in BOOLEAN, b \in Refreshes}
      [] k = "applyp" -> {[O0 EXCEPT !.op = "apply", !.v = v, !.f = "p1", !.par = p, !.refresh = b] :
                            v \in DOMAIN s.V, p \in Pars, b \in Refreshes}
      [] k = "unapply" -> {[O0 EXCEPT !.op = k, !.v = v, !.f = f, !.refresh = b] :
                            v \in DOMAIN s.V, f \in FilterNames, b \in Refreshes}
      [] k = "reset"  -> {[O0 EXCEPT !.op = k, !.v = v, !.refresh = b] : v \in DOMAIN s.V, b \in Refreshes}
      [] k = "count"  -> {[O0 EXCEPT !.op = k, !.name = x, !.refresh = b] : x \in Names, b \in Refreshes}
      [] k = "capply" -> {[O0 EXCEPT !.op = k, !.v = v, !.f = f, !.refresh = b] :
                            v \in DOMAIN s.C, f \in FilterNames, b \in Refreshes}
      [] k \in {"addfilt", "remfilt"} -> {[O0 EXCEPT !.op = k, !.f = f] : f \in FilterNames}
      [] k = "cunapply" -> {[O0 EXCEPT !.op = k, !.v = v, !.f = f] : v \in DOMAIN s.C, f \in FilterNames}
      [] k \in {"cunreg", "creg"} -> {[O0 EXCEPT !.op = k, !.v = v] : v \in DOMAIN s.C}
      [] k = "act"    -> {[O0 EXCEPT !.op = k, !.v = v, !.n = n, !.a = "x" \o ToString(na)] :
                            v \in DOMAIN s.V, n \in Ids}
      [] k = "reg"    -> {[O0 EXCEPT !.op = k, !.v = v, !.e = e, !.a = "l" \o ToString(nr)] :
                            v \in DOMAIN s.V, e \in {"node-added-inview", "node-deleted-inview", "node-modified-inview"}}
                         \cup {[O0 EXCEPT !.op = k, !.v = "main", !.e = e, !.a = "l" \o ToString(nr)] :
                            e \in {"node-added", "node-deleted", "node-modified"}}
      [] k = "reg1"   -> {[o EXCEPT !.rec = TRUE] : o \in OpsOf("reg")}
      [] k = "conce"  -> {[O0 EXCEPT !.op = k, !.v = v, !.rec = b, !.a = "l" \o ToString(nr)] : v \in DOMAIN s.C, b \in BOOLEAN}
      [] k = "dereg"  -> {[O0 EXCEPT !.op = k, !.a = x.a] : x \in {x \in R : x.e # "count"}}
      [] k = "drain"  -> {[O0 EXCEPT !.op = k]}
Ops == UNION {OpsOf(k) : k \in Kinds}

TreeOps == {"add", "del", "ref", "col", "move", "addpar", "nremp"}

Enabled(o) ==
    CASE o.op \in TreeOps -> /\ CanCall(s.T, o)
                             /\ o.op = "add" => o.n \notin s.T.nodes
                             /\ o.op \in {"del", "ref", "addpar", "move"} => o.n \in s.T.nodes
                             /\ o.op \in {"addpar", "nremp"} => o.p \in s.T.nodes
                             /\ o.op = "move" /\ o.p # NONE => o.p \in s.T.nodes
      [] o.op = "view" -> Cardinality(DOMAIN s.V) < MaxViews \/ o.name \in DOMAIN s.names
      [] o.op = "count" -> Cardinality(DOMAIN s.C) < MaxCounts \/ o.name \in DOMAIN s.cnames
      [] o.op = "act" -> na < MaxActs
      [] o.op \in {"reg", "conce"} -> nr < MaxRegs
      [] o.op = "cunreg" -> s.C[o.v].on
      [] o.op = "creg" -> ~s.C[o.v].on
      [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* What is announced: the node and everything whose relations changed *)
Touched(T, r, o) ==
    ({o.n} \cup r.must \cup {n \in T.ids : T.par[n] # r.t.par[n] \/ T.ch[n] # r.t.ch[n]
                                           \/ (n \in T.nodes) # (n \in r.t.nodes)}) \cap T.ids
Evaluate(T, F, d, x, appl) ==      \* evaluate again the nodes in x
    ((d \cap T.nodes) \ x) \cup {n \in x \cap T.nodes : \A i \in DOMAIN appl : Accept(T, F[appl[i]], n)}

After(o) ==
    LET T == s.T
        tree == o.op \in TreeOps
        r == IF tree THEN RunSync(T, o) ELSE Result(T, "ok", {})
        ret == ViewRet(s, o)
        F2 == BankAfter(s, o)
        V2 == ViewsAfter(s, o, ret)
        C2 == CountersAfter(s, o, ret)
        touched == Touched(T, r, o)
        up == Closure(r.t.par, touched)
        Old(v) == IF v \in DOMAIN D THEN D[v] ELSE {}
        DV(v) == IF tree THEN Evaluate(r.t, F2, Old(v), up, V2[v].appl)
                 ELSE IF v \notin DOMAIN D
                 THEN IF o.refresh THEN r.t.nodes ELSE {}
                 ELSE IF o.op \in FilterOps /\ o.v = v /\ o.refresh
                 THEN Displayed(r.t, F2, V2[v].appl) ELSE Old(v)
        DC(c) == IF tree THEN Evaluate(r.t, F2, Old(c), touched, C2[c].appl)
                 ELSE IF c \notin DOMAIN D
                 THEN IF o.refresh THEN r.t.nodes ELSE {}
                 ELSE IF o.op = "capply" /\ o.v = c /\ o.refresh /\ o.f \in s.bank /\ ~Has(s.C[c].appl, o.f)
                 THEN Displayed(r.t, F2, C2[c].appl) \cap (IF s.C[c].init THEN Old(c) ELSE r.t.nodes)
                 ELSE IF o.op = "cunapply" /\ o.v = c /\ Has(s.C[c].appl, o.f)
                 THEN Displayed(r.t, F2, C2[c].appl) ELSE Old(c)
    IN  [s |-> [s EXCEPT !.T = r.t, !.F = F2, !.V = V2, !.C = C2,
                         !.bank = RegAfter(s, o), !.names = NamesAfter(s, o, ret), !.cnames = CNamesAfter(s, o, ret)],
         D |-> [v \in DOMAIN V2 \cup DOMAIN C2 |-> IF v \in DOMAIN V2 THEN DV(v) ELSE DC(v)]]

(* actions: those which are due run *)
Runs(o, d) == {x \in A : \/ x.m = "idle" /\ o.op = "drain"
                         \/ x.m = "wait" /\ x.n \in d[x.v]}
Queued(o) == IF o.op # "act" THEN {}
             ELSE {[k |-> na, v |-> o.v, n |-> o.n, m |-> IF o.n \in D[o.v] THEN "idle" ELSE "wait"]}

Compact(o) == [k \in {k \in DOMAIN o : k = "op" \/ o[k] # O0[k]} |-> o[k]]
NewHist == LET q == CHOOSE q \in [1..Cardinality(Ids) -> Ids] : {q[k] : k \in DOMAIN q} = Ids
           IN  [k \in DOMAIN q |-> Compact([O0 EXCEPT !.op = "new", !.n = q[k]])]
Func0 == [x \in {} |-> {}]
Init == /\ s = [T |-> [Empty(Ids) EXCEPT !.obj = [x \in Ids |-> "det"]], Q |-> EmptyQ,
                V |-> Func0, C |-> Func0, F |-> [x \in FilterNames \cup {"p1"} |-> Bank[x]],
                names |-> ("main" :> "main"), cnames |-> Func0, bank |-> FilterNames]
        /\ D = Func0 /\ A = {} /\ na = 0 /\ R = {} /\ nr = 0
        /\ hist = NewHist
Next == \E o \in Ops :
    /\ Enabled(o)
    /\ LET x == After(o) IN
       /\ s' = x.s /\ D' = x.D
       /\ A' = (A \ Runs(o, x.D)) \cup Queued(o)
       /\ na' = IF o.op = "act" THEN na + 1 ELSE na
    /\ R' = IF o.op = "reg" THEN R \cup {[a |-> o.a, v |-> o.v, e |-> o.e, once |-> o.rec]}
            ELSE IF o.op = "conce" THEN R \cup {[a |-> o.a, v |-> o.v, e |-> "count", once |-> o.rec]}
            ELSE IF o.op = "dereg" THEN {x \in R : x.a # o.a} ELSE R
    /\ nr' = IF o.op \in {"reg", "conce"} THEN nr + 1 ELSE nr
    /\ hist' = IF Emit THEN Append(hist, Compact(o)) ELSE hist
    /\ IF Emit THEN PrintT("EDGE|" \o ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_vars
View == <<s, D, A, na, R, nr>>

-----------------------------------------------------------------------------
(* C05, C09: what a view shows depends only on the tree and the filters,   *)
(* however the tree and the filters came to be what they are               *)
InvContents == \A v \in DOMAIN s.V : s.V[v].sync => D[v] = Displayed(s.T, s.F, s.V[v].appl)
(* C10 (filters on the own data of nodes) *)
InvCounts == \A c \in DOMAIN s.C :
    s.C[c].sync /\ (\A i \in DOMAIN s.C[c].appl : OwnData(s.F[s.C[c].appl[i]]))
    => D[c] = Displayed(s.T, s.F, s.C[c].appl)
InvApplied == \A v \in DOMAIN s.V : NoDup(s.V[v].appl)
(* C16 *)
InvNames == /\ \A x, y \in DOMAIN s.names : s.names[x] = s.names[y] => x = y
            /\ \A x, y \in DOMAIN s.cnames : s.cnames[x] = s.cnames[y] => x = y
InvIndependent == \A o \in {o \in Ops : Enabled(o)} :
    o.op \in FilterOps \cup {"view", "count", "capply", "cunapply", "act", "addfilt", "remfilt"} =>
       LET x == After(o) IN
       /\ x.s.T = s.T
       /\ \A v \in DOMAIN D : v # o.v => /\ x.D[v] = D[v]
                                         /\ v \in DOMAIN s.V => x.s.V[v].appl = s.V[v].appl
                                         /\ v \in DOMAIN s.C => x.s.C[v].appl = s.C[v].appl
(* asking again for a name changes nothing *)
InvAgain == \A o \in {o \in Ops : Enabled(o)} :
    o.op = "view" /\ o.name \in DOMAIN s.names => After(o).s = s /\ After(o).D = D
(* C13: an action which waits for a node waits because it is not displayed *)
InvActs == \A x \in A : x.m = "wait" => x.n \notin D[x.v]
InvTree == Valid(s.T)
=============================================================================
