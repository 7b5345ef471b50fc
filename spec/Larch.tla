------------------------------- MODULE Larch -------------------------------
(***************************************************************************)
(* liblarch: the tree of nodes, the requests, the filters, the views, the  *)
(* counters and the notification protocol, as a functional specification.  *)
(*                                                                         *)
(* The state of the tree is a record T; a public call is an operation      *)
(* record o.  Call(T, o) says what the call does at once (to detached      *)
(* nodes, to flags and data, to the list of waiting relations) and which   *)
(* requests it issues; Exec(T, r) says what the execution of one request   *)
(* does.  In the thread which created the tree the requests are executed   *)
(* at once (RunSync); in any other thread they are queued (Enqueue) and    *)
(* executed by the main loop in order of priority (Drain).                 *)
(*                                                                         *)
(* Views are specified declaratively: what a view displays, and where, is  *)
(* a function of the tree and of the filters applied to it.  The           *)
(* notifications of a view are specified by what they do to a mirror.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

NONE == "~none"

-----------------------------------------------------------------------------
(* Sequences *)
Rng(s)        == {s[i] : i \in DOMAIN s}
Has(s, x)     == \E i \in DOMAIN s : s[i] = x
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
AddTo(s, x)   == IF Has(s, x) THEN s ELSE Append(s, x)
NoDup(s)      == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
RemoveOne(s, x) ==
    IF ~Has(s, x) THEN s
    ELSE LET k == CHOOSE i \in DOMAIN s :
                     s[i] = x /\ \A j \in 1..(i-1) : s[j] # x
         IN  SubSeq(s, 1, k-1) \o SubSeq(s, k+1, Len(s))
SeqMinus(s, S) == SelectSeq(s, LAMBDA y : y \notin S)

-----------------------------------------------------------------------------
(* The state of the tree.  ids is the universe of node ids.                *)
(*   nodes  ids in the tree               par, ch  adjacency lists         *)
(*   root   top-level ids, in order       pend     waiting relations <<p,c>>*)
(*   obj    "no" | "det" (never added) | "in" | "out" (was deleted)        *)
(*   loc    relations declared on a detached node                          *)
(*   col    data of the node (set of tags)                                 *)
(*   pe, ce parents enabled, children enabled                              *)
(*   taint  the same waiting relation was declared twice: the order of the *)
(*          siblings is no longer specified                                *)
Empty(ids) ==
    [ids   |-> ids,
     nodes |-> {},
     par   |-> [i \in ids |-> <<>>],
     ch    |-> [i \in ids |-> <<>>],
     root  |-> <<>>,
     pend  |-> <<>>,
     obj   |-> [i \in ids |-> "no"],
     loc   |-> [i \in ids |-> <<>>],
     col   |-> [i \in ids |-> {}],
     pe    |-> [i \in ids |-> TRUE],
     ce    |-> [i \in ids |-> TRUE],
     taint |-> FALSE]

(* Reachability.  Par and Ch restrict the lists to ids of the universe, so *)
(* that these terminate on every structure, cyclic ones included.          *)
RECURSIVE Closure(_, _)
Closure(R, S) ==
    LET S2 == S \cup UNION {Rng(R[x]) : x \in S}
    IN  IF S2 = S THEN S ELSE Closure(R, S2)

Up(T, n)   == IF n \in T.ids THEN Closure(T.par, {n}) ELSE {n}
Down(T, n) == Closure(T.ch, {n})
Ancestors(T, n)   == Closure(T.par, Rng(T.par[n]))
Descendants(T, n) == Closure(T.ch, Rng(T.ch[n]))

Edges(T) == {<<p, c>> \in T.nodes \X T.nodes : Has(T.ch[p], c)}

(* The structural invariant (C01) *)
Symmetric(T) == \A p \in T.nodes, c \in T.nodes :
                    Has(T.ch[p], c) <=> Has(T.par[c], p)
Acyclic(T)   == \A n \in T.nodes : n \notin Ancestors(T, n)
                                   /\ n \notin Descendants(T, n)
DupFree(T)   == /\ NoDup(T.root)
                /\ \A n \in T.nodes : NoDup(T.par[n]) /\ NoDup(T.ch[n])
OnlyExisting(T) == /\ Rng(T.root) \subseteq T.nodes
                   /\ \A n \in T.nodes : Rng(T.par[n]) \cup Rng(T.ch[n]) \subseteq T.nodes
RootIffOrphan(T) == \A n \in T.nodes : Has(T.root, n) <=> T.par[n] = <<>>
Valid(T) == Symmetric(T) /\ Acyclic(T) /\ DupFree(T) /\ OnlyExisting(T) /\ RootIffOrphan(T)

(* Further invariants of reachable states *)
Absent(T) == \A n \in T.ids \ T.nodes : T.par[n] = <<>> /\ T.ch[n] = <<>>
ObjOk(T)  == \A n \in T.ids : (T.obj[n] = "in") <=> n \in T.nodes
PendOk(T) == \A r \in Rng(T.pend) : ~(r[1] \in T.nodes /\ r[2] \in T.nodes)
FlagsOk(T) == \A n \in T.nodes : (~T.pe[n] => T.par[n] = <<>>) /\ (~T.ce[n] => T.ch[n] = <<>>)
LocOk(T)  == \A n \in T.ids : T.obj[n] # "det" => T.loc[n] = <<>>

-----------------------------------------------------------------------------
(* Elementary changes *)
Circular(T, p, c) == c \in Up(T, p)
Allowed(T, p, c)  == T.ce[p] /\ T.pe[c]

Create(T, p, c) ==
    [T EXCEPT !.ch[p] = AddTo(@, c), !.par[c] = AddTo(@, p),
              !.root = Without(@, c)]
Destroy(T, p, c) ==
    [T EXCEPT !.ch[p] = Without(@, c), !.par[c] = Without(@, p)]
RootIfOrphan(T, c) ==
    IF T.par[c] = <<>> THEN [T EXCEPT !.root = AddTo(@, c)] ELSE T
Wait(T, p, c) ==
    IF p = NONE \/ c = NONE THEN T
    ELSE
    [T EXCEPT !.pend = Append(@, <<p, c>>),
              !.taint = @ \/ Has(T.pend, <<p, c>>)]

-----------------------------------------------------------------------------
(* Execution of one request r.  The result: the new tree t; out is "ok",   *)
(* "no" (refused silently) or "raise" (refused by an exception); must is   *)
(* the set of nodes whose modification has to be announced.                *)
Result(t, out, must) == [t |-> t, out |-> out, must |-> must]

RECURSIVE Resolve(_, _, _)
Resolve(T, n, rels) ==
    IF rels = <<>> THEN T
    ELSE LET r == Head(rels)
             mine == \/ r[2] = n /\ r[1] \in T.nodes
                     \/ r[1] = n /\ r[2] \in T.nodes
             T1 == IF mine /\ Allowed(T, r[1], r[2]) /\ ~Circular(T, r[1], r[2])
                   THEN Create(T, r[1], r[2]) ELSE T
             T2 == IF mine THEN [T1 EXCEPT !.pend = RemoveOne(@, r)] ELSE T1
         IN  Resolve(T2, n, Tail(rels))

RECURSIVE Merge(_, _)
Merge(s, t) == IF t = <<>> THEN s ELSE Merge(AddTo(s, Head(t)), Tail(t))

WaitingChildren(T, n) ==
    {r[2] : r \in {x \in Rng(T.pend) \cup Rng(T.loc[n]) : x[1] = n /\ x[2] \in T.nodes}}

ExecAdd(T, n, p) ==
    IF n \in T.nodes THEN Result(T, "no", {})
    ELSE IF p # NONE /\ \E b \in {n} \cup WaitingChildren(T, n) : Circular(T, p, b)
    THEN Result(T, "raise", {})
    ELSE LET T1 == [T EXCEPT !.nodes = @ \cup {n}, !.obj[n] = "in",
                             !.pend = Merge(@, T.loc[n]), !.loc[n] = <<>>]
             T2 == Resolve(T1, n, T1.pend)
             T3 == IF p = NONE THEN T2
                   ELSE IF p \in T.nodes
                   THEN IF Allowed(T2, p, n) THEN Create(T2, p, n) ELSE T2
                   ELSE Wait(T2, p, n)
         IN  Result(RootIfOrphan(T3, n), "ok", {})

(* deletion: D are the nodes which disappear *)
RECURSIVE OrphansToRoot(_, _)
OrphansToRoot(T, s) == IF s = <<>> THEN T
                       ELSE OrphansToRoot(RootIfOrphan(T, Head(s)), Tail(s))
ExecDel(T, n, rec) ==
    IF n \notin T.nodes THEN Result(T, "no", {})
    ELSE LET D == IF rec THEN Down(T, n) ELSE {n}
             rest == T.nodes \ D
             T1 == [T EXCEPT
                      !.nodes = rest,
                      !.par  = [i \in T.ids |-> IF i \in D THEN <<>> ELSE SeqMinus(T.par[i], D)],
                      !.ch   = [i \in T.ids |-> IF i \in D THEN <<>> ELSE SeqMinus(T.ch[i], D)],
                      !.root = SeqMinus(@, D),
                      !.obj  = [i \in T.ids |-> IF i \in D THEN "out" ELSE T.obj[i]],
                      !.pend = SelectSeq(@, LAMBDA r : r[1] \notin D /\ r[2] \notin D)]
             T2 == IF rec THEN T1 ELSE OrphansToRoot(T1, T.ch[n])
         IN  Result(T2, "ok",
                    {m \in rest : (Rng(T.par[m]) \cup Rng(T.ch[m])) \cap D # {}})

ExecMod(T, n) == Result(T, "ok", {n} \cap T.nodes)

ExecNew(T, p, c) ==
    LET T1 == [T EXCEPT !.pend = RemoveOne(@, <<p, c>>)]
    IN  IF p = NONE \/ c = NONE \/ p = c THEN Result(T1, "no", {})
        ELSE IF p \notin T.nodes \/ c \notin T.nodes
        THEN Result([T1 EXCEPT !.pend = Append(@, <<p, c>>),
                               !.taint = @ \/ Has(T.pend, <<p, c>>)], "ok", {})
        ELSE IF ~Allowed(T, p, c) THEN Result(T1, "no", {})
        ELSE IF Circular(T, p, c) THEN Result(T1, "raise", {})
        ELSE Result(Create(T1, p, c), "ok", {p, c})

ExecBrk(T, p, c) ==
    LET T1 == [T EXCEPT !.pend = Without(@, <<p, c>>)]
    IN  IF p = NONE \/ c = NONE \/ p = c \/ p \notin T.nodes \/ c \notin T.nodes
        THEN Result(T1, "no", {})
        ELSE Result(RootIfOrphan(Destroy(T1, p, c), c), "ok",
                    IF Has(T.par[c], p) THEN {p, c} ELSE {})

Exec(T, r) ==
    CASE r.k = "add" -> ExecAdd(T, r.n, r.p)
      [] r.k = "del" -> ExecDel(T, r.n, r.rec)
      [] r.k = "mod" -> ExecMod(T, r.n)
      [] r.k = "new" -> ExecNew(T, r.p, r.n)
      [] r.k = "brk" -> ExecBrk(T, r.p, r.n)

(* Requests; n is the node (the child), p the parent *)
ReqAdd(n, p, pri) == [k |-> "add", n |-> n, p |-> p, rec |-> FALSE, pri |-> pri]
ReqDel(n, rec)    == [k |-> "del", n |-> n, p |-> NONE, rec |-> rec, pri |-> "normal"]
ReqMod(n, pri)    == [k |-> "mod", n |-> n, p |-> NONE, rec |-> FALSE, pri |-> pri]
ReqNew(p, n)      == [k |-> "new", n |-> n, p |-> p, rec |-> FALSE, pri |-> "normal"]
ReqBrk(p, n)      == [k |-> "brk", n |-> n, p |-> p, rec |-> FALSE, pri |-> "normal"]

-----------------------------------------------------------------------------
(* Public calls.  The result: t, the tree after the immediate effect; reqs,*)
(* the requests issued; ret, what the call tells ("-" unspecified).        *)
Called(t, reqs, ret) == [t |-> t, reqs |-> reqs, ret |-> ret]

GetParents(T, n)  == IF T.pe[n] /\ T.obj[n] # "det"
                     THEN SelectSeq(T.par[n], LAMBDA p : p \in T.nodes) ELSE <<>>
GetChildren(T, n) == IF T.ce[n] /\ T.obj[n] # "det"
                     THEN SelectSeq(T.ch[n], LAMBDA c : c \in T.nodes) ELSE <<>>
Brks(s, n) == [i \in 1..Len(s) |-> ReqBrk(s[i], n)]

Declare(T, n, p, c) ==      \* on the detached node n
    IF p = NONE \/ c = NONE THEN T
    ELSE [T EXCEPT !.loc[n] = AddTo(@, <<p, c>>)]

CallAddParent(T, n, p) ==
    IF p = n \/ ~T.pe[n] \/ Has(T.par[n], p) THEN Called(T, <<>>, "-")
    ELSE IF T.obj[n] = "det" THEN Called(Declare(T, n, p, n), <<>>, "-")
    ELSE IF p \notin T.nodes THEN Called(Wait(T, p, n), <<>>, "-")
    ELSE Called(T, IF T.ce[p] THEN <<ReqNew(p, n)>> ELSE <<>>, "-")

CallSetParent(T, n, p) ==
    IF p = n \/ ~T.pe[n] THEN Called(T, <<>>, "-")
    ELSE IF T.obj[n] = "det" THEN Called(Declare(T, n, p, n), <<>>, "-")
    ELSE IF p \notin T.nodes
    THEN Called(Wait(T, p, n), Brks(GetParents(T, n), n), "-")
    ELSE IF ~T.ce[p] THEN Called(T, <<>>, "-")
    ELSE Called(T, (IF Has(T.par[n], p) THEN <<>> ELSE <<ReqNew(p, n)>>)
                   \o Brks(Without(T.par[n], p), n), "-")

CallRemoveParent(T, n, p) ==
    Called(T, IF T.pe[n] /\ Has(T.par[n], p) THEN <<ReqBrk(p, n)>> ELSE <<>>, "-")

CallAddChild(T, n, c) ==
    IF ~T.ce[n] \/ c = n \/ Has(T.ch[n], c) THEN Called(T, <<>>, "-")
    ELSE IF T.obj[n] = "det" THEN Called(Declare(T, n, n, c), <<>>, "-")
    ELSE IF c \notin T.nodes THEN Called(Wait(T, n, c), <<>>, "-")
    ELSE Called(T, IF T.pe[c] THEN <<ReqNew(n, c)>> ELSE <<>>, "-")

RECURSIVE ModAll(_)
ModAll(S) == IF S = {} THEN <<>>
             ELSE LET x == CHOOSE x \in S : TRUE IN <<ReqMod(x, "low")>> \o ModAll(S \ {x})

Call(T, o) ==
    CASE o.op = "new" ->        \* a new object for the node, perhaps with a parent
            Called([T EXCEPT !.obj[o.n] = "det", !.col[o.n] = {},
                             !.pe[o.n] = TRUE, !.ce[o.n] = TRUE,
                             !.loc[o.n] = IF o.p = NONE \/ o.p = o.n THEN <<>>
                                          ELSE <<<<o.p, o.n>>>>], <<>>, "-")
      [] o.op = "add"    -> Called(T, <<ReqAdd(o.n, o.p, o.pri)>>, "-")
      [] o.op = "dupadd" -> Called(T, <<>>, "-")  \* another object, same id: refused
      [] o.op = "del"    -> Called(T, <<ReqDel(o.n, o.rec)>>, "-")
      [] o.op = "move"   -> IF o.n \notin T.nodes THEN Called(T, <<>>, "False")
                            ELSE [CallSetParent(T, o.n, o.p) EXCEPT !.ret = "True"]
      [] o.op = "addpar" -> IF o.n \notin T.nodes THEN Called(T, <<>>, "False")
                            ELSE CallAddParent(T, o.n, o.p)
      [] o.op = "nset"   -> CallSetParent(T, o.n, o.p)
      [] o.op = "naddp"  -> CallAddParent(T, o.n, o.p)
      [] o.op = "nremp"  -> CallRemoveParent(T, o.n, o.p)
      [] o.op = "naddc"  -> CallAddChild(T, o.n, o.p)
      [] o.op = "setpe"  -> Called([T EXCEPT !.pe[o.n] = o.rec],
                                   IF o.rec THEN <<>> ELSE Brks(GetParents(T, o.n), o.n), "-")
      [] o.op = "setce"  -> Called([T EXCEPT !.ce[o.n] = o.rec],
                                   IF o.rec THEN <<>>
                                   ELSE LET s == GetChildren(T, o.n)
                                        IN  [i \in 1..Len(s) |-> ReqBrk(o.n, s[i])], "-")
      [] o.op = "col"    -> Called([T EXCEPT !.col[o.n] = Rng(o.col)],
                                   IF T.obj[o.n] = "det" THEN <<>> ELSE <<ReqMod(o.n, o.pri)>>, "-")
      [] o.op = "ref"    -> Called(T, <<ReqMod(o.n, o.pri)>>, "-")
      [] o.op = "refall" -> Called(T, ModAll(T.nodes), "-")

(* Is the operation meaningful in this state?  (a call on a node needs its *)
(* object; a new object only replaces one which is not in the tree)        *)
CanCall(T, o) ==
    CASE o.op = "new"    -> T.obj[o.n] # "in"
      [] o.op = "dupadd" -> o.n \in T.nodes
      [] o.op \in {"add", "nset", "naddp", "nremp", "naddc", "setpe", "setce", "col"}
                         -> T.obj[o.n] # "no"
      [] OTHER           -> TRUE

(* Immediate execution: requests in order, an exception ends the call *)
RECURSIVE RunReqs(_, _, _)
RunReqs(T, reqs, must) ==
    IF reqs = <<>> THEN Result(T, "ok", must)
    ELSE LET r == Exec(T, Head(reqs))
         IN  IF r.out = "raise" THEN Result(r.t, "raise", must \cup r.must)
             ELSE RunReqs(r.t, Tail(reqs), must \cup r.must)

(* The immediate effect on flags, data and waiting relations commutes with *)
(* the requests of the same call.                                          *)
RunSync(T, o) ==
    LET c == Call(T, o) IN RunReqs(c.t, c.reqs, {})

-----------------------------------------------------------------------------
(* The queue of requests from other threads (documented coalescing: a      *)
(* request identical to one waiting with the same priority is not added)   *)
EmptyQ == [high |-> <<>>, normal |-> <<>>, low |-> <<>>]
RECURSIVE Enqueue(_, _)
Enqueue(Q, reqs) ==
    IF reqs = <<>> THEN Q
    ELSE Enqueue([Q EXCEPT ![Head(reqs).pri] = AddTo(@, Head(reqs))], Tail(reqs))
QEmpty(Q) == Q.high = <<>> /\ Q.normal = <<>> /\ Q.low = <<>>
NextPri(Q) == IF Q.high # <<>> THEN "high" ELSE IF Q.normal # <<>> THEN "normal" ELSE "low"
RECURSIVE Drain(_, _, _)
Drain(T, Q, must) ==
    IF QEmpty(Q) THEN Result(T, "ok", must)
    ELSE LET pri == NextPri(Q)
             r == Exec(T, Head(Q[pri]))
         IN  Drain(r.t, [Q EXCEPT ![pri] = Tail(@)], must \cup r.must)

-----------------------------------------------------------------------------
(* Filters.  A filter is a record: kind, tag, neg (negated), flat.         *)
Base(T, f, n) ==
    CASE f.kind = "all"     -> TRUE
      [] f.kind = "nothing" -> FALSE      \* a filter which is not in the bank
      [] f.kind = "col"     -> f.tag \in T.col[n]
      [] f.kind = "leaf"    -> T.ch[n] = <<>>
      [] f.kind = "orphan"  -> T.par[n] = <<>>
      [] f.kind = "single"  -> Len(T.par[n]) < 2
      [] f.kind = "inner"   -> T.ch[n] # <<>>
      [] f.kind = "colleaf" -> f.tag \in T.col[n] /\ T.ch[n] = <<>>
      [] f.kind = "any"     -> \E d \in Down(T, n) : f.tag \in T.col[d]
      [] f.kind = "nochild" -> \A c \in Rng(T.ch[n]) : f.tag \notin T.col[c]
      [] f.kind = "nodesc"  -> \A d \in Descendants(T, n) : f.tag \notin T.col[d]
      [] f.kind = "odd"     -> Cardinality({d \in Descendants(T, n) : f.tag \in T.col[d]}) % 2 = 1
Accept(T, f, n) == IF f.neg THEN ~Base(T, f, n) ELSE Base(T, f, n)

OwnData(f) == f.kind \in {"all", "nothing", "col"}

(* A view v: appl (names of the applied filters, in order).  F: the bank.  *)
Displayed(T, F, appl) ==
    {n \in T.nodes : \A i \in DOMAIN appl : Accept(T, F[appl[i]], n)}
IsFlat(F, appl) == \E i \in DOMAIN appl : F[appl[i]].flat

(* The shape of a view which displays D *)
ViewParents(T, D, flat, n) == IF flat THEN {} ELSE Rng(T.par[n]) \cap D
ViewTop(T, D, flat) == {n \in D : ViewParents(T, D, flat, n) = {}}
RECURSIVE ViewPaths(_, _, _, _)
ViewPaths(T, D, flat, n) ==
    LET P == ViewParents(T, D, flat, n)
    IN  IF P = {} THEN {<<n>>}
        ELSE UNION {{Append(q, n) : q \in ViewPaths(T, D, flat, p)} : p \in P}
AllPaths(T, D, flat) == UNION {ViewPaths(T, D, flat, n) : n \in D}
ViewAncestors(T, D, flat, n) ==
    UNION {Rng(p) : p \in ViewPaths(T, D, flat, n)} \ {n}

(* Counters *)
Count(T, F, appl) == Cardinality(Displayed(T, F, appl))

-----------------------------------------------------------------------------
(* The notification protocol.  A mirror is a set of places (paths) with    *)
(* the order of siblings: here a sequence of paths in the order of arrival.*)
Front1(p) == SubSeq(p, 1, Len(p) - 1)
IsPrefix1(p, q) == Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p

(* What is wrong with event e on mirror m (a set of clause names) *)
EventFaults(m, e) ==
    (IF e.path = <<>> \/ e.path[Len(e.path)] # e.n THEN {"mir.path"} ELSE {}) \cup
    \* e.at: is the path among those which the view reports meanwhile?
    (IF e.at \notin (IF e.e = "deleted" THEN {"yes", "no"} ELSE {"yes"}) THEN {"mir.told"} ELSE {}) \cup
    CASE e.e = "added" ->
           (IF Has(m, e.path) THEN {"mir.added.twice"} ELSE {}) \cup
           (IF Len(e.path) > 1 /\ ~Has(m, Front1(e.path)) THEN {"mir.added.noparent"} ELSE {})
      [] e.e = "deleted" ->
           (IF ~Has(m, e.path) THEN {"mir.deleted.absent"} ELSE {}) \cup
           (IF \E i \in DOMAIN m : IsPrefix1(e.path, m[i]) THEN {"mir.deleted.haschildren"} ELSE {})
      [] e.e = "modified" ->
           (IF ~Has(m, e.path) THEN {"mir.modified.absent"} ELSE {})
MirrorStep(m, e) ==
    CASE e.e = "added"    -> AddTo(m, e.path)
      [] e.e = "deleted"  -> Without(m, e.path)
      [] e.e = "modified" -> m
RECURSIVE MirrorRun(_, _, _)
MirrorRun(m, evs, bad) ==
    IF evs = <<>> THEN [m |-> m, bad |-> bad]
    ELSE MirrorRun(MirrorStep(m, Head(evs)), Tail(evs), bad \cup EventFaults(m, Head(evs)))

(* the children of place p in mirror m, in order of arrival *)
MirrorKids(m, p) ==
    LET s == SelectSeq(m, LAMBDA q : Len(q) = Len(p) + 1 /\ SubSeq(q, 1, Len(p)) = p)
    IN  [i \in 1..Len(s) |-> s[i][Len(s[i])]]

-----------------------------------------------------------------------------
(* Actions queued for a node of a view                                     *)
(* once: set of records [id, n, idle]; an action runs                      *)
(*   - from the main loop, if the node was displayed when it was queued;   *)
(*   - when the node appears, otherwise.                                   *)
=============================================================================
