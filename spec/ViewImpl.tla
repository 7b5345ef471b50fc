------------------------------ MODULE ViewImpl ------------------------------
(***************************************************************************)
(* How a view is kept up to date in the implementation (filteredtree.py):  *)
(* the tree announces each step of a request; the view compares what it    *)
(* shows with what it should show, from the announced node upwards and     *)
(* downwards, and tells its listeners single steps.  After every request   *)
(* the cache of the view has to be what Larch specifies as a function of   *)
(* the tree, and every notification has to be applicable and to *)
(* lead there, in whatever order the implementation walks over sets        *)
(* (perm), for every tree over Ids, every set of accepted nodes and        *)
(* several kinds of filters.  Everything which is wrong after a step is    *)
(* named in `fault`, which has to stay empty (Inv).                        *)
(*                                                                         *)
(* The requests are those of MainTree with their intermediate states, in   *)
(* which the callbacks run; the result is compared with Larch.             *)
(***************************************************************************)
EXTENDS Larch, TLC, Json

CONSTANTS Ids, Kinds, Ops, MaxEdges, Emit

VARIABLES T,       \* the tree: nodes, par, ch, root
          ok,      \* the nodes whose own data the filter accepts
          kind,    \* what the filter looks at
          v,       \* the cache: node -> [p: parents, c: children]
          perm,    \* the order in which sets are walked over
          fault,   \* what went wrong in the last step
          hist     \* the public calls which lead here (only with Emit)
vars == <<T, ok, kind, v, perm, fault, hist>>
View == <<T, ok, kind, v, perm, fault>>

TOP == "~top"     \* the root of the view

-----------------------------------------------------------------------------
(* what the filter accepts, asked in tree t *)
RECURSIVE Below(_, _)
Below(t, n) == {n} \cup UNION {Below(t, t.ch[n][i]) : i \in DOMAIN t.ch[n]}
Accepts(X, n) ==
    CASE X.kind = "own"  -> n \in X.ok
      [] X.kind = "flat" -> n \in X.ok
      [] X.kind = "leaf" -> n \in X.ok /\ X.t.ch[n] = <<>>
      [] X.kind = "some" -> Below(X.t, n) \cap X.ok # {}
      [] X.kind = "none" -> Below(X.t, n) \cap X.ok \subseteq {n}
Should(X, n) == n \in X.t.nodes /\ Accepts(X, n)
Flat(X) == X.kind = "flat"

(* specification: parents in the view *)
Shown(X) == {n \in X.t.nodes : Accepts(X, n)}
SpecParents(X, n) ==
    LET ps == IF Flat(X) THEN {} ELSE Rng(X.t.par[n]) \cap Shown(X)
    IN  IF ps = {} THEN {TOP} ELSE ps

-----------------------------------------------------------------------------
(* S: v the cache, ev the notifications, err exceptions of the code        *)
RECURSIVE PathsOf(_, _)
PathsOf(c, n) ==
    IF n = TOP \/ n \notin DOMAIN c THEN << <<>> >>
    ELSE LET of(p) == IF p \notin DOMAIN c \/ ~Has(c[p].c, n) THEN << <<"!", n>> >>
                      ELSE LET s == PathsOf(c, p) IN [i \in DOMAIN s |-> Append(s[i], n)]
             RECURSIVE all(_)
             all(ps) == IF ps = <<>> THEN <<>> ELSE of(Head(ps)) \o all(Tail(ps))
         IN  all(c[n].p)

Send(S, e, n, path) ==
    [S EXCEPT !.ev = Append(@, [e |-> e, n |-> n, path |-> path,
        at |-> IF n \in DOMAIN S.v /\ path \in Rng(PathsOf(S.v, n)) THEN "yes" ELSE "no"])]

RECURSIVE SendEach(_, _, _, _, _)
SendEach(S, e, n, starts, rel) ==
    IF starts = <<>> THEN S
    ELSE SendEach(Send(S, e, n, Head(starts) \o rel), e, n, Tail(starts), rel)

RECURSIVE AddLoop(_, _, _)
AddLoop(S, q, starts) ==
    IF q = <<>> THEN S
    ELSE LET rel == Head(q)
             n == rel[Len(rel)]
             kids == S.v[n].c
         IN  AddLoop(SendEach(S, "added", n, starts, rel),
                     Tail(q) \o [i \in DOMAIN kids |-> Append(rel, kids[i])], starts)
SendAddTree(S, n, p) == AddLoop(S, << <<n>> >>, PathsOf(S.v, p))

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE RemLoop(_, _, _), RemEach(_, _, _, _)
RemLoop(S, rel, starts) ==
    LET n == rel[Len(rel)]
    IN  SendEach(RemEach(S, Rev(S.v[n].c), rel, starts), "deleted", n, starts, rel)
RemEach(S, kids, rel, starts) ==
    IF kids = <<>> THEN S
    ELSE RemEach(RemLoop(S, Append(rel, Head(kids)), starts), Tail(kids), rel, starts)
SendRemoveTree(S, n, p) == RemLoop(S, <<n>>, PathsOf(S.v, p))

Err(S, e) == [S EXCEPT !.err = @ \cup {e}]

NewParents(S, X, n) ==
    LET s == IF Flat(X) \/ n \notin X.t.nodes THEN <<>>
             ELSE SelectSeq(X.t.par[n], LAMBDA p : p \in DOMAIN S.v /\ Should(X, p))
    IN  IF s = <<>> THEN <<TOP>> ELSE s
NewChildren(X, n) ==
    IF Flat(X) \/ n \notin X.t.nodes THEN <<>>
    ELSE SelectSeq(X.t.ch[n], LAMBDA c : Should(X, c))

InOrder(X, s) == SelectSeq(X.perm, LAMBDA x : x \in s)

RECURSIVE Update(_, _, _, _, _), UpdateAll(_, _, _, _, _), UpdateMissing(_, _, _, _, _),
          UpdateHidden(_, _, _, _, _), Leave(_, _, _), Join(_, _, _), Detach(_, _, _)

(* update each of the nodes of s *)
UpdateAll(S, X, s, dir, d) ==
    IF s = <<>> THEN S ELSE UpdateAll(Update(S, X, Head(s), dir, d), X, Tail(s), dir, d)
(* the parents of n of which the view does not know yet *)
UpdateHidden(S, X, s, n, d) ==
    IF s[1] = <<>> THEN S
    ELSE LET p == Head(s[1])
             S1 == IF Has(s[2], p) \/ (n \in DOMAIN S.v /\ Has(S.v[n].p, p)) THEN S
                   ELSE Update(S, X, p, "up", d)
         IN  UpdateHidden(S1, X, <<Tail(s[1]), s[2]>>, n, d)
(* the children of n which are not shown below it yet *)
UpdateMissing(S, X, s, n, d) ==
    IF s = <<>> THEN S
    ELSE UpdateMissing(IF n \in DOMAIN S.v /\ Has(S.v[n].c, Head(s)) THEN S
                       ELSE Update(S, X, Head(s), "down", d), X, Tail(s), n, d)
Leave(S, n, s) ==
    IF s = <<>> THEN S
    ELSE LET p == Head(s)
             S1 == [S EXCEPT !.v[n].p = Without(@, p)]
             S2 == SendRemoveTree(S1, n, p)
         IN  Leave([S2 EXCEPT !.v[p].c = Without(@, n)], n, Tail(s))
Join(S, n, s) ==
    IF s = <<>> THEN S
    ELSE LET p == Head(s)
         IN  IF p \notin DOMAIN S.v THEN Err(S, "parent not in the view")
             ELSE LET S1 == [S EXCEPT !.v[p].c = Append(@, n), !.v[n].p = Append(@, p)]
                  IN  Join(SendAddTree(S1, n, p), n, Tail(s))
Detach(S, n, kids) ==
    IF kids = <<>> THEN S
    ELSE LET c == Head(kids)
             S1 == SendRemoveTree(S, c, n)
         IN  Detach([S1 EXCEPT !.v[c].p = Without(@, n)], n, Tail(kids))

Update(S, X, n, dir, d) ==
    LET cur == n \in DOMAIN S.v
        new == Should(X, n)
        tparents == IF n \in X.t.nodes THEN X.t.par[n] ELSE <<>>
    IN
    IF n = TOP \/ S.err # {} THEN S
    ELSE IF d = 0 THEN Err(S, "recursion")
    ELSE IF ~cur /\ ~new THEN UpdateAll(S, X, tparents, "up", d - 1)
    ELSE IF new THEN
        LET added == ~cur
            S1 == IF added THEN [S EXCEPT !.v = @ @@ (n :> [p |-> <<>>, c |-> <<>>])] ELSE S
            S2 == IF added \/ dir # "down"
                  THEN UpdateHidden(S1, X, <<tparents, NewParents(S1, X, n)>>, n, d - 1) ELSE S1
            now == Rng(S2.v[n].p)
            np == NewParents(S2, X, n)
            rem == InOrder(X, now \ Rng(np))
            join == InOrder(X, Rng(np) \ now)
            stay == InOrder(X, Rng(np) \cap now)
            dir2 == IF dir = "down" /\ TOP \in Rng(join) THEN "both" ELSE dir
            S3 == Join(Leave(S2, n, rem), n, join)
            S4 == [S3 EXCEPT !.v[n].p = SelectSeq(np, LAMBDA p : p \in DOMAIN S3.v)]
            S5 == IF dir2 = "down" \/ S4.err # {} THEN S4
                  ELSE UpdateAll(S4, X, rem \o join \o stay, "up", d - 1)
            ps == PathsOf(S5.v, n)
            S6 == IF added THEN S5
                  ELSE SendEach(S5, "modified", n, ps, <<>>)
        IN  IF n \notin DOMAIN S2.v THEN Err(S2, "the node disappeared")
            ELSE IF S5.err # {} THEN S5
            ELSE IF n \notin DOMAIN S6.v THEN Err(S6, "the node disappeared")
            ELSE IF dir2 # "up" \/ added THEN UpdateMissing(S6, X, NewChildren(X, n), n, d - 1)
            ELSE S6
    ELSE
        LET paths == PathsOf(S.v, n)
            kids == Rev(S.v[n].c)
            S1 == Detach(S, n, kids)
            old == S1.v[n].p
            S2 == [S1 EXCEPT !.v = [x \in DOMAIN S1.v \ {n} |->
                       IF Has(old, x) THEN [S1.v[x] EXCEPT !.c = Without(@, n)] ELSE S1.v[x]]]
            S3 == SendEach(S2, "deleted", n, paths, <<>>)
            S4 == UpdateAll(S3, X, kids, "down", d - 1)
            S5 == UpdateAll(S4, X, old, "up", d - 1)
        IN  UpdateAll(S5, X, SelectSeq(tparents, LAMBDA p : ~Has(old, p)), "up", d - 1)

DEPTH == 40
Modified(S, X, n) == Update(S, X, n, "both", DEPTH)

(* all rows are told to go, then the nodes are shown again, level by level *)
RECURSIVE ClearAll(_, _), Rebuild(_, _, _)
ClearAll(S, s) == IF s = <<>> THEN S ELSE ClearAll(SendRemoveTree(S, Head(s), TOP), Tail(s))
Rebuild(S, X, q) ==
    IF q = <<>> THEN S
    ELSE Rebuild(Modified(S, X, Head(q)), X, Tail(q) \o X.t.ch[Head(q)])
NoRows == TOP :> [p |-> <<>>, c |-> <<>>]
Refilter(S, X) ==
    Rebuild([ClearAll(S, Rev(S.v[TOP].c)) EXCEPT !.v = NoRows], X, X.t.root)

-----------------------------------------------------------------------------
(* the requests, with the states in which they are announced; R: s, t      *)
Join2(t, p, c) == [t EXCEPT !.ch[p] = AddTo(@, c), !.par[c] = AddTo(@, p), !.root = Without(@, c)]
Split2(t, p, c) == [t EXCEPT !.ch[p] = Without(@, c), !.par[c] = Without(@, p)]
OrRoot(t, c) == IF t.par[c] = <<>> THEN [t EXCEPT !.root = AddTo(@, c)] ELSE t
At(t) == [t |-> t, kind |-> kind, ok |-> ok, perm |-> perm]
Start == [v |-> v, ev |-> <<>>, err |-> {}]
Tell(R, n) == [R EXCEPT !.s = Modified(R.s, At(R.t), n)]
Become(R, t) == [R EXCEPT !.t = t]

ReqAddNode(n, p) ==
    LET t1 == [T EXCEPT !.nodes = @ \cup {n}]
        t2 == IF p = NONE THEN [t1 EXCEPT !.root = Append(@, n)] ELSE Join2(t1, p, n)
    IN  Tell([s |-> Start, t |-> t2], n)
ReqRelate(p, c) == Tell(Tell([s |-> Start, t |-> Join2(T, p, c)], p), c)
ReqBreak(p, c) == Tell(Tell([s |-> Start, t |-> OrRoot(Split2(T, p, c), c)], p), c)

RECURSIVE DelNode(_, _, _), DelParents(_, _, _), DelChildren(_, _, _, _)
DelParents(R, n, s) ==
    IF s = <<>> THEN R
    ELSE DelParents(Tell(Become(R, Split2(R.t, Head(s), n)), Head(s)), n, Tail(s))
DelChildren(R, n, s, rec) ==
    IF s = <<>> THEN R
    ELSE LET c == Head(s)
             R1 == IF rec THEN DelNode(R, c, TRUE)
                   ELSE LET R2 == Tell(Become(R, Split2(R.t, n, c)), c)
                        IN  Become(R2, OrRoot(R2.t, c))
         IN  DelChildren(R1, n, Tail(s), rec)
DelNode(R, n, rec) ==
    IF n \notin R.t.nodes THEN R
    ELSE LET R1 == DelParents(R, n, R.t.par[n])
             R2 == DelChildren(R1, n, R1.t.ch[n], rec)
             R3 == Become(R2, [R2.t EXCEPT !.nodes = @ \ {n}, !.root = Without(@, n)])
         IN  Tell(R3, n)
ReqDelNode(n, rec) == DelNode([s |-> Start, t |-> T], n, rec)

-----------------------------------------------------------------------------
(* what has to hold afterwards *)
RECURSIVE Rows(_, _)
Rows(c, q) ==     \* the places of the view, level by level
    IF q = <<>> THEN <<>>
    ELSE LET p == Head(q)
             kids == c[IF p = <<>> THEN TOP ELSE p[Len(p)]].c
         IN  (IF p = <<>> THEN <<>> ELSE <<p>>) \o
             Rows(c, Tail(q) \o [i \in DOMAIN kids |-> Append(p, kids[i])])
Places(c) == Rows(c, << <<>> >>)

CacheFaults(X, c) ==
    (IF DOMAIN c # Shown(X) \cup {TOP} THEN {"cache.nodes"} ELSE
     UNION {
       (IF n # TOP /\ Rng(c[n].p) # SpecParents(X, n) THEN {"cache.parents"} ELSE {}) \cup
       (IF Rng(c[n].c) # {m \in DOMAIN c \ {TOP} : Has(c[m].p, n)} THEN {"cache.children"} ELSE {}) \cup
       (IF Cardinality(Rng(c[n].c)) # Len(c[n].c) \/ Cardinality(Rng(c[n].p)) # Len(c[n].p)
        THEN {"cache.twice"} ELSE {}) : n \in DOMAIN c})

ToldFaults(before, S) ==
    LET m == MirrorRun(Places(before), S.ev, {})
        place(p) == IF p = <<>> THEN TOP ELSE p[Len(p)]
    IN  m.bad \cup
        (IF Rng(m.m) # Rng(Places(S.v)) THEN {"told.places"} ELSE
         UNION {IF MirrorKids(m.m, p) # S.v[place(p)].c THEN {"told.order"} ELSE {} :
                p \in Rng(m.m) \cup {<<>>}})

(* the displayed ones of the announced nodes and of their ancestors are told *)
RECURSIVE Above(_, _)
Above(t, n) == {n} \cup UNION {Above(t, t.par[n][i]) : i \in DOMAIN t.par[n]}
AnnounceFaults(before, R, ns) ==
    LET X == At(R.t)
        must == UNION {Above(R.t, n) : n \in ns \cap R.t.nodes} \cap Shown(X)
    IN  UNION {IF \E p \in Rng(PathsOf(R.s.v, n)) :
                   ~\E i \in DOMAIN R.s.ev : R.s.ev[i].path = p /\ R.s.ev[i].e # "deleted"
               THEN {"announce"} ELSE {} : n \in must}

TreeFaults(t, spec) ==
    IF t.nodes # spec.nodes \/ t.root # spec.root \/
       \E n \in t.nodes : t.par[n] # spec.par[n] \/ t.ch[n] # spec.ch[n]
    THEN {"tree"} ELSE {}

(* the same tree for Larch *)
Whole(t) == [Empty(Ids) EXCEPT !.nodes = t.nodes, !.par = t.par, !.ch = t.ch, !.root = t.root,
                               !.obj = [n \in Ids |-> IF n \in t.nodes THEN "in" ELSE "det"]]

Finish(R, ns, spec) ==
    /\ T' = R.t
    /\ v' = R.s.v
    /\ fault' = R.s.err \cup CacheFaults(At(R.t), R.s.v) \cup ToldFaults(v, R.s)
                \cup AnnounceFaults(v, R, ns) \cup TreeFaults(R.t, spec)
    /\ UNCHANGED <<kind, perm>>

Filter(k) == CASE k = "own" -> "red" [] k = "flat" -> "flatred" [] k = "leaf" -> "redleaf"
                [] k = "some" -> "anyred" [] k = "none" -> "noreddesc"
News == LET q == CHOOSE q \in [1..Cardinality(Ids) -> Ids] : Rng(q) = Ids
        IN  [i \in DOMAIN q |-> [op |-> "new", n |-> q[i]]]

Init ==
    /\ T = [nodes |-> {}, par |-> [n \in Ids |-> <<>>], ch |-> [n \in Ids |-> <<>>], root |-> <<>>]
    /\ ok = {} /\ kind \in Kinds
    /\ v = NoRows
    \* every state has its like under each renaming of the nodes: one order of
    \* the nodes stands for all
    /\ perm = Append(CHOOSE f \in [1..Cardinality(Ids) -> Ids] : Cardinality(Rng(f)) = Cardinality(Ids), TOP)
    /\ fault = {}
    /\ hist = News \o <<[op |-> "view", rec |-> TRUE, refresh |-> TRUE],
                        [op |-> "apply", v |-> "v0", f |-> Filter(kind), refresh |-> TRUE]>>

Called2(o) ==
    /\ hist' = IF Emit THEN Append(hist, o) ELSE hist
    /\ IF Emit THEN PrintT("EDGE|" \o ToJson(hist')) ELSE TRUE

NEdges(t) == Cardinality({e \in Ids \X Ids : Has(t.par[e[2]], e[1])})
Next ==
    /\ fault = {}
    /\ \/ /\ "add" \in Ops
          /\ \E n \in Ids \ T.nodes, p \in T.nodes \cup {NONE} :
                /\ p = NONE \/ NEdges(T) < MaxEdges
                /\ Finish(ReqAddNode(n, p), {}, Exec(Whole(T), ReqAdd(n, p, "low")).t)
                /\ Called2([op |-> "add", n |-> n, p |-> p])
          /\ UNCHANGED ok
       \/ /\ "relate" \in Ops
          /\ \E p \in T.nodes, c \in T.nodes :
                /\ NEdges(T) < MaxEdges /\ ~Has(T.par[c], p) /\ c \notin Above(T, p)
                /\ Finish(ReqRelate(p, c), {p, c}, Exec(Whole(T), ReqNew(p, c)).t)
                /\ Called2([op |-> "addpar", n |-> c, p |-> p])
          /\ UNCHANGED ok
       \/ /\ "break" \in Ops
          /\ \E c \in T.nodes : \E p \in Rng(T.par[c]) :
                /\ Finish(ReqBreak(p, c), {p, c}, Exec(Whole(T), ReqBrk(p, c)).t)
                /\ Called2([op |-> "nremp", n |-> c, p |-> p])
          /\ UNCHANGED ok
       \/ /\ "del" \in Ops
          /\ \E n \in T.nodes, rec \in BOOLEAN :
                /\ Finish(ReqDelNode(n, rec), {}, Exec(Whole(T), ReqDel(n, rec)).t)
                /\ Called2([op |-> "del", n |-> n, rec |-> rec])
          /\ UNCHANGED ok
       \/ /\ "data" \in Ops        \* the data of a node changes and it is announced
          /\ \E n \in T.nodes :
                /\ ok' = (ok \ {n}) \cup ({n} \ ok)
                /\ LET X == [At(T) EXCEPT !.ok = ok']
                       R == [s |-> Modified(Start, X, n), t |-> T]
                   IN  /\ v' = R.s.v /\ UNCHANGED <<T, kind, perm>>
                       /\ fault' = R.s.err \cup CacheFaults(X, R.s.v) \cup ToldFaults(v, R.s)
                /\ Called2([op |-> "col", n |-> n, col |-> IF n \in ok THEN <<>> ELSE <<"red">>])
       \/ /\ "ref" \in Ops
          /\ \E n \in T.nodes :
                /\ Finish(Tell([s |-> Start, t |-> T], n), {n}, Whole(T))
                /\ Called2([op |-> "ref", n |-> n])
          /\ UNCHANGED ok
       \/ /\ "apply" \in Ops       \* another filter instead
          /\ \E k \in Kinds :
                /\ kind' = k
                /\ LET X == [At(T) EXCEPT !.kind = k]
                       S == Refilter(Start, X)
                   IN  /\ v' = S.v /\ UNCHANGED <<T, ok, perm>>
                       /\ fault' = S.err \cup CacheFaults(X, S.v) \cup ToldFaults(v, S)
                /\ Called2([op |-> "apply", v |-> "v0", f |-> Filter(k), reset |-> TRUE, refresh |-> TRUE])
Spec == Init /\ [][Next]_vars

Inv == fault = {}
=============================================================================
