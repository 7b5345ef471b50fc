----------------------------- MODULE LarchTrace -----------------------------
(***************************************************************************)
(* Judges executions recorded from the real code against Larch.            *)
(*                                                                         *)
(* The file named by the environment variable TRACES holds a JSON list of  *)
(* traces [ids, filters, lines].  Every trace is one behaviour of this     *)
(* specification: each line is consumed by applying the operation of Larch *)
(* to the state of the specification and comparing outcome, notifications  *)
(* and observed state with it.  The verdict is total: a line which the     *)
(* specification does not allow yields the names of the violated clauses   *)
(* ("BAD|trace|line|clauses"), and each trace ends with "DONE|trace|lines";*)
(* a trace without DONE is a failure of the machinery, not a verdict.      *)
(***************************************************************************)
EXTENDS LarchWidget, Json, IOUtils, Integers

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, i, st
vars == <<tr, i, st>>

If(c, s) == IF c THEN {s} ELSE {}
Last(s) == s[Len(s)]
Pick(s, P(_)) == SelectSeq(s, P)

TreeOps == {"new", "add", "dupadd", "del", "move", "addpar", "nset", "naddp",
            "nremp", "naddc", "setpe", "setce", "col", "ref", "refall", "drop"}

-----------------------------------------------------------------------------
(* Entries of an observation as functions *)
Ent(es, x) == es[CHOOSE k \in DOMAIN es : es[k].id = x]
EntIds(es) == {es[k].id : k \in DOMAIN es}

(* The observed tree as a state of Larch; what cannot be observed is taken *)
(* from the specification                                                  *)
Observed(T, obs) ==
    LET es == obs.nodes
        seen == EntIds(es) \cup Rng(obs.root)
                \cup UNION {Rng(es[k].par) \cup Rng(es[k].ch) : k \in DOMAIN es}
        ids == T.ids \cup seen
    IN  [T EXCEPT !.ids = ids,
                  !.nodes = EntIds(es),
                  !.par = [x \in ids |-> IF x \in EntIds(es) THEN Ent(es, x).par ELSE <<>>],
                  !.ch  = [x \in ids |-> IF x \in EntIds(es) THEN Ent(es, x).ch ELSE <<>>],
                  !.root = obs.root,
                  !.col = [x \in ids |-> IF x \in EntIds(es) THEN Rng(Ent(es, x).col)
                                         ELSE IF x \in T.ids THEN T.col[x] ELSE {}],
                  !.obj = [x \in ids |-> IF x \in EntIds(es) THEN "in"
                                         ELSE IF x \notin T.ids THEN "no"
                                         ELSE IF T.obj[x] = "in" THEN "out" ELSE T.obj[x]],
                  !.loc = [x \in ids |-> IF x \in T.ids /\ x \notin EntIds(es) THEN T.loc[x] ELSE <<>>],
                  !.pe  = [x \in ids |-> IF x \in T.ids THEN T.pe[x] ELSE TRUE],
                  !.ce  = [x \in ids |-> IF x \in T.ids THEN T.ce[x] ELSE TRUE]]

InvFaults(To) ==
    If(~Symmetric(To), "inv.sym") \cup
    If(~DupFree(To), "inv.dup") \cup If(~OnlyExisting(To), "inv.exist") \cup
    If(~RootIffOrphan(To), "inv.root") \cup If(~Acyclic(To), "inv.cycle")

TreeFaults(T, To, obs) ==
    LET vis == T.nodes \cap To.nodes
    IN  If(To.nodes # T.nodes \/ Rng(obs.has) # T.nodes, "tree.nodes") \cup
        If(\E n \in vis : Rng(To.par[n]) # Rng(GetParents(T, n)), "tree.parents") \cup
        If(\E n \in vis : Rng(To.ch[n]) # Rng(GetChildren(T, n)), "tree.children") \cup
        If(Rng(To.root) # Rng(T.root), "tree.root") \cup
        If(~T.taint /\
           (\/ Rng(To.root) = Rng(T.root) /\ To.root # T.root
            \/ \E n \in vis : Rng(To.ch[n]) = Rng(GetChildren(T, n)) /\ To.ch[n] # GetChildren(T, n)),
           "tree.order") \cup
        If(\E n \in vis : To.col[n] # T.col[n], "tree.data")

-----------------------------------------------------------------------------
(* Coherence of the queries of one observed view (C08).  Everything here   *)
(* is relative to what the view itself reports.                            *)
VParR(ov) == [x \in EntIds(ov.nodes) |-> SelectSeq(Ent(ov.nodes, x).par, LAMBDA y : y \in EntIds(ov.nodes))]
VAcyclic(ov) == LET R == VParR(ov) IN \A x \in DOMAIN R : x \notin Closure(R, Rng(R[x]))
RECURSIVE OPaths(_, _)
OPaths(R, x) == IF R[x] = <<>> THEN {<<x>>}
                ELSE UNION {{Append(q, x) : q \in OPaths(R, p)} : p \in Rng(R[x])}
RECURSIVE SumSeq(_, _)
RECURSIVE RecCount(_, _)
SumSeq(ov, s) == IF s = <<>> THEN 0 ELSE 1 + RecCount(ov, Head(s)) + SumSeq(ov, Tail(s))
RecCount(ov, x) == SumSeq(ov, Ent(ov.nodes, x).ch)
NextIn(s, x) == LET k == CHOOSE j \in DOMAIN s : s[j] = x
                IN  IF k < Len(s) THEN s[k + 1] ELSE NONE

(* the lines of the printed form of a view *)
RECURSIVE Printed(_, _, _)
Printed(ov, s, d) ==
    IF s = <<>> THEN <<>>
    ELSE <<<<d, Head(s)>>>> \o Printed(ov, Ent(ov.nodes, Head(s)).ch, d + 1) \o Printed(ov, Tail(s), d)

QueryFaults(ov, isMain, F, To) ==
    LET es == ov.nodes
        D == EntIds(es)
        closed == \A x \in D : Rng(Ent(es, x).par) \cup Rng(Ent(es, x).ch) \subseteq D
        ok == closed /\ VAcyclic(ov) /\ Rng(ov.top) \subseteq D
        sym == \A x, y \in D : Has(Ent(es, x).ch, y) <=> Has(Ent(es, y).par, x)
        topok == Rng(ov.top) = {x \in D : Ent(es, x).par = <<>>}
        shape == ok /\ sym /\ topok
        R == VParR(ov)
        Sibs(x, p) == IF p = NONE THEN ov.top ELSE Ent(es, p).ch
        NextOk(e, pr) ==
            IF pr[1] # NONE THEN pr[2] = NextIn(Ent(es, pr[1]).ch, e.id)
            ELSE IF e.par = <<>> THEN pr[2] = NextIn(ov.top, e.id)
            ELSE \E p \in Rng(e.par) : pr[2] = NextIn(Ent(es, p).ch, e.id)
    IN  If(~NoDup(ov.all) \/ Rng(ov.isd) # Rng(ov.all), "q.members") \cup
        If(~shape, "q.shape") \cup
        If(\E k \in DOMAIN es : ~NoDup(es[k].par) \/ ~NoDup(es[k].ch) \/ ~NoDup(es[k].paths), "q.dup") \cup
        If(shape /\ \E k \in DOMAIN es : Rng(es[k].paths) # OPaths(R, es[k].id), "q.paths") \cup
        (IF ~ov.full THEN {} ELSE
         If(ov.n # Len(ov.all) \/ Rng(ov.gn) # Rng(ov.all) \/ Len(ov.gn) # Len(ov.all), "q.count") \cup
         If(\E k \in DOMAIN es : es[k].gn # es[k].id, "q.getnode") \cup
         If(\E k \in DOMAIN es : es[k].hc # (es[k].ch # <<>>) \/ es[k].hp # (es[k].par # <<>>), "q.has") \cup
         If(\E k \in DOMAIN es : es[k].nc # Len(es[k].ch), "q.nchildren") \cup
         If(shape /\ \E k \in DOMAIN es : es[k].ncr # RecCount(ov, es[k].id), "q.nrecursive") \cup
         If(\E k \in DOMAIN es : es[k].nth # es[k].ch, "q.nth") \cup
         If(shape /\ \E k \in DOMAIN es : \E j \in DOMAIN es[k].nxt : ~NextOk(es[k], es[k].nxt[j]), "q.next") \cup
         If(\E k \in DOMAIN es : \E j \in DOMAIN es[k].probe :
               es[k].probe[j].r # (IF Has(es[k].paths, es[k].probe[j].path) THEN es[k].id ELSE NONE), "q.path2node") \cup
         If(ov.ntop # Len(ov.top) \/ ov.nthtop # ov.top \/ ov.hct # (ov.top # <<>>), "q.top") \cup
         If(shape /\ ov.ntopr # SumSeq(ov, ov.top), "q.nrecursive") \cup
         If(shape /\ ov.pr # Printed(ov, ov.top, 1), "node.printed") \cup
         If(ov.miss # <<>>, "q.path2node") \cup
         \* nothing is told about a node or a position which is not there
         If(\E k \in DOMAIN ov.absent : ov.absent[k][3] \notin {"raise", "none", "empty", "0", "False", "[()]"}, "q.absent") \cup
         If(Rng(ov.root) # {"[()]"}, "q.root") \cup
         If(\E k \in DOMAIN ov.wf :
               LET w == ov.wf[k]
                   S == {x \in Rng(ov.all) \cap To.nodes : \A j \in DOMAIN w.fs : Accept(To, F[w.fs[j]], x)}
               IN  w.n # Cardinality(S) \/ Rng(w.ns) # S \/ Len(w.ns) # Cardinality(S), "filt.with"))

-----------------------------------------------------------------------------
(* What a node tells about its relations (C20), and the printed form of a  *)
(* tree: one line for each place, below the line of its parent's place     *)
NodeFaults(e, par, ch, T, in) ==
    If(e.self # e.id \/ (in /\ ~e.tree), "node.id") \cup
    If(e.par # par \/ e.ch # ch, "node.lists") \cup
    If(e.hp # (par # <<>>) \/ e.hc # (ch # <<>>), "node.has") \cup
    If(Rng(e.hpx) # Rng(par) \/ Rng(e.hcx) # Rng(ch), "node.hasthis") \cup
    If(e.nc # Len(ch) \/ e.nth # ch, "node.count") \cup
    If(Rng(e.idx) # {<<ch[k], k - 1>> : k \in DOMAIN ch}, "node.index") \cup
    If(e.pe # T.pe[e.id] \/ e.ce # T.ce[e.id], "node.flags")
NodesFaults(obs, To, T) ==
    UNION {LET e == obs.nq[k] IN
           IF e.id \notin To.nodes THEN {"node.id"}
           ELSE NodeFaults(e, To.par[e.id], To.ch[e.id], T, TRUE) : k \in DOMAIN obs.nq} \cup
    UNION {NodeFaults(obs.det[k], <<>>, <<>>, T, FALSE) : k \in DOMAIN obs.det}

-----------------------------------------------------------------------------
(* One view: contents, shape, mirror, announcements, GTK rows *)
EvOf(l, v) == SelectSeq(l.ev, LAMBDA e : e.v = v)

Announced(evs, paths) ==
    \A p \in paths : \E k \in DOMAIN evs : evs[k].path = p /\ evs[k].e \in {"added", "modified"}

ViewFaults(v, old, new, ov, l, To, F, quiet, must, syncop) ==
    LET D == Displayed(To, F, new.appl)
        flat == IsFlat(F, new.appl)
        es == ov.nodes
        Do == Rng(ov.all)
        decl == new.sync /\ quiet
        evs == EvOf(l, v)
        fresh == l.o.op \in {"state", "gtk"} /\ l.o.v = v
        mr == MirrorRun(IF fresh THEN <<>> ELSE old.mir, evs, {})
        opaths == UNION {Rng(es[k].paths) : k \in DOMAIN es}
        Kids(p) == IF p = <<>> THEN ov.top
                   ELSE IF Last(p) \in EntIds(es) THEN Ent(es, Last(p)).ch ELSE <<>>
        morder == /\ MirrorKids(mr.m, <<>>) = ov.top
                  /\ \A k \in DOMAIN mr.m : MirrorKids(mr.m, mr.m[k]) = Kids(mr.m[k])
        ann == decl /\ old.sync /\ old.quiet /\ syncop /\ new.conn /\ Do = D
        n == l.o.n
        refreshed == IF l.o.op \in {"ref", "col"} THEN {n} ELSE IF l.o.op = "refall" THEN Do ELSE {}
        PathsOf(x) == ViewPaths(To, Do, flat, x)
        stay == Do \cap old.D
        anc == UNION {ViewAncestors(To, Do, flat, x) : x \in refreshed \cap stay}
        rp == [k \in DOMAIN ov.rows |-> ov.rows[k].path]
        RowKids(p) == MirrorKids(rp, p)
    IN
    (IF ~decl THEN {} ELSE
        If(Do # D, "view.disp") \cup
        (IF ~(Do \subseteq To.nodes) THEN {} ELSE
         If(\E k \in DOMAIN es : Rng(es[k].par) # ViewParents(To, Do, flat, es[k].id), "view.par") \cup
         If(Rng(ov.top) # ViewTop(To, Do, flat), "view.top") \cup
         If(\E k \in DOMAIN es : Rng(es[k].ch) #
               {c \in Do : es[k].id \in ViewParents(To, Do, flat, c)}, "view.children") \cup
         If(\E k \in DOMAIN es : Rng(es[k].paths) # PathsOf(es[k].id), "view.paths"))) \cup
    If(ov.appl # new.appl, "filt.applied") \cup
    (IF new.conn THEN
        mr.bad \cup
        If(Rng(mr.m) # opaths, "mir.final") \cup
        If(Rng(mr.m) = opaths /\ ~morder, "mir.order") \cup
        If(\E k \in DOMAIN evs : evs[k].e # "deleted" /\ ~evs[k].d, "mir.hidden")
     ELSE {}) \cup
    (IF ann THEN
        If(\E x \in refreshed \cap stay : ~Announced(evs, PathsOf(x)), "mod.self") \cup
        If(\E x \in anc \cap stay : ~Announced(evs, PathsOf(x)), "mod.ancestor") \cup
        If(\E x \in must \cap stay : ~Announced(evs, PathsOf(x)), "mod.relation")
     ELSE {}) \cup
    (IF ov.gtk THEN
        If(Rng(rp) # opaths \/ ~NoDup(rp), "gtk.rows") \cup
        If(~ov.sorted /\ Rng(rp) = opaths /\ NoDup(rp) /\
           (RowKids(<<>>) # ov.top \/ \E k \in DOMAIN rp : RowKids(rp[k]) # Kids(rp[k])), "gtk.order") \cup
        If(quiet /\ \E k \in DOMAIN rp : Last(rp[k]) \in To.nodes /\
              Rng(ov.rows[k].val) # Visible(To, Last(rp[k])), "gtk.values")
     ELSE {}) \cup
    If(/\ evs # <<>>
       /\ \/ l.o.op \in FilterOps /\ l.o.v # v
          \/ l.o.op \in {"act", "reg", "dereg", "capply", "cunapply", "count", "cunreg", "creg", "conce", "addfilt", "remfilt",
                        "wsort", "wsel", "fold", "unfold", "colfun"}
          \/ l.o.op = "view" /\ l.ret # v
          \/ l.o.op \in {"gtk", "state"} /\ l.o.v # v,
       "iso.events") \cup
    If(l.o.op \in FilterOps /\ l.o.v # v /\ Rng(ov.all) # old.D, "iso.changed")

-----------------------------------------------------------------------------
\* once: listeners which unregister themselves when they are called
CounterFaults(c, old, new, seen, once, n, To, F, quiet) ==
    If(\E k \in DOMAIN once : once[k].on /\ ~old.born /\ n # old.n /\ once[k].n = 0, "cnt.listener") \cup
    If(\E k \in DOMAIN once : once[k].n > (IF once[k].on THEN 1 ELSE 0), "cnt.unregistered") \cup
    If(new.sync /\ quiet /\ n # Count(To, F, new.appl), "cnt.number") \cup
    If(new.on /\ ~old.born /\ n # old.n /\ (seen = <<>> \/ Last(seen) # n), "cnt.listener") \cup
    If(new.on /\ seen # <<>> /\ Last(seen) # n, "cnt.listener") \cup
    If(~new.on /\ seen # <<>>, "cnt.unregistered")

-----------------------------------------------------------------------------
(* Signals of the main view *)
Times(l, e, n) == Cardinality({k \in DOMAIN l.ev : l.ev[k].v = "main" /\ l.ev[k].e = e /\ l.ev[k].n = n})
SignalFaults(l, Told, To, must, concerned, isDrain) ==
    LET In(T, n) == IF n \in T.nodes THEN 1 ELSE 0
        ns == Told.ids \cup To.ids
    IN  If(\E n \in ns : Times(l, "added", n) - Times(l, "deleted", n) # In(To, n) - In(Told, n), "sig.inout") \cup
        If(~isDrain /\ \E n \in ns : Times(l, "added", n) + Times(l, "deleted", n) > 1, "sig.twice") \cup
        If(~isDrain /\ \E n \in must : Times(l, "modified", n) = 0, "sig.modified") \cup
        If(isDrain /\ \E n \in must \cap To.nodes \cap Told.nodes : Times(l, "modified", n) = 0, "sig.modified") \cup
        If(~isDrain /\ \E k \in DOMAIN l.ev : l.ev[k].v = "main" /\ l.ev[k].n \notin concerned, "sig.other") \cup
        If(\E k \in DOMAIN l.ev : l.ev[k].v = "main" /\ l.ev[k].d # (l.ev[k].e # "deleted"), "sig.state")

-----------------------------------------------------------------------------
(* Actions queued for nodes: s.A is a set of [a, v, n, m, k, c]; the same    *)
(* action a can be queued several times                                    *)
ActFaults(s, l, obs, isPump) ==
    LET Shown(v) == LET k == CHOOSE k \in DOMAIN obs.views : obs.views[k].v = v
                    IN  Rng(obs.views[k].all)
        due == {x \in s.A : \/ isPump /\ x.m = "idle"
                            \/ x.m = "wait" /\ \/ x.n \in Shown(x.v)
                                               \/ \E k \in DOMAIN l.ev : l.ev[k].v = x.v /\ l.ev[k].e = "added" /\ l.ev[k].n = x.n}
        Runs(a) == Cardinality({k \in DOMAIN l.acts : l.acts[k].a = a})
        \* what the actions which ran (k-th call) queued: the node was displayed or not
        Ran(x) == {k \in DOMAIN l.acts : l.acts[k].a = x.a}
        next == {[a |-> x.a \o "+", v |-> x.v, n |-> x.n, c |-> FALSE, k |-> s.na * 1000 + x.k,
                  m |-> IF \A k \in Ran(x) : l.acts[k].ok THEN "idle" ELSE "wait"] :
                 x \in {x \in due : x.c /\ Ran(x) # {}}}
        now == IF isPump THEN {x \in next : x.m = "idle"} ELSE {}
        \* its node may have appeared before or after it was queued
        maybe == IF isPump THEN {x \in next \ now : \E k \in DOMAIN l.ev : l.ev[k].v = x.v /\ l.ev[k].e = "added" /\ l.ev[k].n = x.n} ELSE {}
        Maybe(a) == Cardinality({x \in maybe : x.a = a})
        Due(a) == Cardinality({x \in due \cup now : x.a = a})
        labels == {l.acts[k].a : k \in DOMAIN l.acts} \cup {x.a : x \in s.A \cup now}
    IN  [bad |-> If(\E a \in labels : Runs(a) < Due(a), "once.missing") \cup
                 If(\E a \in labels : Runs(a) > 0 /\ Due(a) + Maybe(a) = 0, "once.early") \cup
                 If(\E a \in labels : Runs(a) > Due(a) + Maybe(a) /\ Due(a) + Maybe(a) > 0, "once.twice") \cup
                 If(\E k \in DOMAIN l.acts : ~l.acts[k].ok /\ \E x \in s.A : x.a = l.acts[k].a /\ x.m = "wait"
                       /\ \A y \in s.A : y.a = x.a => y.m = "wait", "once.hidden"),
         left |-> (s.A \ due) \cup {x \in next \ now : x \notin maybe \/ Runs(x.a) <= Due(x.a)}]

-----------------------------------------------------------------------------
(* One line *)
Judge(s, l) ==
    LET o == l.o
        T == s.T
        tree == o.op \in TreeOps
        sync == o.th = "m"
        c == Call(T, o)
        r == IF o.op = "drop" THEN DropResult(T, l.w)
             ELSE IF tree THEN IF sync THEN RunSync(T, o) ELSE Result(c.t, "ok", {})
             ELSE IF o.op = "drain" THEN Drain(T, s.Q, {}) ELSE Result(T, "ok", {})
        Q2 == IF tree /\ ~sync THEN Enqueue(s.Q, c.reqs)
              ELSE IF o.op = "drain" THEN EmptyQ ELSE s.Q
        mainfilt == o.op \in FilterOps /\ o.v = "main"
        xout == IF mainfilt THEN "raise" ELSE r.out
        waiting == \/ o.op = "add" /\ \E q \in Rng(T.pend) \cup Rng(T.loc[o.n]) : o.n \in {q[1], q[2]}
                   \/ o.op \in {"addpar", "naddp", "nset", "move", "naddc"} /\ o.p # NONE
                      /\ (o.p \notin T.nodes \/ o.n \notin T.nodes)
                   \/ o.op = "add" /\ o.p # NONE /\ o.p \notin T.nodes
        circ == r.out = "raise"
                \/ (o.op = "add" /\ waiting /\ \E q \in Rng(T.pend) \cup Rng(T.loc[o.n]) :
                        q[1] # NONE /\ q[2] # NONE /\ q[1] \in r.t.nodes /\ q[2] \in r.t.nodes /\ ~Has(r.t.ch[q[1]], q[2]))
        names2 == NamesAfter(s, o, l.ret)
        cnames2 == CNamesAfter(s, o, l.ret)
        W2 == WidgetsAfter(s.W, o)
        xret == IF o.op \in {"move", "addpar"} THEN c.ret
                ELSE IF o.op = "wsort" THEN o.a \o (IF W2[o.v].desc THEN "-desc" ELSE "-asc")
                ELSE IF o.op = "colfun" THEN "True-False"
                ELSE ViewRet(s, o)
        G2 == ModelsAfter(s.G, o)
        bank2 == RegAfter(s, o)
        outbad == If(l.out = "hang", "hang") \cup
                  If(l.out = "raise" /\ xout # "raise" /\ ~s.lost, "exc.op") \cup
                  If(l.out # "raise" /\ xout = "raise" /\ ~s.lost, IF mainfilt THEN "filt.main" ELSE "circ.accepted") \cup
                  If(l.out = "ok" /\ xret # "-" /\ l.ret # xret /\ ~s.lost,
                     CASE o.op \in {"view", "count"} -> "name.identity"
                       [] o.op = "reg" -> "cb.key"
                       [] o.op = "wsort" -> "wid.sort"
                       [] o.op = "colfun" -> "gtk.column"
                       [] o.op \in {"addfilt", "remfilt"} -> "filt.bank"
                       [] OTHER -> "tree.return") \cup
                  If(l.qx # <<>> /\ FlagsOk(r.t), "exc.query")
    IN
    IF (~tree /\ l.out = "raise" /\ xout # "raise") \/ l.out = "hang" THEN
       \* the operations on views and counters after a failed one would
       \* make no sense
       [bad |-> outbad, stop |-> TRUE, s |-> s]
    ELSE IF ~l.has THEN
       \* not observed: follow the specification and the notifications
       LET F2 == BankAfter(s, o)
           V2 == ViewsAfter(s, o, l.ret)
           C2 == CountersAfter(s, o, l.ret)
           Old(v) == IF v \in DOMAIN s.V THEN s.V[v].mir ELSE <<>>
           fresh(v) == o.op \in {"state", "gtk"} /\ o.v = v
           mr == [v \in DOMAIN V2 |->
                    MirrorRun(IF fresh(v) THEN <<>> ELSE Old(v), EvOf(l, v), {})]
           ran == {l.acts[k].a : k \in DOMAIN l.acts}
       IN
       [bad |-> outbad \cup UNION {IF V2[v].conn THEN mr[v].bad ELSE {} : v \in DOMAIN V2},
        stop |-> FALSE,
        s |-> [s EXCEPT
                 !.T = r.t, !.Q = Q2, !.F = F2, !.names = names2,
                 !.cnames = cnames2, !.bank = bank2, !.W = W2, !.G = G2,
                 !.C = [v \in DOMAIN C2 |-> [C2[v] EXCEPT !.born = TRUE]],
                 !.V = [v \in DOMAIN V2 |->
                          [V2[v] EXCEPT !.mir = IF @ = <<>> /\ ~V2[v].conn THEN <<>> ELSE mr[v].m,
                                        !.D = Displayed(r.t, F2, V2[v].appl),
                                        !.quiet = QEmpty(Q2) /\ FlagsOk(r.t)]],
                 !.A = {x \in @ : x.a \notin ran}]]
    ELSE
    LET obs == l.obs
        To == Observed(r.t, obs)
        flags == FlagsOk(r.t)
        inv == IF flags THEN InvFaults(To) ELSE {}
        tf == IF s.lost THEN {} ELSE TreeFaults(r.t, To, obs)
        \* an arrival which changed other relations than the requested one
        strange == /\ o.op = "add" /\ sync
                   /\ LET want == Edges(r.t)
                          got == Edges(To)
                      IN  ((want \cup got) \ (want \cap got)) \ {<<o.p, o.n>>} # {}
        treebad == tf \cup If(tf # {} /\ (waiting \/ strange), "pend.effect") \cup If(tf # {} /\ circ, "circ.effect")
                      \cup If(tf # {} /\ o.th = "w", "async.early") \cup If(tf # {} /\ o.op = "drain", "async.effect")
                      \cup If(tf # {} /\ o.op = "drop", "drop.effect")
                      \cup If(tf # {} /\ o.op \notin TreeOps /\ o.op # "drain", "tree.unrelated")
        quiet == QEmpty(Q2)
        F2 == BankAfter(s, o)
        V2 == ViewsAfter(s, o, l.ret)
        C2 == CountersAfter(s, o, l.ret)
        concerned == IF o.op = "refall" THEN To.ids \cup T.ids
                     ELSE {o.n, o.p} \cup r.must \cup {n \in T.ids : To.par[n] # T.par[n] \/ To.ch[n] # T.ch[n]
                                                          \/ (n \in To.nodes) # (n \in T.nodes)}
        actp == ActFaults(s, l, obs, o.op = "drain")
        OV(v) == obs.views[CHOOSE k \in DOMAIN obs.views : obs.views[k].v = v]
        OldV(v) == IF v \in DOMAIN s.V THEN s.V[v] ELSE [V2[v] EXCEPT !.mir = <<>>]
        OldC(v) == IF v \in DOMAIN s.C THEN s.C[v] ELSE C2[v]
        broken == inv # {}
        vf == [v \in DOMAIN V2 |->
                 IF broken THEN If(V2[v].conn, "skipped") \cap {"never"}
                 ELSE ViewFaults(v, OldV(v), V2[v], OV(v), l, To, F2, quiet /\ flags, r.must, sync /\ tree)
                      \cup QueryFaults(OV(v), FALSE, F2, To)]
        mf == IF broken \/ obs.main = <<>> \/ ~flags THEN {}
              ELSE LET ov == obs.main[1] IN
                   QueryFaults(ov, TRUE, F2, To) \cup
                   If(Rng(ov.all) # To.nodes \/ ov.top # To.root
                      \/ \E k \in DOMAIN ov.nodes :
                            IF ov.nodes[k].id \in To.ids
                            THEN ov.nodes[k].par # To.par[ov.nodes[k].id] \/ ov.nodes[k].ch # To.ch[ov.nodes[k].id]
                            ELSE TRUE, "q.main")
        SeenOf(v) == LET ks == {k \in DOMAIN l.cn : l.cn[k].v = v}
                     IN  l.cn[CHOOSE k \in ks : TRUE].seen
        OnceOf(v) == LET ks == {k \in DOMAIN l.cn : l.cn[k].v = v}
                     IN  l.cn[CHOOSE k \in ks : TRUE].once
        NumOf(v) == obs.counts[CHOOSE k \in DOMAIN obs.counts : obs.counts[k].v = v].n
        cf == UNION {CounterFaults(v, OldC(v), C2[v], SeenOf(v), OnceOf(v), NumOf(v), To, F2, quiet) : v \in DOMAIN C2}
        sf == IF tree \/ o.op = "drain"
              THEN SignalFaults(l, T, To, r.must, concerned, o.op = "drain" \/ s.lost)
              ELSE If(EvOf(l, "main") # <<>>, "sig.other")
        lf == If(\E k \in DOMAIN l.cb :
                    LET all == Cardinality({j \in DOMAIN l.ev : l.ev[j].v = l.cb[k].v /\ l.ev[j].e = l.cb[k].e})
                    IN  l.cb[k].n # (IF ~l.cb[k].on THEN 0
                                     ELSE IF l.cb[k].once /\ all > 1 THEN 1 ELSE all), "cb.count")
        wf == If(o.op = "drop" /\ l.w.calls # DropCalls(l.w), "drop.calls") \cup
              If(o.op = "drop" /\ l.w.scope # DropScope(l.w), "drop.scope") \cup
              (IF broken \/ ~quiet \/ ~flags THEN {}
               ELSE UNION {WidgetFaults(v, IF v \in DOMAIN s.W THEN s.W[v] ELSE W2[v], W2[v], OV(v), l, To,
                                        {l.ev[k].path : k \in {j \in DOMAIN l.ev : l.ev[j].v = v /\ l.ev[j].e = "deleted"}})
                           : v \in DOMAIN W2})
        gf == IF broken \/ ~quiet \/ ~flags THEN {}
              ELSE UNION {ColumnFaults(IF v \in DOMAIN s.G THEN s.G[v] ELSE G2[v], G2[v], OV(v),
                                       IF o.op = "gtk" /\ o.v = v THEN {OV(v).rows[k].path : k \in DOMAIN OV(v).rows}
                                       ELSE {l.ev[k].path : k \in {j \in DOMAIN l.ev : l.ev[j].v = v /\ l.ev[j].e # "deleted"}}, To)
                          : v \in DOMAIN G2}
        nf == IF broken \/ s.lost \/ tf # {} \/ ~flags THEN {} ELSE NodesFaults(obs, To, r.t)
        bf == If(Rng(obs.filters) # bank2, "filt.bank")
        bad == outbad \cup inv \cup treebad \cup UNION {vf[v] : v \in DOMAIN vf} \cup mf \cup cf \cup sf \cup lf \cup bf \cup nf \cup wf \cup gf \cup actp.bad
        lost == s.lost \/ tf # {} \/ (l.out = "raise") # (xout = "raise")
        mir2 == [v \in DOMAIN V2 |->
                   LET ov == OV(v)
                       fresh == o.op \in {"state", "gtk"} /\ o.v = v
                       m == MirrorRun(IF fresh THEN <<>> ELSE OldV(v).mir, EvOf(l, v), {}).m
                   IN  [V2[v] EXCEPT !.mir = IF V2[v].conn THEN m ELSE <<>>,
                                     !.D = Rng(ov.all), !.quiet = quiet /\ flags]]
        A2 == actp.left \cup
              (IF o.op = "act" THEN {[a |-> o.a, v |-> o.v, n |-> o.n,
                                      m |-> IF o.n \in s.V[o.v].D THEN "idle" ELSE "wait", k |-> s.na,
                                      c |-> o.e = "chain"]} ELSE {})
    IN  [bad  |-> bad,
         stop |-> broken \/ (o.op = "view" /\ l.ret # xret) \/ \E v \in DOMAIN vf : "q.shape" \in vf[v],
         s    |-> [T |-> IF lost THEN To ELSE [r.t EXCEPT !.root = IF r.t.taint THEN obs.root ELSE @,
                                                          !.ch = IF r.t.taint /\ flags THEN To.ch ELSE @],
                   Q |-> Q2, V |-> mir2,
                   G |-> [v \in DOMAIN G2 |-> [G2[v] EXCEPT !.val =
                             [p \in {OV(v).rows[k].path : k \in DOMAIN OV(v).rows} |->
                                OV(v).rows[CHOOSE k \in DOMAIN OV(v).rows : OV(v).rows[k].path = p].bg]]],
                   W |-> [v \in DOMAIN W2 |-> [W2[v] EXCEPT !.sel = Rng(OV(v).sel), !.open = Rng(OV(v).open)]],
                   C |-> [v \in DOMAIN C2 |-> [C2[v] EXCEPT !.n = NumOf(v), !.born = FALSE]],
                   A |-> A2, na |-> s.na + 1, F |-> F2, names |-> names2, cnames |-> cnames2, bank |-> bank2,
                   lost |-> lost]]

-----------------------------------------------------------------------------
FBank(fs) == [x \in {fs[k].name : k \in DOMAIN fs} |-> fs[CHOOSE k \in DOMAIN fs : fs[k].name = x]]
None == [x \in {} |-> {}]

Init == /\ tr \in 1..Len(Traces)
        /\ i = 0
        /\ st = [T |-> Empty(Rng(Traces[tr].ids)), Q |-> EmptyQ, V |-> None, C |-> None, W |-> None, G |-> None,
                 A |-> {}, na |-> 0,
                 F |-> FBank(Traces[tr].filters) @@ ("u1" :> Simple("nothing")) @@ ("u2" :> Simple("nothing")),
                 names |-> ("main" :> "main"), cnames |-> None,
                 bank |-> {Traces[tr].filters[k].name : k \in DOMAIN Traces[tr].filters},
                 lost |-> FALSE]

Next == LET ls == Traces[tr].lines IN
        \/ /\ i >= 0 /\ i < Len(ls)
           /\ LET j == Judge(st, ls[i + 1]) IN
              /\ (IF j.bad = {} THEN TRUE ELSE PrintT("BAD|" \o ToString(tr) \o "|" \o ToString(i + 1) \o "|" \o ToString(j.bad)))
              /\ (IF ~j.stop THEN TRUE ELSE PrintT("DONE|" \o ToString(tr) \o "|" \o ToString(i + 1) \o "|stopped"))
              /\ i' = IF j.stop THEN 0-1 ELSE i + 1
              /\ st' = j.s
              /\ tr' = tr
        \/ /\ i = Len(ls)
           /\ PrintT("DONE|" \o ToString(tr) \o "|" \o ToString(i) \o "|complete")
           /\ i' = 0-1 /\ UNCHANGED <<tr, st>>

Spec == Init /\ [][Next]_vars
=============================================================================
