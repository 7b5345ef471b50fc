------------------------------ MODULE LarchMC ------------------------------
(***************************************************************************)
(* Exhaustive exploration of Larch for small sets of nodes, in the thread  *)
(* which created the tree.  The invariants state the properties            *)
(* independently of the definitions of the operations.  With Emit, every   *)
(* transition of the explored graph is printed as the sequence of          *)
(* operations leading to it, for replay on the implementation.             *)
(***************************************************************************)
EXTENDS Larch, Json

CONSTANTS Ids,       \* node ids
          Kinds,     \* kinds of operations explored
          Tags,      \* tags of nodes
          MaxPend,   \* bound on the number of waiting relations
          Emit,      \* print the transitions?
          Start      \* "empty" | "full": all nodes are there from the start

VARIABLES T, hist
vars == <<T, hist>>

O(k, n, p, rec, col) == [op |-> k, n |-> n, p |-> p, rec |-> rec, col |-> col, pri |-> "low"]
NSeq == <<>>
ColSeqs == {<<>>} \cup {<<t>> : t \in Tags}

OpsOf(k) ==
    CASE k \in {"new", "add", "move", "nset"} ->
            {O(k, n, p, FALSE, NSeq) : n \in Ids, p \in Ids \cup {NONE}}
      [] k \in {"addpar", "naddp", "nremp", "naddc"} ->
            {O(k, n, p, FALSE, NSeq) : n \in Ids, p \in Ids}
      [] k \in {"del", "setpe", "setce"} ->
            {O(k, n, NONE, b, NSeq) : n \in Ids, b \in BOOLEAN}
      [] k = "col" -> {O(k, n, NONE, FALSE, c) : n \in Ids, c \in ColSeqs}
      [] k \in {"ref", "dupadd"} -> {O(k, n, NONE, FALSE, NSeq) : n \in Ids}
Ops == UNION {OpsOf(k) : k \in Kinds}

(* not explored: declaring the same waiting relation twice, bounds *)
Within(t) == /\ ~t.taint
             /\ Len(t.pend) <= MaxPend
             /\ \A n \in Ids : Len(t.loc[n]) <= 1

Enabled(o) == /\ CanCall(T, o)
              /\ o.op = "new" => (o.p # o.n /\ T.obj[o.n] \in {"no", "out"})
              /\ Within(RunSync(T, o).t)

FullStart ==
    LET s == CHOOSE s \in [1..Cardinality(Ids) -> Ids] : {s[k] : k \in DOMAIN s} = Ids
    IN  [Empty(Ids) EXCEPT !.nodes = Ids, !.root = s,
                           !.obj = [x \in Ids |-> "in"]]
StartHist == IF Start = "empty" THEN <<>>
             ELSE LET s == FullStart.root
                  IN  [k \in 1..(2 * Len(s)) |->
                         IF k % 2 = 1 THEN O("new", s[(k + 1) \div 2], NONE, FALSE, NSeq)
                         ELSE O("add", s[k \div 2], NONE, FALSE, NSeq)]

Init == /\ T = IF Start = "empty" THEN Empty(Ids) ELSE FullStart
        /\ hist = StartHist

Next == \E o \in Ops :
           /\ Enabled(o)
           /\ T' = RunSync(T, o).t
           /\ hist' = IF Emit THEN Append(hist, o) ELSE hist
           /\ IF Emit THEN PrintT("EDGE|" \o ToJson(hist')) ELSE TRUE

Spec == Init /\ [][Next]_vars
View == T    \* the history is not part of the state

-----------------------------------------------------------------------------
(* C01 *)
InvValid == Valid(T)
InvWell  == Absent(T) /\ ObjOk(T) /\ PendOk(T) /\ FlagsOk(T) /\ LocOk(T)

Last1(s, x) == s # <<>> /\ s[Len(s)] = x
Sub(s, t) ==  \* s is t without some elements (same order)
    s = SelectSeq(t, LAMBDA x : Has(s, x))
After(o) == RunSync(T, o)
Same(t) == /\ t.nodes = T.nodes /\ t.par = T.par /\ t.ch = T.ch
           /\ t.root = T.root /\ t.pend = T.pend /\ t.col = T.col
Exist(o) == o.n \in T.nodes
Do == {o \in Ops : Enabled(o)}

(* C03: refused means nothing changed; a relation between existing nodes   *)
(* which accept it is refused exactly when it is circular                  *)
InvRefused == \A o \in Do : After(o).out = "raise" => Same(After(o).t)
InvCircular ==
    \A o \in Do : o.op \in {"addpar", "naddp", "move", "nset"} /\ Exist(o) /\ o.p \in T.nodes
                  /\ o.n # o.p /\ T.pe[o.n] /\ T.ce[o.p]
                  => (After(o).out = "raise" <=> o.p \in Down(T, o.n))

(* C02 *)
InvDel ==
    \A o \in Do : o.op = "del" /\ Exist(o) =>
        LET t == After(o).t
            D == IF o.rec THEN Down(T, o.n) ELSE {o.n}
        IN  /\ t.nodes = T.nodes \ D
            /\ Edges(t) = {e \in Edges(T) : e[1] \notin D /\ e[2] \notin D}
            /\ \A n \in t.nodes : t.ch[n] = SeqMinus(T.ch[n], D) /\ t.par[n] = SeqMinus(T.par[n], D)
            /\ Sub(SeqMinus(T.root, D), t.root)
            /\ \A n \in t.nodes : n \in Rng(t.root) /\ n \notin Rng(T.root) => Rng(T.par[n]) \subseteq D
            /\ t.col = T.col
InvAdd ==
    \A o \in Do : o.op = "add" =>
        LET r == After(o) IN
        IF Exist(o) THEN Same(r.t)
        ELSE r.out = "ok" =>
             /\ r.t.nodes = T.nodes \cup {o.n}
             /\ \A e \in Edges(T) : e \in Edges(r.t)
             /\ \A e \in Edges(r.t) \ Edges(T) : o.n \in {e[1], e[2]}
             /\ o.p \in T.nodes /\ T.ce[o.p] /\ T.pe[o.n] => Has(r.t.par[o.n], o.p)
             /\ o.p = NONE /\ T.pend = <<>> /\ T.loc[o.n] = <<>> => Last1(r.t.root, o.n)
InvMove ==
    \A o \in Do : o.op \in {"move", "nset"} /\ Exist(o) /\ After(o).out = "ok" /\ T.pe[o.n] /\ o.p # o.n =>
        LET t == After(o).t IN
        /\ t.nodes = T.nodes
        /\ {e \in Edges(t) : e[2] # o.n} = {e \in Edges(T) : e[2] # o.n}
        /\ o.p \in T.nodes => t.par[o.n] = (IF T.ce[o.p] THEN <<o.p>> ELSE T.par[o.n])
        /\ o.p \notin T.nodes => t.par[o.n] = <<>>
InvRelate ==
    \A o \in Do : o.op \in {"addpar", "naddp", "nremp", "naddc"} /\ Exist(o) =>
        LET t == After(o).t
            e == IF o.op = "naddc" THEN <<o.n, o.p>> ELSE <<o.p, o.n>>
        IN  /\ t.nodes = T.nodes
            /\ Edges(t) \ {e} = Edges(T) \ {e}
            /\ o.op = "nremp" => e \notin Edges(t)
            /\ o.op # "nremp" /\ e[1] # e[2] /\ e[1] \in T.nodes /\ e[2] \in T.nodes
               /\ T.ce[e[1]] /\ T.pe[e[2]] /\ After(o).out = "ok" => e \in Edges(t)
            /\ \A n \in t.nodes : Sub(T.ch[n], t.ch[n]) \/ Sub(t.ch[n], T.ch[n])
InvFlags ==
    \A o \in Do : o.op \in {"setpe", "setce"} /\ Exist(o) =>
        LET t == After(o).t
            gone == IF o.rec THEN {} ELSE {e \in Edges(T) : e[IF o.op = "setpe" THEN 2 ELSE 1] = o.n}
        IN  t.nodes = T.nodes /\ Edges(t) = Edges(T) \ gone

(* C04: no waiting relation stays behind; what was waiting took effect     *)
InvArrive ==
    \A o \in Do : o.op = "add" /\ ~Exist(o) /\ After(o).out = "ok" =>
        LET t == After(o).t IN
        \A r \in Rng(T.pend) \cup Rng(T.loc[o.n]) :
            o.n \in {r[1], r[2]} /\ {r[1], r[2]} \subseteq t.nodes =>
               /\ r \notin Rng(t.pend)
               /\ r \in Edges(t) \/ ~Allowed(t, r[1], r[2]) \/ Circular(t, r[1], r[2])

(* C05, C06, C07: for every set of displayed nodes, the places form a      *)
(* forest (every prefix of a place is a place), so that a mirror can be    *)
(* moved between any two states by single legal steps                      *)
InvPlaces ==
    \A D \in SUBSET T.nodes, flat \in BOOLEAN :
        LET P == AllPaths(T, D, flat) IN
        /\ \A p \in P : Rng(p) \subseteq D /\ (Len(p) > 1 => Front1(p) \in P)
        /\ \A n \in D : \E p \in P : p[Len(p)] = n
        /\ \A p \in P : Len(p) > 1 =>
              <<p[Len(p) - 1], p[Len(p)]>> \in Edges(T)
        /\ flat => \A p \in P : Len(p) = 1
        /\ D = T.nodes /\ ~flat => {p[1] : p \in P} = Rng(T.root)

(* what has to be announced is in the tree *)
InvMust == \A o \in Do : After(o).must \subseteq After(o).t.nodes
=============================================================================
