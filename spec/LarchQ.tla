------------------------------- MODULE LarchQ -------------------------------
(***************************************************************************)
(* The tree with requests from two threads: the thread which created it    *)
(* ("m"), whose requests are executed at once, and another one ("w"),      *)
(* whose requests are queued and executed one by one by the main loop.     *)
(* A call reads the tree when it is made and its requests are executed     *)
(* later, possibly on a tree which has changed in between.                 *)
(***************************************************************************)
EXTENDS Larch, Json

CONSTANTS Ids, Kinds, MainKinds, MaxQ, MaxPend,
          Emit    \* print the behaviours, for replay on the implementation
                  \* (where the main loop always runs until it is idle)

VARIABLES T, Q, fresh, hist
vars == <<T, Q, fresh, hist>>
View == <<T, Q, fresh>>

O(k, n, p, rec, pri) == [op |-> k, n |-> n, p |-> p, rec |-> rec, col |-> <<>>, pri |-> pri]
Th(o, th) == [op |-> o.op, n |-> o.n, p |-> o.p, rec |-> o.rec, col |-> o.col, pri |-> o.pri, th |-> th]
Plain(op, n) == Th(O(op, n, NONE, FALSE, "low"), "m")
DrainOp == Plain("drain", NONE)
Hist(o) == hist' = IF Emit THEN Append(hist, o) ELSE hist
PrintEdge == IF Emit THEN PrintT("EDGE|" \o ToJson(Append(hist', DrainOp))) ELSE TRUE
OpsOf(k) ==
    CASE k \in {"move", "nset"} -> {O(k, n, p, FALSE, "low") : n \in Ids, p \in Ids \cup {NONE}}
      [] k = "add" -> {O(k, n, p, FALSE, pri) : n \in Ids, p \in Ids \cup {NONE}, pri \in {"low", "high"}}
      [] k \in {"addpar", "naddp", "nremp", "naddc"} -> {O(k, n, p, FALSE, "low") : n \in Ids, p \in Ids}
      [] k \in {"del", "setpe", "setce"} -> {O(k, n, NONE, b, "low") : n \in Ids, b \in BOOLEAN}
      [] k = "ref" -> {O(k, n, NONE, FALSE, pri) : n \in Ids, pri \in {"low", "high"}}
Ops(K) == UNION {OpsOf(k) : k \in K}
QLen(q) == Len(q.high) + Len(q.normal) + Len(q.low)

Init == /\ T = [Empty(Ids) EXCEPT !.obj = [x \in Ids |-> "det"]]
        /\ Q = EmptyQ /\ fresh = TRUE
        /\ hist = LET s == CHOOSE s \in [1..Cardinality(Ids) -> Ids] : {s[k] : k \in DOMAIN s} = Ids
                  IN  [k \in DOMAIN s |-> Plain("new", s[k])]
Within(t) == ~t.taint /\ Len(t.pend) <= MaxPend /\ \A n \in Ids : Len(t.loc[n]) <= 1

MainCall == \E o \in Ops(MainKinds) :
    /\ CanCall(T, o)
    /\ T' = RunSync(T, o).t /\ Within(T')
    /\ UNCHANGED Q /\ fresh' = FALSE
    /\ Hist(Th(o, "m")) /\ (IF QEmpty(Q) THEN TRUE ELSE PrintEdge)
WorkCall == \E o \in Ops(Kinds) :
    /\ CanCall(T, o)
    /\ LET c == Call(T, o) IN
       /\ Q' = Enqueue(Q, c.reqs) /\ QLen(Q') <= MaxQ
       /\ T' = c.t /\ Within(T')
    /\ fresh' = FALSE
    /\ Hist(Th(o, "w")) /\ PrintEdge
LoopAll ==
    /\ Emit /\ ~QEmpty(Q)
    /\ T' = Drain(T, Q, {}).t /\ Q' = EmptyQ /\ Within(T') /\ fresh' = FALSE
    /\ Hist(DrainOp)
LoopStep ==
    /\ ~QEmpty(Q) /\ ~Emit /\ UNCHANGED hist
    /\ LET pri == NextPri(Q) IN
       /\ T' = Exec(T, Head(Q[pri])).t /\ Within(T')
       /\ Q' = [Q EXCEPT ![pri] = Tail(@)]
    /\ fresh' = FALSE
Next == MainCall \/ WorkCall \/ LoopStep \/ LoopAll
Spec == Init /\ [][Next]_vars /\ WF_vars(LoopStep)

InvValid == Symmetric(T) /\ Acyclic(T) /\ DupFree(T) /\ OnlyExisting(T)
            /\ RootIffOrphan(T) /\ Absent(T) /\ ObjOk(T) /\ LocOk(T)
(* no waiting request is in the queue of the same priority twice *)
InvQueue == NoDup(Q.high) /\ NoDup(Q.normal) /\ NoDup(Q.low)
(* issuing a request from the other thread never changes relations *)
Issue == \A o \in Ops(Kinds) : CanCall(T, o) =>
            LET t == Call(T, o).t IN t.nodes = T.nodes /\ t.par = T.par /\ t.ch = T.ch /\ t.root = T.root
(* a request which fails changes no relation and does not stop the others *)
Fail == \A pri \in {"high", "normal", "low"} : Q[pri] # <<>> =>
            LET r == Exec(T, Head(Q[pri])) IN
            r.out = "raise" => r.t.nodes = T.nodes /\ r.t.par = T.par /\ r.t.ch = T.ch /\ r.t.root = T.root
(* draining executes everything *)
Drained == Valid([Drain(T, Q, {}).t EXCEPT !.taint = FALSE])
=============================================================================
