------------------------------ MODULE Arrival ------------------------------
(***************************************************************************)
(* C04: the order in which nodes and relations arrive does not matter.     *)
(* For every set R of relations over Ids, declared once each from either   *)
(* side, and every interleaving with the additions of the nodes: the       *)
(* relations of the tree are always exactly the declared ones between      *)
(* nodes which are there (as long as the declared ones are acyclic).       *)
(***************************************************************************)
EXTENDS Larch, Json

CONSTANTS Ids, Emit, MaxRel, Cyclic

VARIABLES T, todo, said, under, hist
vars == <<T, todo, said, under, hist>>

O(k, n, p) == [op |-> k, n |-> n, p |-> p, rec |-> FALSE, col |-> <<>>, pri |-> "low"]
Pairs == {e \in Ids \X Ids : e[1] # e[2]}
GraphOk(R) ==
    LET f == [x \in Ids |-> {e[2] : e \in {y \in R : y[1] = x}}]
        RECURSIVE Reach(_)
        Reach(S) == LET S2 == S \cup UNION {f[x] : x \in S} IN IF S2 = S THEN S ELSE Reach(S2)
    IN  \A x \in Ids : x \notin Reach(f[x])

Objects == [Empty(Ids) EXCEPT !.obj = [x \in Ids |-> "det"]]
NewHist == LET s == CHOOSE s \in [1..Cardinality(Ids) -> Ids] : {s[k] : k \in DOMAIN s} = Ids
           IN  [k \in DOMAIN s |-> O("new", s[k], NONE)]

Init == /\ T = Objects
        /\ todo \in {R \in SUBSET Pairs : Cardinality(R) <= MaxRel /\ (Cyclic \/ GraphOk(R))}
        /\ said = {}
        /\ hist = NewHist
        /\ under \in BOOLEAN     \* may a node be added under one of its parents?

Do(o) == /\ T' = RunSync(T, o).t
         /\ hist' = IF Emit THEN Append(hist, o) ELSE hist
         /\ IF Emit THEN PrintT("EDGE|" \o ToJson(hist')) ELSE TRUE
         /\ UNCHANGED under
Declare1 == \E r \in todo :
    /\ todo' = todo \ {r} /\ said' = said \cup {r}
    /\ \/ Do(O("naddp", r[2], r[1]))
       \/ Do(O("naddc", r[1], r[2]))
Arrive == \E n \in Ids \ T.nodes :
    /\ T.obj[n] = "det"
    /\ \/ Do(O("add", n, NONE)) /\ UNCHANGED <<todo, said>>
       \/ \E r \in todo : /\ under /\ r[2] = n
                          /\ Do(O("add", n, r[1]))
                          /\ todo' = todo \ {r} /\ said' = said \cup {r}
Next == Declare1 \/ Arrive
Spec == Init /\ [][Next]_vars
View == <<T, todo, said, under>>

Present == {r \in said : r[1] \in T.nodes /\ r[2] \in T.nodes}
InvOrder == IF GraphOk(said) THEN Edges(T) = Present
            ELSE Edges(T) \subseteq Present
InvValid == Valid(T) /\ PendOk(T) /\ Absent(T)
(* a relation which is missing would be circular *)
InvDropped == \A r \in Present \ Edges(T) : Circular(T, r[1], r[2])
(* every node arrives unless its addition is refused *)
=============================================================================
