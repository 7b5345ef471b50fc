----------------------------- MODULE SyncQueue -----------------------------
(***************************************************************************)
(* The queue of requests as implemented (processqueue.py): three lists, a  *)
(* lock, and an idle handler of the main loop which is installed by the    *)
(* first request and removed when the lists are empty.  Checked: it        *)
(* implements the abstract queue of Larch (Enqueue, NextPri), nothing is   *)
(* lost and everything issued is executed in the end, for every            *)
(* interleaving and with requests which fail.                              *)
(* Caught = FALSE describes the code before the repair 3a41cdf, where the  *)
(* exception of a request reaches GLib, which drops the handler: TLC then  *)
(* finds that requests are lost (see DESIGN.md).                           *)
(***************************************************************************)
EXTENDS Larch

CONSTANTS Workers, Plans, Failing, Caught

VARIABLES lists, lock, handler, source, pc, todo, cur, done, abs

vars == <<lists, lock, handler, source, pc, todo, cur, done, abs>>
(* lists    the three lists             lock     owner or "free"           *)
(* handler  the attribute _handler      source   the source exists in GLib *)
(* pc, todo of the workers; pc["main"]  cur      request being executed    *)
(* done     the executed requests       abs      abstract queue, and what  *)
(*          (in order)                           it expects next           *)

R(n, pri) == ReqMod(n, pri)
PlanSet == Plans

Init == /\ lists = EmptyQ /\ lock = "free" /\ handler = FALSE /\ source = FALSE
        /\ todo \in PlanSet
        /\ pc = [p \in Workers \cup {"main"} |-> "idle"]
        /\ cur = <<>> /\ done = <<>> /\ abs = EmptyQ

Acquire(w) == /\ pc[w] = "idle" /\ todo[w] # <<>> /\ lock = "free"
              /\ lock' = w /\ pc' = [pc EXCEPT ![w] = "locked"]
              /\ UNCHANGED <<lists, handler, source, todo, cur, done, abs>>
Append1(w) == /\ pc[w] = "locked"
              /\ LET r == Head(todo[w])
                     new == ~Has(lists[r.pri], r)
                 IN  /\ lists' = [lists EXCEPT ![r.pri] = AddTo(@, r)]
                     /\ abs' = Enqueue(abs, <<r>>)
                     /\ pc' = [pc EXCEPT ![w] = IF new THEN "appended" ELSE "leaving"]
              /\ UNCHANGED <<lock, handler, source, todo, cur, done>>
Install(w) == /\ pc[w] = "appended"
              /\ IF handler THEN UNCHANGED <<handler, source>>
                 ELSE handler' = TRUE /\ source' = TRUE
              /\ pc' = [pc EXCEPT ![w] = "leaving"]
              /\ UNCHANGED <<lists, lock, todo, cur, done, abs>>
Release(w) == /\ pc[w] = "leaving" /\ lock = w
              /\ lock' = "free" /\ pc' = [pc EXCEPT ![w] = "idle"]
              /\ todo' = [todo EXCEPT ![w] = Tail(@)]
              /\ UNCHANGED <<lists, handler, source, cur, done, abs>>

Fire == /\ pc["main"] = "idle" /\ source /\ lock = "free"
        /\ lock' = "main" /\ pc' = [pc EXCEPT !["main"] = "pop"]
        /\ UNCHANGED <<lists, handler, source, todo, cur, done, abs>>
Pop == /\ pc["main"] = "pop"
       /\ IF QEmpty(lists) THEN cur' = <<>> /\ UNCHANGED <<lists, abs>>
          ELSE LET pri == NextPri(lists) IN
               /\ cur' = <<Head(lists[pri])>>
               /\ lists' = [lists EXCEPT ![pri] = Tail(@)]
               /\ abs' = [abs EXCEPT ![NextPri(abs)] = Tail(@)]
       /\ pc' = [pc EXCEPT !["main"] = "check"]
       /\ UNCHANGED <<lock, handler, source, todo, done>>
Check == /\ pc["main"] = "check"
         /\ IF QEmpty(lists) /\ handler
            THEN handler' = FALSE /\ source' = FALSE ELSE UNCHANGED <<handler, source>>
         /\ lock' = "free"
         /\ pc' = [pc EXCEPT !["main"] = IF cur = <<>> THEN "idle" ELSE "exec"]
         /\ UNCHANGED <<lists, todo, cur, done, abs>>
ExecOne == /\ pc["main"] = "exec"
           /\ done' = Append(done, cur[1])
           /\ cur' = <<>> /\ pc' = [pc EXCEPT !["main"] = "idle"]
           /\ source' = IF cur[1].n \in Failing /\ ~Caught THEN FALSE ELSE source
           /\ UNCHANGED <<lists, lock, handler, todo, abs>>

Next == \/ \E w \in Workers : Acquire(w) \/ Append1(w) \/ Install(w) \/ Release(w)
        \/ Fire \/ Pop \/ Check \/ ExecOne
Fairness == /\ \A w \in Workers : SF_vars(Acquire(w)) /\ WF_vars(Append1(w))
                                  /\ WF_vars(Install(w)) /\ WF_vars(Release(w))
            /\ SF_vars(Fire) /\ WF_vars(Pop) /\ WF_vars(Check) /\ WF_vars(ExecOne)
Spec == Init /\ [][Next]_vars /\ Fairness

-----------------------------------------------------------------------------
(* the lists are the abstract queue; nobody else holds the lock *)
InvAbstract == lists = abs
InvLock == lock # "free" => pc[lock] \in {"locked", "appended", "leaving", "pop", "check"}
InvOne == Cardinality({p \in DOMAIN pc : pc[p] \in {"locked", "appended", "leaving", "pop", "check"}}) <= 1
(* a waiting request always has a handler which will serve it *)
InvServed == lock = "free" /\ ~QEmpty(lists) => handler /\ source
(* executed at most once for every issue *)
Issued(r) == Cardinality({<<w, k>> \in {<<w, k>> : w \in Workers, k \in 1..8} :
                 k <= Len(todo[w]) /\ todo[w][k] = r})
Quiet == /\ \A w \in Workers : todo[w] = <<>>
         /\ QEmpty(lists) /\ cur = <<>>
AllDone == <>[]Quiet
(* every request which is in the queue is executed afterwards *)
Reqs == UNION {UNION {Rng(p[w]) : w \in Workers} : p \in PlanSet}
Count1(r) == Cardinality({k \in DOMAIN done : done[k] = r})
Served == \A r \in Reqs : (Has(lists[r.pri], r)) ~> (Count1(r) >= 1)
(* what is waiting with a higher priority is served first: Pop takes by    *)
(* NextPri, and requests of one priority keep their order (InvAbstract)    *)

PlansOf == LET reqs == {R("x", "low"), R("y", "normal"), R("z", "high"), R("x", "normal")}
               ps == {<<a>> : a \in reqs} \cup {<<a, b>> : a \in reqs, b \in reqs}
           IN  [Workers -> ps]
=============================================================================
