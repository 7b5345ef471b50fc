----------------------------- MODULE QueueTrace -----------------------------
(***************************************************************************)
(* Judges recorded schedules of several threads issuing requests against   *)
(* the queue of Larch (Enqueue, NextPri).  A recorded line is              *)
(*    start/end  thread th issued request [n, pri]                         *)
(*    exec       request [n, pri] was executed, by the thread th           *)
(*    fin        all threads have finished and the main loop is idle       *)
(* When exactly a request gets into the queue between start and end, and   *)
(* when the main loop takes it out before executing it, is not recorded:   *)
(* these are internal steps, and TLC looks for some placement of them      *)
(* which explains the lines.  A trace is accepted when one exists.         *)
(* A request of the thread which created the tree is executed by it        *)
(* between its start and end, without touching the queue; all others by    *)
(* the main loop (thread "m"; often, but not always, the creating one).    *)
(***************************************************************************)
EXTENDS Larch, Json, IOUtils, Integers

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, i, Q, cur, open, sync
vars == <<tr, i, Q, cur, open, sync>>

Req(l) == ReqMod(l.n, l.pri)
Lines == Traces[tr].lines
L == Lines[i + 1]
Creator == Traces[tr].creator

Init == /\ tr \in 1..Len(Traces)
        /\ i = 0 /\ Q = EmptyQ
        /\ cur = <<>>          \* taken out, not yet executed
        /\ open = {}           \* [th, r]: being issued, not in the queue yet
        /\ sync = <<>>         \* requests of the creating thread being executed (a stack)

At(e) == i >= 0 /\ i < Len(Lines) /\ L.e = e
Step == /\ i' = i + 1 /\ UNCHANGED tr
        /\ PrintT("AT|" \o ToString(tr) \o "|" \o ToString(i + 1))

StartW == /\ At("start") /\ L.th # Creator /\ Step
          /\ open' = open \cup {[th |-> L.th, r |-> Req(L)]}
          /\ UNCHANGED <<Q, cur, sync>>
Put == \E x \in open :
          /\ i >= 0
          /\ Q' = Enqueue(Q, <<x.r>>)
          /\ open' = open \ {x}
          /\ UNCHANGED <<tr, i, cur, sync>>
EndW == /\ At("end") /\ L.th # Creator /\ Step
        /\ ~\E x \in open : x.th = L.th
        /\ UNCHANGED <<Q, cur, open, sync>>
Take == /\ i >= 0 /\ cur = <<>> /\ ~QEmpty(Q) /\ (sync = <<>> \/ Creator # "m")
        /\ LET pri == NextPri(Q) IN
           /\ cur' = <<Head(Q[pri])>>
           /\ Q' = [Q EXCEPT ![pri] = Tail(@)]
        /\ UNCHANGED <<tr, i, open, sync>>
ExecQ == /\ At("exec") /\ L.th = "m" /\ Step
         /\ cur # <<>> /\ cur[1].n = L.n      \* the priority is not observable here
         /\ cur' = <<>>
         /\ UNCHANGED <<Q, open, sync>>
StartM == /\ At("start") /\ L.th = Creator /\ Step
          /\ sync' = Append(sync, [r |-> Req(L), done |-> FALSE])
          /\ UNCHANGED <<Q, cur, open>>
ExecM == /\ At("exec") /\ L.th = Creator /\ Step
         /\ sync # <<>> /\ ~sync[Len(sync)].done /\ sync[Len(sync)].r.n = L.n
         /\ sync' = [sync EXCEPT ![Len(sync)].done = TRUE]
         /\ UNCHANGED <<Q, cur, open>>
EndM == /\ At("end") /\ L.th = Creator /\ Step
        /\ sync # <<>> /\ sync[Len(sync)].done
        /\ sync' = SubSeq(sync, 1, Len(sync) - 1)
        /\ UNCHANGED <<Q, cur, open>>
Fin == /\ At("fin")
       /\ QEmpty(Q) /\ cur = <<>> /\ open = {} /\ sync = <<>>
       /\ PrintT("DONE|" \o ToString(tr) \o "|" \o ToString(i + 1) \o "|accepted")
       /\ i' = 0 - 1 /\ UNCHANGED <<tr, Q, cur, open, sync>>

Next == StartW \/ Put \/ EndW \/ Take \/ ExecQ \/ StartM \/ ExecM \/ EndM \/ Fin
Spec == Init /\ [][Next]_vars
=============================================================================
